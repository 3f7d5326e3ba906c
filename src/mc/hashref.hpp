// Independent reference for MD4 (RFC 1320), UTF-8 -> UTF-16LE and NTLM; SHA-1 from the stub.
#pragma once
#include "mc/ref.hpp"
#include "sha1.h"
#include <optional>
namespace ref {
inline std::string md4(const std::string& in) {
  auto rol = [](uint32_t x, unsigned s) { return x << s | x >> (32 - s); };
  uint64_t bits = (uint64_t)in.size() * 8;
  std::string tail = in.substr(in.size() / 64 * 64);
  tail += '\x80'; while (tail.size() % 64 != 56) tail += '\0';
  for (int i = 0; i < 8; ++i) tail += (char)(bits >> (8 * i));
  uint32_t A = 0x67452301, B = 0xefcdab89, C = 0x98badcfe, D = 0x10325476;
  auto block = [&](const char* p) {
    uint32_t X[16];
    for (int i = 0; i < 16; ++i) X[i] = (uint32_t)(unsigned char)p[4 * i] | (uint32_t)(unsigned char)p[4 * i + 1] << 8 | (uint32_t)(unsigned char)p[4 * i + 2] << 16 | (uint32_t)(unsigned char)p[4 * i + 3] << 24;
    uint32_t v[4] = {A, B, C, D};
    static const int K2[16] = {0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15}, K3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
    static const unsigned S[3][4] = {{3, 7, 11, 19}, {3, 5, 9, 13}, {3, 9, 11, 15}};
    for (int r = 0; r < 3; ++r) for (int i = 0; i < 16; ++i) {
      uint32_t &a = v[(16 - i) & 3], b = v[(17 - i) & 3], c = v[(18 - i) & 3], d = v[(19 - i) & 3];
      uint32_t f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
      a = rol(a + f + X[r == 0 ? i : r == 1 ? K2[i] : K3[i]] + (r == 0 ? 0u : r == 1 ? 0x5A827999u : 0x6ED9EBA1u), S[r][i & 3]);
    }
    A += v[0]; B += v[1]; C += v[2]; D += v[3];
  };
  for (std::size_t o = 0; o + 64 <= in.size(); o += 64) block(in.data() + o);
  for (std::size_t o = 0; o < tail.size(); o += 64) block(tail.data() + o);
  std::string out;
  for (uint32_t x: {A, B, C, D}) for (int i = 0; i < 4; ++i) out += (char)(x >> (8 * i));
  return out;
}
inline std::string utf8(uint32_t cp) {
  std::string s;
  if (cp < 0x80) s += (char)cp;
  else if (cp < 0x800) { s += (char)(0xC0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { s += (char)(0xE0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
  else { s += (char)(0xF0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
  return s;
}
// strict decoder (RFC 3629); nullopt: not valid UTF-8
inline std::optional<std::string> utf16le(const std::string& s) {
  std::string o; auto put = [&](uint32_t u) { o += (char)u; o += (char)(u >> 8); };
  for (std::size_t i = 0; i < s.size();) {
    unsigned char c = (unsigned char)s[i]; int n; uint32_t cp;
    if (c < 0x80) { n = 0; cp = c; }
    else if (c >= 0xC2 && c < 0xE0) { n = 1; cp = c & 31; }
    else if (c >= 0xE0 && c < 0xF0) { n = 2; cp = c & 15; }
    else if (c >= 0xF0 && c < 0xF5) { n = 3; cp = c & 7; }
    else return {};
    if (i + (std::size_t)n >= s.size()) return {};
    for (int k = 1; k <= n; ++k) { unsigned char x = (unsigned char)s[i + (std::size_t)k]; if ((x & 0xC0) != 0x80) return {}; cp = cp << 6 | (x & 63); }
    if ((n == 2 && cp < 0x800) || (n == 3 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp < 0xE000)) return {};
    if (cp < 0x10000) put(cp); else { cp -= 0x10000; put(0xD800 + (cp >> 10)); put(0xDC00 + (cp & 0x3FF)); }
    i += (std::size_t)n + 1;
  }
  return o;
}
inline std::string ntlm(const std::string& pw) { return md4(*utf16le(pw)); }
inline std::string sha1(const std::string& pw) { return unhex(SHA1{}(pw)); }
} // namespace ref
