// Stand-in for ext/hash-library's sha1.h (not part of /repo): same interface, lower case hex digest.
#pragma once
#include <cstdint>
#include <string>
class SHA1 {
public:
  std::string operator()(const std::string& msg) const {
    auto rol = [](uint32_t x, int n) { return x << n | x >> (32 - n); };
    std::string m = msg; uint64_t bits = (uint64_t)msg.size() * 8;
    m += '\x80'; while (m.size() % 64 != 56) m += '\0';
    for (int i = 7; i >= 0; --i) m += (char)(bits >> (8 * i));
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    for (std::size_t o = 0; o < m.size(); o += 64) {
      uint32_t w[80];
      for (int i = 0; i < 16; ++i) w[i] = (uint32_t)(unsigned char)m[o + 4 * i] << 24 | (uint32_t)(unsigned char)m[o + 4 * i + 1] << 16 | (uint32_t)(unsigned char)m[o + 4 * i + 2] << 8 | (unsigned char)m[o + 4 * i + 3];
      for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
      uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
      for (int i = 0; i < 80; ++i) {
        uint32_t f = i < 20 ? (b & c) | (~b & d) : i < 40 ? b ^ c ^ d : i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
        uint32_t k = i < 20 ? 0x5A827999 : i < 40 ? 0x6ED9EBA1 : i < 60 ? 0x8F1BBCDC : 0xCA62C1D6;
        uint32_t t = rol(a, 5) + f + e + k + w[i];
        e = d; d = c; c = rol(b, 30); b = a; a = t;
      }
      h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    static const char* x = "0123456789abcdef"; std::string s;
    for (uint32_t v: h) for (int i = 28; i >= 0; i -= 4) s += x[v >> i & 15];
    return s;
  }
};
