// Reference notions, independent of the code under test: a record is a byte string and a count.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace ref {
struct R {
  std::string  h; // hash bytes
  int32_t      c = -1;
  bool operator==(const R& o) const { return h == o.h && c == o.c; }
};
using DB = std::vector<R>;
inline bool byhash(const R& a, const R& b) { return std::memcmp(a.h.data(), b.h.data(), a.h.size()) < 0; }
inline std::string bin(const R& r) { std::string s = r.h; s.append((const char*)&r.c, 4); return s; }
inline std::string bin(const DB& d) { std::string s; for (auto& r: d) s += bin(r); return s; }
inline DB parse(const std::string& f, std::size_t hs) {
  DB d;
  for (std::size_t i = 0; i + hs + 4 <= f.size(); i += hs + 4) { R r; r.h = f.substr(i, hs); std::memcpy(&r.c, f.data() + i + hs, 4); d.push_back(r); }
  return d;
}
inline std::string hexup(const std::string& b) {
  static const char* d = "0123456789ABCDEF"; std::string s;
  for (unsigned char c: b) { s += d[c >> 4]; s += d[c & 15]; }
  return s;
}
inline std::string unhex(const std::string& t) {
  auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  std::string s;
  for (std::size_t i = 0; i + 1 < t.size(); i += 2) s += (char)(v(t[i]) * 16 + v(t[i + 1]));
  return s;
}
inline std::string text(const R& r) { return hexup(r.h) + ":" + std::to_string(r.c); }
inline std::string text(const DB& d) { std::string s; for (auto& r: d) s += text(r) + "\n"; return s; }
inline std::string show(const DB& d, std::size_t max = 12) {
  std::string s = "[" + std::to_string(d.size()) + " records";
  for (std::size_t i = 0; i != d.size() && i != max; ++i) s += (i ? ", " : ": ") + text(d[i]);
  return s + (d.size() > max ? ", ...]" : "]");
}
} // namespace ref
