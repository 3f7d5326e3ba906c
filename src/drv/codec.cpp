// C09: text <-> binary record codec, hash validity, range names and URLs
#include "mc/explore.hpp"
#include "mc/ref.hpp"
#include "hibp.hpp"
#include <sstream>
using namespace mc;

template <class T> constexpr std::size_t HS = sizeof(T::hash);
template <class T> std::string bytes(const T& p) { return std::string((const char*)p.hash.data(), HS<T>); }
template <class T> const char* nm() { return HS<T> == 20 ? "sha1" : HS<T> == 16 ? "ntlm" : "sha1t64"; }

static const std::string DIG = "0123456789abcdefABCDEF";

static std::vector<int32_t> counts(bool thorough) {
  std::vector<int32_t> v{0, -1, -2, -9, -10, -11, -999999999, -1000000000, -2147483647, INT32_MIN};
  for (int64_t p = 1; p <= 2147483647LL; p *= 10) for (int64_t d = -1; d <= 1; ++d) if (p + d <= 2147483647LL && p + d > 0) v.push_back((int32_t)(p + d));
  for (int b = 0; b < 31; ++b) { v.push_back((int32_t)(1u << b)); v.push_back((int32_t)((1u << b) - 1)); }
  v.push_back(2147483647); v.push_back(2147483646);
  for (int i = 2; i < (thorough ? 20000 : 1200); ++i) v.push_back(i);
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

template <class T> void expect(Ctx& c, const std::string& line, const std::string& hash, int32_t cnt) {
  T p{line};
  if (bytes(p) != hash) c.fail("parse-hash", std::string(nm<T>()) + ": parsing '" + line + "' gave hash " + ref::hexup(bytes(p)) + ", expected " + ref::hexup(hash));
  if (p.count != cnt) c.fail("parse-count", std::string(nm<T>()) + ": parsing '" + line + "' gave count " + std::to_string(p.count) + ", expected " + std::to_string(cnt));
}

// every byte position x every pair of digit characters x background x with/without count
template <class T> void digits(Ctx& c) {
  std::size_t pos = (std::size_t)c.choose((int)HS<T>);
  int bg = c.choose(4);
  static const char* BG[] = {"00", "fF", "A5", "1e"};
  std::string t; for (std::size_t i = 0; i != HS<T>; ++i) t += BG[bg];
  c.sample(std::string(nm<T>()) + " byte " + std::to_string(pos) + " over all 22x22 digit pairs, other bytes " + BG[bg]);
  uint64_t n = 0;
  for (char a: DIG) for (char b: DIG) {
    std::string u = t; u[2 * pos] = a; u[2 * pos + 1] = b;
    std::string h = ref::unhex(u);
    expect<T>(c, u, h, -1);
    expect<T>(c, u + ":7", h, 7);
    T p{u + ":42"};
    std::string out = p.to_string();
    if (out != ref::hexup(h) + ":42") c.fail("print", "printing gave '" + out + "' for " + u + ":42");
    n += 3;
  }
  c.evals(n, n);
}

// all counts of the set: parse, print, parse back
template <class T> void cnts(Ctx& c) {
  static const auto V = counts(c.thorough);
  int blk = c.choose((int)(V.size() + 99) / 100);
  int bg  = c.choose(3);
  std::string h(HS<T>, bg == 0 ? '\0' : bg == 1 ? '\xff' : '\x9c');
  for (std::size_t i = 0; i != h.size() && bg == 2; ++i) h[i] = (char)(i * 29 + 3);
  c.sample(std::string(nm<T>()) + " counts " + std::to_string(V[(std::size_t)blk * 100]) + ".. with hash " + ref::hexup(h));
  uint64_t n = 0;
  for (std::size_t i = (std::size_t)blk * 100; i < std::min(V.size(), (std::size_t)blk * 100 + 100); ++i) {
    ref::R r{h, V[i]};
    if (V[i] >= 0) {
      expect<T>(c, ref::text(r), h, V[i]);
      std::string low = ref::text(r); for (auto& ch: low) ch = (char)std::tolower(ch);
      expect<T>(c, low, h, V[i]);
    }
    T p; std::memcpy(p.hash.data(), h.data(), h.size()); p.count = V[i];
    if (p.to_string() != ref::text(r)) c.fail("print", std::string(nm<T>()) + ": printing gave '" + p.to_string() + "', expected '" + ref::text(r) + "'");
    std::ostringstream os; os << p;
    if (os.str() != ref::text(r)) c.fail("print", std::string(nm<T>()) + ": operator<< gave '" + os.str() + "', expected '" + ref::text(r) + "'");
    T q{p.to_string()};
    if (bytes(q) != h || q.count != V[i]) c.fail("roundtrip", "print and parse of " + ref::text(r) + " gave " + q.to_string());
    if (sizeof(T) != HS<T> + 4) c.fail("layout", "record size");
    std::string raw((const char*)&p, sizeof p);
    if (raw != ref::bin(r)) c.fail("layout", "binary image of " + ref::text(r) + " is " + hex(raw));
    n += 4;
  }
  c.evals(n, n);
}

// sha1t64 from full sha1 lines
// ------------------------------------------------------------------ C27: text that is not a record
template <class T> void refused(Ctx& c, const std::string& l) {
  std::string x(l); x.shrink_to_fit(); std::string got; try { T p{x}; got = p.to_string(); } catch (const std::exception&) { return; }
  c.fail("made-up", std::string(nm<T>()) + ": '" + l.substr(0, 80) + "' (" + std::to_string(l.size()) + " characters) became " + got);
}
template <class T> void not_hashes(Ctx& c) {
  std::size_t H = HS<T> * 2; std::size_t p = (std::size_t)c.choose((int)H); uint64_t n = 0; int bg = c.choose(4); static const char* TAIL[] = {"", ":12", ":", "\r"};
  std::string h(HS<T>, bg == 0 ? '\0' : bg == 1 ? '\xff' : '\x9c'); std::string good = ref::hexup(h); if (bg == 3) for (auto& ch: good) ch = (char)std::tolower(ch);
  for (auto tl: TAIL) { refused<T>(c, good.substr(0, p) + tl); ++n;
    for (int b = 0; b != 256; ++b) if (!std::isxdigit(b)) { std::string l = good; l[p] = (char)b; refused<T>(c, l + tl); ++n; if (HS<T> == 8) { refused<T>(c, l + std::string(24, 'A') + tl); ++n; }
      for (std::size_t q = p + 1; q < H && bg == 0 && b % 16 == 7; ++q) { l[q] = ':'; refused<T>(c, l + tl); l[q] = good[q]; ++n; } } }
  c.evals(n, n); c.sample(std::string(nm<T>()) + ": every byte that is no digit at position " + std::to_string(p));
}

static void from_sha1(Ctx& c) {
  static const auto V = counts(c.thorough);
  int blk = c.choose((int)(V.size() + 99) / 100), pat = c.choose(6);
  bool lower = c.flag();
  std::string h(20, '\0');
  for (std::size_t i = 0; i != 20; ++i) h[i] = (char)(pat == 0 ? 0 : pat == 1 ? 255 : pat == 2 ? i * 13 + 1 : pat == 3 ? 240 - i : pat == 4 ? (i < 8 ? 0 : 255) : (i < 8 ? 0xAB : 0x10));
  c.sample("sha1t64 from sha1 line " + ref::hexup(h));
  uint64_t n = 0;
  auto lc = [&](std::string s) { if (lower) for (auto& ch: s) ch = (char)std::tolower(ch); return s; };
  for (std::size_t i = (std::size_t)blk * 100; i < std::min(V.size(), (std::size_t)blk * 100 + 100); ++i) {
    if (V[i] < 0) continue;
    expect<hibp::pawned_pw_sha1t64>(c, lc(ref::text({h, V[i]})), h.substr(0, 8), V[i]);
    ++n;
  }
  expect<hibp::pawned_pw_sha1t64>(c, lc(ref::hexup(h)), h.substr(0, 8), -1);
  expect<hibp::pawned_pw_sha1t64>(c, lc(ref::hexup(h.substr(0, 8))), h.substr(0, 8), -1);
  c.evals(n + 2, n + 2);
}

template <class T> void valid(Ctx& c) {
  int L = c.choose((int)HS<T> * 2 + 8);
  int bg = c.choose(3);
  std::string base((std::size_t)L, "0AF"[bg]);
  bool want = (std::size_t)L == HS<T> * 2;
  if (hibp::is_valid_hash<T>(base) != want) c.fail("valid", std::string(nm<T>()) + ": is_valid_hash('" + base + "') = " + (want ? "false" : "true"));
  uint64_t n = 1;
  for (int p = 0; p != L; ++p) for (int ch = 0; ch != 256; ++ch) {
    std::string s = base; s[(std::size_t)p] = (char)ch;
    bool ok = (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'F');
    if (hibp::is_valid_hash<T>(s) != (want && ok)) c.fail("valid", std::string(nm<T>()) + ": is_valid_hash of length " + std::to_string(L) + " with char " + std::to_string(ch) + " at " + std::to_string(p) + " is wrong");
    ++n;
  }
  c.sample(std::string(nm<T>()) + " length " + std::to_string(L) + ", every byte value at every position");
  c.evals(n, n);
}

static void urls(Ctx& c) {
  int blk = c.choose(256);
  uint64_t n = 0;
  for (unsigned i = (unsigned)blk * 4096; i != (unsigned)(blk + 1) * 4096; ++i) {
    char p[8]; std::snprintf(p, sizeof p, "%05X", i);
    for (int t = 0; t != 2; ++t) {
      std::string b = std::string(t ? "http://localhost:8090/" : "https://api.pwnedpasswords.com/range/") + p;
      std::string got[] = {hibp::url<hibp::pawned_pw_sha1>(i, t), hibp::url<hibp::pawned_pw_sha1t64>(i, t), hibp::url(p, false, t), hibp::url<hibp::pawned_pw_sha1>(std::string(p), t)};
      for (auto& g: got) if (g != b) c.fail("url", "url of range " + std::to_string(i) + " is " + g + ", expected " + b);
      std::string gn[] = {hibp::url<hibp::pawned_pw_ntlm>(i, t), hibp::url(p, true, t), hibp::url<hibp::pawned_pw_ntlm>(std::string(p), t)};
      for (auto& g: gn) if (g != b + "?mode=ntlm") c.fail("url", "ntlm url of range " + std::to_string(i) + " is " + g);
      n += 7;
    }
  }
  c.sample("ranges from " + std::to_string(blk * 4096) + ": all URLs");
  c.evals(n, n);
}

template <class T> struct RegT {
  explicit RegT(const char* n) {
    scenarios().push_back({.prop = "C09", .name = std::string("digits-") + n, .body = digits<T>});
    scenarios().push_back({.prop = "C27", .name = std::string("parse-") + n, .body = not_hashes<T>});
    scenarios().push_back({.prop = "C09", .name = std::string("counts-") + n, .body = cnts<T>});
    scenarios().push_back({.prop = "C09", .name = std::string("valid-") + n, .body = valid<T>});
  }
};
static RegT<hibp::pawned_pw_sha1> r1("sha1");
static RegT<hibp::pawned_pw_ntlm> r2("ntlm");
static RegT<hibp::pawned_pw_sha1t64> r3("sha1t64");
static Reg r4({.prop = "C09", .name = "sha1t64-from-sha1", .body = from_sha1});
static Reg r5({.prop = "C09", .name = "urls", .body = urls});

int main(int argc, char** argv) { return main_(argc, argv); }
