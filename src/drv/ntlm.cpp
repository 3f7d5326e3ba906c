// C19: NTLM = MD4(UTF-16LE(password)); MD4 in any number of updates
#include "mc/explore.hpp"
#include "mc/hashref.hpp"
#include "md4.h"
#include "ntlm.hpp"
using namespace mc;

static std::string call(const std::string& pw) { auto a = hibp::ntlm(pw); return std::string((const char*)a.data(), a.size()); }
static std::string esc(const std::string& s) { return s.size() > 40 ? hex(s.substr(0, 40)) + "..(" + std::to_string(s.size()) + " bytes)" : hex(s); }
static void judge(Ctx& c, const std::string& pw) {
  auto u = ref::utf16le(pw);
  std::string got; bool threw = false;
  try { got = call(pw); } catch (const std::exception&) { threw = true; }
  if (u) {
    if (threw) c.fail("refused", "valid UTF-8 password " + esc(pw) + " is refused");
    if (got != ref::md4(*u)) c.fail("ntlm", "password bytes " + esc(pw) + ": hash is " + hex(got) + ", MD4 of the UTF-16LE form is " + hex(ref::md4(*u)));
  } else if (!threw) c.fail("invalid", "invalid UTF-8 " + esc(pw) + " is hashed");
}
static void all_codepoints(Ctx& c) {
  uint32_t blk = (uint32_t)c.choose(272); int form = c.choose(3);
  uint64_t n = 0;
  for (uint32_t cp = blk * 4096; cp != (blk + 1) * 4096; ++cp) {
    std::string s = ref::utf8(cp); // surrogates give (invalid) three byte forms
    judge(c, form == 0 ? s : form == 1 ? "a" + s : s + ref::utf8(0x1F600));
    ++n;
  }
  c.evals(n, n); c.sample("code points from " + std::to_string(blk * 4096) + " form " + std::to_string(form));
}
static const uint32_t CP[] = {0, 1, 'a', 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xFFF, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x103FF, 0x10400, 0xFFFFF, 0x10FFFF};
static void combos(Ctx& c) {
  int len = c.choose(c.thorough ? 6 : 5); std::string s, d;
  for (int i = 0; i != len; ++i) { uint32_t cp = CP[c.choose(20)]; s += ref::utf8(cp); d += std::to_string(cp) + " "; }
  judge(c, s); c.nontrivial(fnv(s)); c.sample("code points " + d);
}
static void lengths(Ctx& c) {
  int kind = c.choose(5), len = c.choose(c.thorough ? 2100 : 700);
  std::string s;
  for (int i = 0; i != len; ++i) s += kind == 0 ? std::string(1, (char)('a' + i % 26)) : kind == 1 ? ref::utf8(0xE9 + (uint32_t)i % 50) : kind == 2 ? ref::utf8(0x4E00 + (uint32_t)i) : kind == 3 ? ref::utf8(0x1F600 + (uint32_t)i % 70) : ref::utf8(CP[(i * 7 + 3) % 20]);
  judge(c, s);
  if (len % 5 == 0) { judge(c, s + "\xff"); judge(c, "\xc3" + s); judge(c, s + "\xe2\x82"); } // an error after / before a long valid part
  c.nontrivial(fnv(s)); c.sample("kind " + std::to_string(kind) + " length " + std::to_string(len));
}
// every byte string up to 2 bytes, and up to 4 (thorough 5) over the bytes that start, continue or break a sequence
static void bytes12(Ctx& c) {
  int a = c.choose(257); if (a == 256) { judge(c, ""); return; }
  judge(c, std::string(1, (char)a)); uint64_t n = 1;
  for (int b = 0; b != 256; ++b) { std::string s{(char)a, (char)b}; judge(c, s); judge(c, "xy" + s + "z"); n += 2; }
  c.evals(n, n); c.sample("all strings of two bytes starting with " + std::to_string(a));
}
static const unsigned char BV[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF8, 0xFC, 0xFE, 0xFF};
static void bytes34(Ctx& c) {
  constexpr int NB = sizeof BV;
  std::string s{(char)BV[c.choose(NB)], (char)BV[c.choose(NB)]};
  uint64_t n = 0;
  for (unsigned char x: BV) { judge(c, s + (char)x); ++n;
    for (unsigned char y: BV) { judge(c, s + (char)x + (char)y); ++n;
      if (c.thorough) for (unsigned char z: BV) { judge(c, s + (char)x + (char)y + (char)z); ++n; } } }
  c.evals(n, n); c.sample("byte strings of length 3..4 starting " + hex(s));
}
static std::string upd(const std::string& m, std::vector<std::size_t> cuts) {
  MD4_CTX x; MD4_Init(&x); std::size_t o = 0; cuts.push_back(m.size());
  for (auto k: cuts) { MD4_Update(&x, (const unsigned char*)m.data() + o, k - o); o = k; }
  std::string d(16, 0); MD4_Final((unsigned char*)d.data(), &x); return d;
}
static void md4_cuts(Ctx& c) {
  std::size_t len = (std::size_t)c.choose(c.thorough ? 330 : 200); int pat = c.choose(3);
  std::string m; for (std::size_t i = 0; i != len; ++i) m += (char)(pat == 0 ? i * 31 + 7 : pat == 1 ? 0 : 255);
  std::string w = ref::md4(m); uint64_t n = 1;
  auto bad = [&](std::size_t a, std::size_t b) { c.fail("md4", "MD4 of " + std::to_string(len) + " bytes updated in pieces ending at " + std::to_string(a) + "," + std::to_string(b) + " is wrong"); };
  if (upd(m, {}) != w) bad(0, 0);
  for (std::size_t a = 0; a <= len; ++a) { if (upd(m, {a}) != w) bad(a, a); ++n; for (std::size_t b = a; b <= len; b += (pat == 0 ? 1 : 7)) { if (upd(m, {a, b}) != w) bad(a, b); ++n; } }
  c.evals(n, n); c.sample("message of " + std::to_string(len) + " bytes: every cut into two and three updates");
}
static void md4_three(Ctx& c) { // pieces of every size class, many in a row
  static const std::size_t P[] = {0, 1, 3, 55, 56, 63, 64, 65, 127, 128, 129}; std::string m; std::vector<std::size_t> cuts; std::string d;
  int k = c.choose(c.thorough ? 6 : 5);
  for (int i = 0; i != k; ++i) { std::size_t l = P[c.choose(11)]; for (std::size_t j = 0; j != l; ++j) m += (char)(m.size() * 13 + 5); cuts.push_back(m.size()); d += std::to_string(l) + " "; }
  if (upd(m, cuts) != ref::md4(m)) c.fail("md4", "MD4 updated in pieces of " + d + "bytes is wrong");
  c.nontrivial(fnv(d)); c.sample("updates of " + d);
}
static void md4_huge(Ctx& c) { // the bit count passes 2^32
  std::size_t len = (1u << 29) + 64 * 3 + 5; std::string m(len, 'q'); for (std::size_t i = 0; i < len; i += 4099) m[i] = (char)i;
  std::string w = ref::md4(m);
  if (upd(m, {}) != w) c.fail("md4", "MD4 of 2^29+197 bytes is wrong");
  if (upd(m, {100, (1u << 29) - 1, (1u << 29) + 1}) != w) c.fail("md4", "MD4 of 2^29+197 bytes in pieces is wrong");
  c.evals(2, 2); c.sample("message of 2^29+197 bytes");
}
static Reg r[] = {Reg({.prop = "C19", .name = "every-code-point", .body = all_codepoints}), Reg({.prop = "C19", .name = "boundary-combinations", .body = combos}),
  Reg({.prop = "C19", .name = "lengths", .body = lengths}), Reg({.prop = "C19", .name = "bytes-1-2", .body = bytes12}), Reg({.prop = "C19", .name = "bytes-3-4", .body = bytes34}),
  Reg({.prop = "C19", .name = "md4-cuts", .body = md4_cuts}), Reg({.prop = "C19", .name = "md4-pieces", .body = md4_three}), Reg({.prop = "C19", .name = "md4-bit-count", .body = md4_huge, .once = true})};
int main(int argc, char** argv) { return main_(argc, argv); }
