// C13 (hibp-sort), C14 (hibp-search), C20 (hibp-topn), C21 (hibp-diff), C22 (hibp-convert), C23 (hibp-dupes):
// the real executables on all small databases and on structured large ones
#include "drv/toolkit.hpp"

// ------------------------------------------------------------------ C14
static void judge_search(Ctx& c, const Ty& t, const ref::DB& db, const ref::R& needle, const std::string& arg, bool hash, const std::vector<std::string>& more, const std::string& what) {
  Run r = tool({"hibp-search", "db", arg}, t.opt); if (hash) r.argv.push_back("--hash");
  for (auto& m: more) r.argv.push_back(m);
  run_checked(r);
  const ref::R* hit = nullptr; for (auto& x: db) if (x.h == needle.h) { hit = &x; break; }
  std::string fl = hit ? "found  = " + ref::text(*hit) : "";
  bool found = false, notf = false, other = false;
  std::istringstream is(r.out); std::string l;
  while (std::getline(is, l)) { if (hit && l == fl) found = true; else if (l.rfind("found", 0) == 0) other = true; if (l == "not found") notf = true; }
  if (!r.ok()) c.fail("search", what + ": a search ends without an answer" + tail(r));
  if (hit ? (!found || notf || other) : (found || other || !notf)) c.fail("search", what + ": expected " + (hit ? fl : "not found") + tail(r));
}
static std::vector<std::string> PW{"password", "", "a", "correct horse", "\xc3\xa9t\xc3\xa9", "x\xf0\x9f\x98\x80", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"};
static std::string pwhash(const Ty& t, const std::string& p) { return t.hs == 16 ? ref::ntlm(p) : ref::sha1(p).substr(0, t.hs); }

template <const Ty& t> void search_small(Ctx& c) { // all subsets of seven keys x all needles on and between them
  int sub = c.choose(1 << 7); ref::DB d; std::string ks;
  for (int i = 0; i != 7; ++i) if (sub >> i & 1) { d.push_back(mk(t, i == 6 ? 0xFFFF : (unsigned)i * 37 + (i > 3 ? 0x4000 : 0), i * 1000 + 1)); ks += std::to_string(i); }
  put("db", ref::bin(d));
  uint64_t n = 0;
  std::vector<ref::R> needles;
  for (int i = 0; i != 7; ++i) { ref::R k = mk(t, i == 6 ? 0xFFFF : (unsigned)i * 37 + (i > 3 ? 0x4000 : 0), 0); needles.push_back(k);
    ref::R b = k; b.h[t.hs - 1] = (char)(b.h[t.hs - 1] - 1); needles.push_back(b); b = k; b.h[t.hs - 1] = (char)(b.h[t.hs - 1] + 1); needles.push_back(b); }
  needles.push_back({std::string(t.hs, '\0'), 0}); needles.push_back({std::string(t.hs, '\xff'), 0});
  for (auto& nd: needles) { judge_search(c, t, d, nd, ref::hexup(nd.h), true, {}, std::string(t.name) + " keys {" + ks + "}"); ++n; c.nontrivial(mix(fnv(nd.h), (uint64_t)sub)); }
  c.evals(n, 0); c.sample(std::string(t.name) + " database with keys {" + ks + "}, " + std::to_string(n) + " needles by hash");
}
template <const Ty& t> void search_plain(Ctx& c) { // all subsets of passwords, plain text needles
  int sub = c.choose(1 << 6); ref::DB d;
  std::vector<std::string> pw; for (auto& p: PW) if (!p.empty()) pw.push_back(p);
  for (int i = 0; i != 6; ++i) if (sub >> i & 1) d.push_back({pwhash(t, pw[(std::size_t)i]), i + 3});
  std::sort(d.begin(), d.end(), ref::byhash); put("db", ref::bin(d));
  for (auto& p: pw) { judge_search(c, t, d, {pwhash(t, p), 0}, p, false, {}, std::string(t.name) + " passwords subset " + std::to_string(sub)); c.nontrivial(fnv(p, (uint64_t)sub)); }
  c.evals(pw.size(), 0); c.sample(std::string(t.name) + " passwords subset " + std::to_string(sub));
}
template <const Ty& t> void search_large(Ctx& c) { // sizes around the read buffer, every record and every gap
  int buf = 4096 / (int)(t.hs + 4);
  static const int DN[] = {-1, 0, 1}; int n = buf * (1 + c.choose(3)) + DN[c.choose(3)];
  int k = c.choose(c.thorough ? 64 : 16), K = c.thorough ? 64 : 16;
  ref::DB d; for (int i = 0; i != n; ++i) d.push_back(mk(t, (unsigned)i * 2 + 1, i));
  put("db", ref::bin(d)); uint64_t ev = 0;
  for (int i = k; i <= 2 * n + 1; i += K) { if (!c.thorough && i % 3 && (i / 2) % buf > 3 && (i / 2) % buf < buf - 3) continue;
    auto nd = mk(t, (unsigned)i, 0); judge_search(c, t, d, nd, ref::hexup(nd.h), true, {}, std::to_string(n) + " records"); ++ev; }
  c.evals(ev, ev); c.sample(std::string(t.name) + " " + std::to_string(n) + " records, needles " + std::to_string(k) + " mod " + std::to_string(K));
}
template <const Ty& t> void search_huge(Ctx& c) { // databases as large as the real ones
  static const int SH[] = {31, 32, 33, 34, 35, 36}; int sh = SH[c.choose(6)]; uint64_t n; ref::DB d; if (!huge_db(t, "db", sh, n, d)) throw Infeasible{};
  std::string w = std::string(t.name) + " database of " + std::to_string(n) + " records"; uint64_t ev = 0; ref::DB all = d; all.insert(all.begin(), {std::string(t.hs, '\0'), 0});
  for (unsigned i = 0; i <= 2 * d.size(); ++i) { auto nd = i ? mk(t, i, 0) : all[0]; judge_search(c, t, all, nd, ref::hexup(nd.h), true, {}, w); ++ev; }
  c.evals(ev, ev); c.sample(w + ": " + std::to_string(ev) + " searches"); unlink("db");
}
// four keys that agree everywhere but at bytes p < q, with opposite tendencies there; every subset, every one as the needle
static void pairbytes(Ctx& c, const Ty& t, int& p, int& q) { p = c.choose((int)t.hs - 1); q = p + 1 + c.choose((int)t.hs - 1 - p); }
static ref::R pk(const Ty& t, int p, int q, int i, int32_t cnt) { static const unsigned char A[] = {0x7f, 0x80, 0x80, 0x7f}; // in hash order: 0 3 1 2
  ref::R r{std::string(t.hs, '\x55'), cnt}; r.h[(std::size_t)p] = (char)A[i]; r.h[(std::size_t)q] = (char)(i == 0 || i == 1 ? 0x00 : 0xff); return r; }
static const int32_t EDGE[] = {1, 0, 2147483647, -1, -2147483647 - 1, 16777217};
template <const Ty& t> void search_bytes(Ctx& c) {
  int p, q; pairbytes(c, t, p, q); uint64_t ev = 0;
  for (int sub = 0; sub != 16; ++sub) {
    ref::DB d; for (int i = 0; i != 4; ++i) if (sub >> i & 1) d.push_back(pk(t, p, q, i, EDGE[(i + sub + p) % 6]));
    std::sort(d.begin(), d.end(), ref::byhash); put("db", ref::bin(d));
    for (int i = 0; i != 4; ++i) { auto nd = pk(t, p, q, i, 0); judge_search(c, t, d, nd, ref::hexup(nd.h), true, {}, std::string(t.name) + " keys differing at bytes " + std::to_string(p) + " and " + std::to_string(q) + ", subset " + std::to_string(sub)); ++ev;
      c.nontrivial(mix((uint64_t)(p * 32 + q), (uint64_t)(sub * 4 + i))); }
  }
  c.evals(ev, 0); c.sample(std::string(t.name) + " keys differing at bytes " + std::to_string(p) + " and " + std::to_string(q) + ", all subsets");
}
template <const Ty& t> void search_invalid(Ctx& c) {
  ref::DB d{mk(t, 1, 1), mk(t, 5, 2)}; put("db", ref::bin(d));
  std::string good = ref::hexup(d[0].h), s = good; int kind = c.choose(6);
  if (kind == 0) s = good.substr(0, (std::size_t)c.choose((int)good.size()));
  else if (kind == 1) s = good + std::string((std::size_t)1 + (std::size_t)c.choose(3), '0');
  else if (kind == 2) { std::size_t p = (std::size_t)c.choose((int)good.size()); static const std::string BAD = "GgafZ/:@`-. \n"; s[p] = BAD[(std::size_t)c.choose((int)BAD.size())]; }
  else if (kind == 3) s = ref::hexup(std::string(t.hs == 20 ? 16 : 20, '\1'));
  else if (kind == 4) s = ref::hexup(std::string(t.hs == 8 ? 16 : 8, '\1'));
  else s = good + ":1";
  Run r = tool({"hibp-search", "db", s, "--hash"}, t.opt); if (s.empty() || s[0] == '-') throw Infeasible{}; // taken by the option parser
  run_checked(r);
  if (!r.failed() || r.out.find("found") != std::string::npos) c.fail("invalid", std::string(t.name) + ": invalid hash '" + s + "' is not refused" + tail(r));
  c.nontrivial(fnv(s)); c.sample("invalid " + std::string(t.name) + " hash '" + s + "'");
}

// ------------------------------------------------------------------ C13 (command line)
template <const Ty& t> void sort_cli(Ctx& c) {
  bool large = c.flag(); ref::DB d; std::string ks;
  bool cnt = c.flag(); std::string mem;
  if (!large) {
    int n = c.choose(5); for (int i = 0; i != n; ++i) { int k = c.choose(4); ks += (char)('0' + k); d.push_back(mk(t, (unsigned)(k % 3), k / 3 + 1)); }
    mem = c.flag() ? "0" : "";
  } else {
    static const int N[] = {1, 169, 170, 171, 5000, 50000, 90000}; int n = N[c.choose(7)], p = c.choose(5); mem = c.flag() ? "1" : "";
    for (int i = 0; i != n; ++i) d.push_back(mk(t, p == 0 ? (unsigned)i : p == 1 ? (unsigned)(n - i) : p == 2 ? (unsigned)((long)i * 7919 % 4001) : p == 3 ? 77u : (unsigned)(i / 40 % 2), p == 3 ? 5 : p == 4 ? i / 20 : i % 91)); // 3: one record over and over, 4: runs of equal records
    ks = std::to_string(n) + " pattern " + std::to_string(p);
  }
  put("in.bin", ref::bin(d));
  Run r = tool({"hibp-sort", "-i", "in.bin"}, t.opt); if (cnt) r.argv.push_back("--sort-by-count"); if (!mem.empty()) { r.argv.push_back("--max-memory"); r.argv.push_back(mem); }
  run_checked(r);
  std::string what = "sorting " + (large ? ks : ref::show(d)) + (cnt ? " by count" : " by hash");
  if (!r.ok()) c.fail("sort", what + ": fails" + tail(r));
  if (slurp("in.bin") != ref::bin(d)) c.fail("input", what + ": the input was changed");
  auto f = ls(); std::string out; for (auto& x: f) if (x != "in.bin") out = x;
  if (f.size() != 2 || out.find("in.bin") == std::string::npos || out.find(".sorted") == std::string::npos) { std::string s; for (auto& x: f) s += " " + x; c.fail("leftover", what + ": files afterwards:" + s); }
  auto x = d; auto cmp = [&](const ref::R& a, const ref::R& b) { if (cnt && a.c != b.c) return a.c > b.c; int k = std::memcmp(a.h.data(), b.h.data(), a.h.size()); return k ? k < 0 : false; };
  auto got = ref::parse(slurp(out), t.hs);
  for (std::size_t i = 1; i < got.size(); ++i) if (cmp(got[i], got[i - 1])) c.fail("order", what + ": out of order at record " + std::to_string(i) + ": " + ref::show(got));
  auto full = [](const ref::R& a, const ref::R& b) { int k = std::memcmp(a.h.data(), b.h.data(), a.h.size()); return k ? k < 0 : a.c < b.c; };
  std::sort(x.begin(), x.end(), full); std::sort(got.begin(), got.end(), full);
  if (x != got) c.fail("permutation", what + ": not the same records: " + ref::show(got));
  clean(); c.nontrivial(fnv(what + mem)); c.sample(what);
}

// ------------------------------------------------------------------ C20
static void judge_topn(Ctx& c, const Ty& t, const ref::DB& d, std::size_t N, bool so, const std::string& what) {
  put("in.bin", ref::bin(d)); if (exists("out.bin")) ::unlink("out.bin");
  Run r = tool({"hibp-topn", "in.bin", "-N", std::to_string(N)}, t.opt);
  if (so) r.argv.push_back("--stdout"); else { r.argv.push_back("-o"); r.argv.push_back("out.bin"); }
  run_checked(r);
  if (slurp("in.bin") != ref::bin(d)) c.fail("input", what + ": the input was changed");
  if (N >= d.size()) { if (!r.failed()) c.fail("topn", what + ": N is not smaller than the database but the program does not fail" + tail(r)); return; }
  if (!r.ok()) c.fail("topn", what + ": fails" + tail(r));
  auto x = d; std::stable_sort(x.begin(), x.end(), [](auto& a, auto& b) { return a.c != b.c ? a.c > b.c : ref::byhash(a, b); });
  x.resize(N); std::stable_sort(x.begin(), x.end(), ref::byhash);
  std::string got = so ? r.out : slurp("out.bin");
  if (got != ref::bin(x)) { Run q; c.fail(so ? "topn-stdout" : "topn", what + (so ? " to standard output" : " to a file") + ": expected " + ref::show(x) + ", got " + std::to_string(got.size()) + " bytes: " + ref::show(ref::parse(got, t.hs)) + (so ? " raw: " + got.substr(0, 80) : "")); }
}
template <const Ty& t> void topn_small(Ctx& c) {
  int n = c.choose(c.thorough ? 7 : 6); ref::DB d; std::string ks;
  int perm = n > 1 ? c.choose(3) : 0;
  for (int i = 0; i != n; ++i) { int k = 1 + c.choose(3); ks += (char)('0' + k); d.push_back(mk(t, (unsigned)i * 5 + 1, k == 3 ? 2147483647 : k)); }
  if (perm == 1) std::reverse(d.begin(), d.end()); else if (perm == 2) std::rotate(d.begin(), d.begin() + 1, d.end());
  bool so = c.flag(); uint64_t ev = 0;
  for (std::size_t N = 0; N <= (std::size_t)n + 1; ++N) { judge_topn(c, t, d, N, so, std::string(t.name) + " top " + std::to_string(N) + " of counts " + ks + " order " + std::to_string(perm)); ++ev; c.nontrivial(fnv(ks, mix(N, (uint64_t)perm))); }
  c.evals(ev, 0); c.sample(std::string(t.name) + " counts " + ks + " order " + std::to_string(perm) + " N=0.." + std::to_string(n + 1));
}
template <const Ty& t> void topn_counts(Ctx& c) { // counts over the whole range of the field, all assignments, ties decided by hash
  static const int32_t AL[][3] = {{-1, 2, 2147483647}, {0, 16777216, 16777217}, {-2147483647 - 1, -1, 0}, {65535, 65536, 2147483646}, {255, 256, 1 << 30}};
  int a = c.choose(5), n = 1 + c.choose(c.thorough ? 5 : 4); ref::DB d; std::string ks; int rev = n > 1 ? c.choose(2) : 0;
  for (int i = 0; i != n; ++i) { int k = c.choose(3); ks += std::to_string(AL[a][k]) + " "; d.push_back(mk(t, (unsigned)i * 0x2100 + 1, AL[a][k])); }
  if (rev) std::reverse(d.begin(), d.end());
  for (std::size_t N = 1; N < (std::size_t)n; ++N) { judge_topn(c, t, d, N, false, std::string(t.name) + " top " + std::to_string(N) + " of counts " + ks + (rev ? "reversed" : "")); c.nontrivial(fnv(ks, mix(N, (uint64_t)rev))); }
  c.evals((uint64_t)n - 1, 0); c.sample(std::string(t.name) + " counts " + ks);
}
template <const Ty& t> void topn_ties(Ctx& c) { // equal counts: the choice and the order of the output are decided at each byte of the hash
  int p, q; pairbytes(c, t, p, q); uint64_t ev = 0;
  for (int perm = 0; perm != 24; ++perm) {
    std::vector<int> ix{0, 1, 2, 3}; for (int k = 0; k != perm; ++k) std::next_permutation(ix.begin(), ix.end());
    if (!c.thorough && perm % 5) continue;
    for (int odd = 0; odd != 2; ++odd) { ref::DB d; for (int i: ix) d.push_back(pk(t, p, q, i, odd && i == 1 ? 8 : 7));
      for (std::size_t N = 1; N != 4; ++N) { judge_topn(c, t, d, N, false, std::string(t.name) + " top " + std::to_string(N) + " of hashes differing at bytes " + std::to_string(p) + " and " + std::to_string(q) + " permutation " + std::to_string(perm)); ++ev; c.nontrivial(mix((uint64_t)(p * 32 + q), (uint64_t)perm * 8 + N * 2 + (uint64_t)odd)); } }
  }
  c.evals(ev, 0); c.sample(std::string(t.name) + " equal counts, hashes differing at bytes " + std::to_string(p) + " and " + std::to_string(q));
}
template <const Ty& t> void topn_large(Ctx& c) {
  int buf = 65536 / (int)(t.hs + 4); static const int NS[] = {0, 1, 2}; static const int DN[] = {-1, 0, 1};
  int n = c.choose(3) * buf + buf + DN[c.choose(3)], pat = c.choose(4); bool so = c.flag();
  static const int NN[] = {1, 500, 999, 1000, 1001, 2000, 2001, -1}; int N = NN[c.choose(8)]; if (N < 0) N = n - 1;
  if (N >= n) throw Infeasible{};
  ref::DB d; for (int i = 0; i != n; ++i) d.push_back(mk(t, (unsigned)i, pat == 0 ? i : pat == 1 ? n - i : pat == 2 ? (i * 7919) % 1000 : (i % buf == buf - 1 || i % buf == 0) ? 1000 + i : 1));
  judge_topn(c, t, d, (std::size_t)N, so, std::string(t.name) + " top " + std::to_string(N) + " of " + std::to_string(n) + " pattern " + std::to_string(pat));
  c.nontrivial(mix((uint64_t)n * 8 + (uint64_t)pat, (uint64_t)N * 2 + so)); c.sample(std::string(t.name) + " top " + std::to_string(N) + " of " + std::to_string(n) + " pattern " + std::to_string(pat));
}

template <const Ty& t> void topn_huge(Ctx& c) { // more than 2^32 bytes
  int sh = c.thorough && c.flag() ? 33 : 32; uint64_t n; ref::DB d; if (!huge_db(t, "db", sh, n, d, 60)) throw Infeasible{}; std::size_t N = 20; std::string w = std::string(t.name) + " top 20 of " + std::to_string(n) + " records";
  Run r = tool({"hibp-topn", "db", "-N", std::to_string(N), "-o", "o"}, t.opt); r.timeout_s = 200; run_checked(r); ref::DB want(d.end() - (long)N, d.end()); // the counts rise with the hash
  if (!r.ok()) c.fail("topn-fails", w + tail(r)); if (slurp("o") != ref::bin(want)) c.fail("topn", w + ": wrong result" + tail(r)); unlink("db"); unlink("o"); c.evals(1, 1); c.sample(w);
}

// ------------------------------------------------------------------ C21
static void judge_diff(Ctx& c, const Ty& t, const ref::DB& o, const ref::DB& nw, bool deletes, const std::string& what) {
  put("old.bin", ref::bin(o)); put("new.bin", ref::bin(nw));
  Run r = tool({"hibp-diff", "old.bin", "new.bin"}, t.opt); run_checked(r);
  if (slurp("old.bin") != ref::bin(o) || slurp("new.bin") != ref::bin(nw)) c.fail("input", what + ": an input was changed");
  if (deletes) { if (!r.failed()) c.fail("deletion", what + ": a record of OLD is missing from NEW but the diff does not fail" + tail(r)); return; }
  if (!r.ok()) c.fail("diff-fails", what + ": the diff fails" + tail(r));
  std::string want; std::size_t i = 0, lines = 0;
  for (auto& x: nw) {
    char b[64];
    if (i < o.size() && o[i].h == x.h) { if (o[i].c != x.c) { std::snprintf(b, sizeof b, "U:%08zX:", i); want += b + ref::text(x) + "\n"; ++lines; } ++i; }
    else { std::snprintf(b, sizeof b, "I:%08zX:", i); want += b + ref::text(x) + "\n"; ++lines; }
  }
  if (r.out != want) c.fail("diff", what + ": expected " + std::to_string(lines) + " hunks:\n" + want.substr(0, 1500) + "got:" + tail(r));
  c.count(0, lines);
}
static int hunks_counter = counter("diff_hunks_judged");
template <const Ty& t> void diff_small(Ctx& c) { // each key: same, count changed, inserted, absent from NEW
  int n = c.choose(c.thorough ? 9 : 8); ref::DB o, nw; bool del = false; std::string ks; int dels = 1;
  for (int i = 0; i != n; ++i) {
    int s = c.choose(dels ? 4 : 3); ks += "=UID"[s];
    auto r = mk(t, (unsigned)i * 3, 5 + 2 * (i & 1)); // the new count is higher or lower
    if (s != 2) o.push_back(r);
    if (s == 1) r.c = 6;
    if (s != 3) nw.push_back(r); else { del = true; dels = 0; }
  }
  judge_diff(c, t, o, nw, del, std::string(t.name) + " keys " + ks);
  c.nontrivial(fnv(ks)); c.sample(std::string(t.name) + " keys " + ks + " (= same, U count changed, I inserted, D deleted)");
}
template <const Ty& t> void diff_counts(Ctx& c) { // every pair of counts for two keys
  int k[4]; for (auto& x: k) x = c.choose(6);
  ref::DB o{mk(t, 3, EDGE[k[0]]), mk(t, 7, EDGE[k[1]])}, nw{mk(t, 3, EDGE[k[2]]), mk(t, 7, EDGE[k[3]])};
  std::string w = std::string(t.name) + " counts " + ref::show(o) + " -> " + ref::show(nw);
  judge_diff(c, t, o, nw, false, w); c.nontrivial(fnv(w)); c.sample(w);
}
template <const Ty& t> void diff_bytes(Ctx& c) { // keys that differ at two bytes only: each of the four same, raised, lowered, inserted or deleted
  int p, q; pairbytes(c, t, p, q); int first = c.choose(c.thorough ? 5 : 1); uint64_t ev = 0;
  static const int ORD[] = {0, 3, 1, 2};
  for (int m = 0; m != 625; ++m) {
    int st[4] = {m % 5, m / 5 % 5, m / 25 % 5, m / 125}; if (c.thorough ? st[0] != first : (m + p * 7 + q) % 41 != 0) continue;
    ref::DB o, nw; bool del = false; std::string ks;
    for (int i = 0; i != 4; ++i) { auto r = pk(t, p, q, ORD[i], 5); ks += "=ULID"[st[i]];
      if (st[i] != 3) o.push_back(r);
      if (st[i] == 1) r.c = 6;
      if (st[i] == 2) r.c = 4;
      if (st[i] != 4) nw.push_back(r); else del = true; }
    std::sort(o.begin(), o.end(), ref::byhash); std::sort(nw.begin(), nw.end(), ref::byhash);
    if (std::count(st, st + 4, 4) > 1) continue;
    judge_diff(c, t, o, nw, del, std::string(t.name) + " keys differing at bytes " + std::to_string(p) + " and " + std::to_string(q) + " " + ks); ++ev; c.nontrivial(mix((uint64_t)(p * 32 + q), (uint64_t)m));
  }
  c.evals(ev, 0); c.sample(std::string(t.name) + " keys differing at bytes " + std::to_string(p) + " and " + std::to_string(q));
}
template <const Ty& t> void diff_large(Ctx& c) { // runs of changes placed around the read buffer's ends
  int buf = 65536 / (int)(t.hs + 4); int n = 2 * buf + 3;
  static const int AT[] = {0, 1, -2, -1, 2, 3, 4}; int at = AT[c.choose(7)];
  int start = at >= 0 && at < 2 ? at : at < 0 ? buf + at : at == 2 ? buf : at == 3 ? 2 * buf - 1 : n - 4;
  int len = 1 + c.choose(3), kind = c.choose(4), gap = c.choose(2), back = c.choose(2);
  ref::DB o, nw; int k = 0;
  auto special = [&](int i) { return (i >= start && i < start + len) || (back && i >= n - 3) || (gap && i >= start + len + 1 && i < start + 2 * len + 1); };
  for (int i = 0; i != n; ++i) {
    auto r = mk(t, (unsigned)i, i % 100); int s = special(i) ? (kind == 3 ? 1 + (i + k++) % 2 : kind) : 0;
    if (s != 2) o.push_back(r);
    if (s == 1) r.c += i & 1 ? 1000 : -1;
    if (kind == 0 && special(i) && s == 0 && i == start) continue; // a deletion
    nw.push_back(r);
  }
  judge_diff(c, t, o, nw, kind == 0, std::string(t.name) + " " + std::to_string(n) + " records, kind " + std::to_string(kind) + " at " + std::to_string(start) + " run " + std::to_string(len) + " gap " + std::to_string(gap) + " tail " + std::to_string(back));
  c.nontrivial(mix((uint64_t)start * 64 + (uint64_t)len * 16 + (uint64_t)kind * 4, (uint64_t)gap * 2 + (uint64_t)back)); c.sample("large diff, kind " + std::to_string(kind) + " at " + std::to_string(start));
}

template <const Ty& t> void diff_huge(Ctx& c) { // changes behind byte 2^32
  int sh = c.thorough && c.flag() ? 33 : 32; uint64_t n; ref::DB d; if (!huge_db(t, "old.bin", sh, n, d, 20)) throw Infeasible{}; std::size_t rs = t.hs + 4; ref::DB e; std::string want; char b[64];
  for (std::size_t i = 0; i != d.size(); ++i) { auto x = d[i]; uint64_t pos = n - d.size() + i; if (i % 5 == 1) { x.c += 7; snprintf(b, sizeof b, "U:%08llX:", (unsigned long long)pos); want += b + ref::text(x) + "\n"; } e.push_back(x); if (i % 7 == 3) { auto y = mk(t, 2 * (unsigned)i + 2, 99); e.push_back(y); snprintf(b, sizeof b, "I:%08llX:", (unsigned long long)pos + 1); want += b + ref::text(y) + "\n"; } }
  if (!sparse("new.bin", n - d.size() + e.size(), rs, {{n - d.size(), ref::bin(e)}})) throw Infeasible{};
  std::string w = std::string(t.name) + " databases of " + std::to_string(n) + " records"; Run r = tool({"hibp-diff", "old.bin", "new.bin"}, t.opt); r.timeout_s = 200; run_checked(r);
  if (!r.ok()) c.fail("diff-fails", w + tail(r)); if (r.out != want) c.fail("diff", w + ": expected\n" + want + "got:" + tail(r)); unlink("old.bin"); unlink("new.bin"); c.evals(1, 1); c.sample(w);
}

// ------------------------------------------------------------------ C22
static void judge_convert(Ctx& c, const Ty& t, const ref::DB& d, const std::string& text, const std::string& limit, bool si, bool so, bool back, const std::string& what) {
  ref::DB x = d; if (!limit.empty() && std::stoull(limit) < x.size()) x.resize((std::size_t)std::stoull(limit));
  if (exists("o")) ::unlink("o");
  if (!back) {
    Run r = tool({"hibp-convert", "--txt-to-bin"}, t.opt);
    if (si) { r.argv.push_back("--stdin"); r.in = text; } else { put("i.txt", text); r.argv.push_back("-i"); r.argv.push_back("i.txt"); }
    if (so) r.argv.push_back("--stdout"); else { r.argv.push_back("-o"); r.argv.push_back("o"); }
    if (!limit.empty()) { r.argv.push_back("--limit"); r.argv.push_back(limit); }
    run_checked(r);
    std::string got = so ? r.out : slurp("o");
    if (!r.ok() || got != ref::bin(x)) c.fail("txt-to-bin", what + ": expected " + ref::show(x) + ", got " + ref::show(ref::parse(got, t.hs)) + " (" + std::to_string(got.size()) + " bytes)" + tail(so ? [&] { r.out = "(binary)"; return r; }() : r));
    if (!si && slurp("i.txt") != text) c.fail("input", what + ": the input was changed");
  } else {
    put("i.bin", ref::bin(d));
    Run r = tool({"hibp-convert", "--bin-to-txt", "-i", "i.bin"}, t.opt);
    if (so) r.argv.push_back("--stdout"); else { r.argv.push_back("-o"); r.argv.push_back("o"); }
    if (!limit.empty()) { r.argv.push_back("--limit"); r.argv.push_back(limit); }
    run_checked(r);
    std::string got = so ? r.out : slurp("o");
    if (!r.ok() || got != ref::text(x)) c.fail("bin-to-txt", what + ": expected " + ref::text(x).substr(0, 400) + ", got " + got.substr(0, 400) + tail(r));
    if (slurp("i.bin") != ref::bin(d)) c.fail("input", what + ": the input was changed");
  }
}
template <const Ty& t> void convert_small(Ctx& c) {
  int n = c.choose(5); ref::DB d; std::string text, ks;
  int nl = n ? c.choose(2) : 0; // with or without a last line end
  static const int32_t CV[] = {1, 0, 2147483647, 10};
  for (int i = 0; i != n; ++i) {
    int k = c.choose(4); ks += (char)('0' + k);
    ref::R r = mk(t, (unsigned)(k * 0x3A5B + i), CV[k]); if (k == 2) r.h = std::string(t.hs, '\xab'); d.push_back(r);
    std::string l = ref::text(r); if (k >= 2) for (auto& ch: l) ch = (char)std::tolower(ch);
    text += l; if (!(nl && i == n - 1)) text += "\n";
  }
  bool si = n && c.flag(), so = c.flag(); int back = c.choose(2); uint64_t ev = 0;
  if (back && si) throw Infeasible{};
  for (long lim = -1; lim <= n + 1; ++lim) {
    judge_convert(c, t, d, text, lim < 0 ? "" : std::to_string(lim), si, so, back, std::string(t.name) + " records " + ks + " limit " + std::to_string(lim) + (si ? " stdin" : "") + (so ? " stdout" : "") + (nl ? " no last line end" : "")); ++ev;
    c.nontrivial(fnv(ks, mix((uint64_t)(lim + 2) * 16 + (uint64_t)si * 8 + (uint64_t)so * 4 + (uint64_t)back * 2 + (uint64_t)nl, 3)));
  }
  c.evals(ev, 0); c.sample(std::string(t.name) + " records " + ks + (back ? " to text" : " to binary") + ", every limit");
}
template <const Ty& t> void convert_large(Ctx& c) { // around the writer's, the reader's and the stream's buffers
  static const int NS[] = {169, 170, 171, 204, 205, 999, 1000, 1001, 2000, 2001, 7000}; int n = NS[c.choose(11)];
  bool si = c.flag(), so = c.flag(); int back = c.choose(2); if (back && si) throw Infeasible{};
  ref::DB d; for (int i = 0; i != n; ++i) { ref::R r = mk(t, (unsigned)(i * 40503), (i * 7919) % 1000003); d.push_back(r); }
  static const int L[] = {-1, 0, 1, 169, 170, 171, 204, 999, 1000, 1001, 5000}; long lim = L[c.choose(11)];
  judge_convert(c, t, d, ref::text(d), lim < 0 ? "" : std::to_string(lim), si, so, back, std::string(t.name) + " " + std::to_string(n) + " records limit " + std::to_string(lim) + (si ? " stdin" : "") + (so ? " stdout" : ""));
  c.nontrivial(mix((uint64_t)n * 64 + (uint64_t)(lim + 1) * 100000, (uint64_t)si * 4 + (uint64_t)so * 2 + (uint64_t)back)); c.sample(std::string(t.name) + " " + std::to_string(n) + " records, limit " + std::to_string(lim));
}
template <const Ty& t> void convert_limits(Ctx& c) { // limits around the sizes of the integer types
  static const char* L[] = {"127", "128", "256", "32767", "32768", "65536", "65537", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967298", "6442450944", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615"};
  static const int NS[] = {0, 1, 3, 300}; int n = NS[c.choose(4)]; bool si = n && c.flag(), so = c.flag(); int back = c.choose(2); if (back && si) throw Infeasible{};
  ref::DB d; for (int i = 0; i != n; ++i) d.push_back(mk(t, (unsigned)i, EDGE[i % 3]));
  uint64_t ev = 0;
  for (auto l: L) { judge_convert(c, t, d, ref::text(d), l, si, so, back, std::string(t.name) + " " + std::to_string(n) + " records limit " + l + (si ? " stdin" : "") + (so ? " stdout" : "")); ++ev; c.nontrivial(fnv(std::string(l), mix((uint64_t)n, (uint64_t)si * 4 + (uint64_t)so * 2 + (uint64_t)back))); }
  c.evals(ev, 0); c.sample(std::string(t.name) + " " + std::to_string(n) + " records, limits around 2^7 to 2^64");
}
template <const Ty& t> void convert_roundtrip(Ctx& c) { // text -> binary -> text and binary -> text -> binary through the files the tool itself wrote
  int n = c.choose(4); ref::DB d; std::string ks;
  for (int i = 0; i != n; ++i) { int k = c.choose(6); ks += (char)('0' + k); static const int32_t CV[] = {1, 99, 100, 2147483647, 1000000, 12345}; d.push_back({std::string(t.hs, (char)(k * 51)), CV[k]}); }
  auto step = [&](const char* m, const char* i, const char* o) { Run r = tool({"hibp-convert", m, "-i", i, "-o", o, "-f"}, t.opt); run_checked(r); if (!r.ok()) c.fail("convert", "fails" + tail(r)); };
  put("a", ref::text(d)); step("--txt-to-bin", "a", "b"); step("--bin-to-txt", "b", "cc"); step("--txt-to-bin", "cc", "d");
  if (slurp("cc") != ref::text(d) || slurp("b") != ref::bin(d) || slurp("d") != slurp("b")) c.fail("roundtrip", "converting " + ref::show(d) + " forth and back changes it: " + slurp("cc"));
  c.nontrivial(fnv(ks)); c.sample("round trip of records " + ks);
}

// ------------------------------------------------------------------ C23
static void judge_dupes(Ctx& c, const Ty& t, const ref::DB& d, int bits, const std::string& what) {
  put("db", ref::bin(d)); Run r = tool({"hibp-dupes", "db"}, t.opt);
  if (bits) { r.argv.push_back("--bits"); r.argv.push_back(std::to_string(bits)); } else bits = 64;
  run_checked(r);
  if (!r.ok()) c.fail("dupes-fails", what + ": fails" + tail(r));
  auto pre = [&](const ref::R& x) { uint64_t v = 0; for (int i = 0; i != 8; ++i) v = v << 8 | (unsigned char)x.h[(std::size_t)i]; return v >> (64 - bits); };
  std::vector<std::string> want, got;
  for (std::size_t i = 1; i < d.size(); ++i) if (pre(d[i]) == pre(d[i - 1])) want.push_back(ref::text(d[i]));
  std::istringstream is(r.out); std::string l; const std::string key = "(orig record: ";
  while (std::getline(is, l)) { auto p = l.find(key); if (p != std::string::npos) { std::string x = l.substr(p + key.size()); if (!x.empty() && x.back() == ')') x.pop_back(); got.push_back(x); } }
  if (got != want) { std::string a, b; for (auto& x: want) a += " " + x; for (auto& x: got) b += " " + x; c.fail("dupes", what + ", " + std::to_string(bits) + " bits: expected" + a.substr(0, 800) + "; reported" + b.substr(0, 800) + tail(r)); }
}
static ref::R bitrec(const Ty& t, const std::string& base, int b) { // differs from base first at bit b (set it, clear everything behind)
  ref::R r{base, 1}; if (b >= 64) { for (std::size_t i = t.hs - 1;; --i) { if (++*(unsigned char*)&r.h[i]) break; } return r; }
  if (b < 0) return r; // identical hash
  unsigned char& x = (unsigned char&)r.h[(std::size_t)b / 8]; unsigned char m = (unsigned char)(0x80 >> b % 8);
  x = (unsigned char)((x & ~(m - 1)) | m); for (std::size_t i = (std::size_t)b / 8 + 1; i != t.hs; ++i) r.h[i] = 0; return r;
}
template <const Ty& t> void dupes_bits(Ctx& c) { // two and three records whose first difference is at each bit
  static const int B[] = {-1, 0, 7, 8, 30, 31, 32, 33, 39, 40, 47, 48, 55, 56, 61, 62, 63, 64}; int nb = 18;
  int b1 = B[c.choose(nb)], b2 = c.choose(nb + 1); int base = c.choose(3);
  std::string h(t.hs, '\0'); if (base == 1) h.assign(t.hs, '\xff'); else if (base == 2) { h.assign(t.hs, '\0'); h[0] = 0x12; }
  ref::DB d{{h, 1}}; if (base == 1) { if (b1 > 0) throw Infeasible{}; d.push_back({h, 2}); }
  auto can = [&](const std::string& x, int b) { return b < 0 || b >= 64 || !((unsigned char)x[(std::size_t)b / 8] & (0x80 >> b % 8)); };
  if (base != 1) { if (!can(h, b1)) throw Infeasible{}; d.push_back(bitrec(t, h, b1)); d.back().c = 2; }
  if (b2 < nb && base != 1) { if (!can(d.back().h, B[b2])) throw Infeasible{}; d.push_back(bitrec(t, d.back().h, B[b2])); d.back().c = 3; }
  if (base == 1 && b2 < 2) d.erase(d.begin() + b2, d.end()); // 0 or 1 records of all ones
  uint64_t ev = 0;
  for (int bits = 31; bits <= 64; ++bits) { judge_dupes(c, t, d, bits == 31 ? 0 : bits, std::string(t.name) + " differences at bits " + std::to_string(b1) + "," + std::to_string(b2 < nb ? B[b2] : 99) + " base " + std::to_string(base)); ++ev; c.nontrivial(mix((uint64_t)(b1 + 2) * 100 + (uint64_t)b2, (uint64_t)bits * 4 + (uint64_t)base)); }
  c.evals(ev, 0); c.sample("differences at bits " + std::to_string(b1) + "," + std::to_string(b2 < nb ? B[b2] : 99) + ", every --bits");
}
template <const Ty& t> void dupes_large(Ctx& c) {
  int buf = 65536 / (int)(t.hs + 4); static const int DN[] = {-1, 0, 1}; int n = buf * (1 + c.choose(2)) + DN[c.choose(3)];
  int pat = c.choose(4); static const int BT[] = {32, 48, 64}; int bits = BT[c.choose(3)];
  ref::DB d; uint64_t v = 0;
  for (int i = 0; i != n; ++i) {
    bool same = pat == 0 ? false : pat == 1 ? true : pat == 2 ? i % buf == 0 || i == n - 1 : i % buf == buf - 1 || i == 1;
    if (!same && i) v += 1ULL << (64 - bits);
    ref::R r; r.h.assign(t.hs, '\0'); for (int k = 0; k != 8; ++k) r.h[(std::size_t)k] = (char)(v >> (56 - 8 * k)); r.h[t.hs - 1] = (char)(i & 255); r.h[t.hs - 2] = (char)(i >> 8); r.c = i; d.push_back(r);
  }
  judge_dupes(c, t, d, bits, std::string(t.name) + " " + std::to_string(n) + " records pattern " + std::to_string(pat));
  c.nontrivial(mix((uint64_t)n * 8 + (uint64_t)pat, (uint64_t)bits)); c.sample(std::string(t.name) + " " + std::to_string(n) + " records pattern " + std::to_string(pat) + " bits " + std::to_string(bits));
}
static void dupes_range(Ctx& c) { // bits outside 32..64 are refused
  int b = c.choose(40); static const int X[] = {0, 1, 16, 30, 31, 65, 66, 100, -1}; if (b >= 9) throw Infeasible{};
  put("db", ref::bin(ref::DB{mk(SHA, 1, 1)})); Run r = tool({"hibp-dupes", "db", "--bits=" + std::to_string(X[b])}); run_checked(r);
  if (!r.failed()) c.fail("range", "--bits " + std::to_string(X[b]) + " is accepted" + tail(r));
  c.nontrivial((uint64_t)b);
}

// ------------------------------------------------------------------ C27: text that is not a record
static void judge_bad(Ctx& c, const Ty& t, const std::string& bad, int at, bool nl, bool si, bool so, const std::string& what) {
  ref::DB d; std::string text, before; for (int i = 0; i != 3; ++i) { ref::R r = mk(t, (unsigned)(i * 0x3A5B + 9), i * 40 + 1); if (i == at) text += bad + (i == 2 && !nl ? "" : "\n"); else text += ref::text(r) + (i == 2 && !nl ? "" : "\n"); if (i < at) before += ref::bin(r); }
  if (at == 2 && !nl && bad.empty()) return; // no line at all
  Run r = tool({"hibp-convert", "--txt-to-bin"}, t.opt); if (exists("o")) ::unlink("o");
  if (si) { r.argv.push_back("--stdin"); r.in = text; } else { put("i.txt", text); r.argv.push_back("-i"); r.argv.push_back("i.txt"); }
  if (so) r.argv.push_back("--stdout"); else { r.argv.push_back("-o"); r.argv.push_back("o"); }
  run_checked(r); std::string got = so ? r.out : exists("o") ? slurp("o") : "";
  auto w = [&] { std::string o = so ? "(binary)" : r.out; Run q = r; q.out = o; return what + ", line " + std::to_string(at + 1) + " of 3: '" + bad.substr(0, 100) + "'" + tail(q); };
  if (r.ok() && bad.find_first_not_of(" \r") == std::string::npos) { // a blank line may be skipped instead
    ref::DB e; for (int i = 0; i != 3; ++i) if (i != at) e.push_back(mk(t, (unsigned)(i * 0x3A5B + 9), i * 40 + 1)); if (got == ref::bin(e)) return; }
  if (r.ok()) c.fail("accepted", "success for text that is not a hash: " + std::to_string(got.size()) + " bytes put out, " + w());
  if (!r.failed() || r.err.empty()) c.fail("abnormal", w());
  if (got.size() % (t.hs + 4) || got != before.substr(0, got.size())) c.fail("made-up", "something else than the records in front was put out: " + ref::show(ref::parse(got, t.hs)) + ", " + w());
}
template <const Ty& t> void bad_chars(Ctx& c) { // every byte that is no hexadecimal digit, at every position of the hash
  std::size_t p = (std::size_t)c.choose((int)t.hs * 2); int at = c.choose(3), grp = c.choose(16); bool si = (p + (std::size_t)at) % 2, so = (p / 2) % 2; uint64_t n = 0;
  for (int b = grp * 16; b != grp * 16 + 16; ++b) { if (b == '\n' || isxdigit(b)) continue; std::string l = ref::text(mk(t, 0xA5F0, 77)); if (b & 1) for (auto& ch: l) ch = (char)tolower(ch); l[p] = (char)b;
    judge_bad(c, t, l, at, (b & 1) != 0, si, so, std::string(t.name) + ", byte " + std::to_string(b) + " at " + std::to_string(p)); ++n; }
  c.evals(n, n); c.sample(std::string(t.name) + " bytes " + std::to_string(grp * 16) + ".. at position " + std::to_string(p));
}
template <const Ty& t> void bad_lengths(Ctx& c) { // every length that is too short, by itself, with a count, blanks, a line end of another system
  std::size_t n = (std::size_t)c.choose((int)t.hs * 2); int at = c.choose(3), k = c.choose(6); bool nl = c.flag(), si = c.flag(), so = c.flag(); static const char* TAIL[] = {"", ":5", "\r", ":2147483647", " ", ":1\r"};
  std::string l = ref::hexup(mk(t, 0xA5F0, 1).h).substr(0, n) + TAIL[k]; judge_bad(c, t, l, at, nl, si, so, std::string(t.name) + ", " + std::to_string(n) + " digits"); c.evals(1, 1); c.sample(std::string(t.name) + " " + std::to_string(n) + " digits and '" + TAIL[k] + "'");
}
template <const Ty& t> void bad_texts(Ctx& c) { // texts that are something else altogether, long ones included
  int k = c.choose(12), at = c.choose(3); bool nl = c.flag(), si = c.flag(), so = c.flag(); std::string good = ref::text(mk(t, 0xA5F0, 77)), l;
  switch (k) { case 0: l = "<html><head><title>Service unavailable</title></head></html>"; break; case 1: l = std::string(100000, 'x'); break; case 2: l = " " + good; break; case 3: l = std::string(1 << 20, '\0'); break; case 4: l = "\xEF\xBB\xBF" + good; break; case 5: l = "0x" + good; break;
    case 6: l = ":" + good; break; case 7: l = "-" + good.substr(1); break; case 8: l = "+" + good.substr(1); break; case 9: for (char ch: good) { l += ch; l += '\0'; } break; case 10: l = "password123"; break; case 11: l = std::string(t.hs * 2, 'G'); break; }
  judge_bad(c, t, l, at, nl, si, so, std::string(t.name)); c.evals(1, 1); c.sample(std::string(t.name) + ": '" + l.substr(0, 40) + "'");
}

template <const Ty& t> struct R14 { R14() { std::string n = t.name;
  scenarios().push_back({.prop = "C14", .name = "subsets-" + n, .body = search_small<t>, .splitk = 1}); scenarios().push_back({.prop = "C14", .name = "plain-" + n, .body = search_plain<t>, .splitk = 1});
  scenarios().push_back({.prop = "C14", .name = "buffers-" + n, .body = search_large<t>}); scenarios().push_back({.prop = "C14", .name = "invalid-" + n, .body = search_invalid<t>});
  scenarios().push_back({.prop = "C14", .name = "bytes-" + n, .body = search_bytes<t>}); scenarios().push_back({.prop = "C14", .name = "huge-" + n, .body = search_huge<t>, .exec_limit_s = 120});
  if (t.hs != 8) scenarios().push_back({.prop = "C20", .name = "huge-" + n, .body = topn_huge<t>, .exec_limit_s = 300});
  scenarios().push_back({.prop = "C20", .name = "counts-" + n, .body = topn_counts<t>}); scenarios().push_back({.prop = "C20", .name = "ties-" + n, .body = topn_ties<t>});
  scenarios().push_back({.prop = "C20", .name = "small-" + n, .body = topn_small<t>}); scenarios().push_back({.prop = "C20", .name = "buffers-" + n, .body = topn_large<t>}); } };
template <const Ty& t> struct RX { RX() { std::string n = t.name;
  scenarios().push_back({.prop = "C27", .name = "digits-" + n, .body = bad_chars<t>}); scenarios().push_back({.prop = "C27", .name = "lengths-" + n, .body = bad_lengths<t>}); scenarios().push_back({.prop = "C27", .name = "texts-" + n, .body = bad_texts<t>});
  scenarios().push_back({.prop = "C13", .name = "cli-" + n, .body = sort_cli<t>});
  scenarios().push_back({.prop = "C21", .name = "small-" + n, .body = diff_small<t>, .splitk = 3}); scenarios().push_back({.prop = "C21", .name = "counts-" + n, .body = diff_counts<t>}); scenarios().push_back({.prop = "C21", .name = "bytes-" + n, .body = diff_bytes<t>});
  scenarios().push_back({.prop = "C21", .name = "buffers-" + n, .body = diff_large<t>}); if (t.hs == 20) scenarios().push_back({.prop = "C21", .name = "huge-" + n, .body = diff_huge<t>, .exec_limit_s = 300});
  scenarios().push_back({.prop = "C22", .name = "small-" + n, .body = convert_small<t>}); scenarios().push_back({.prop = "C22", .name = "buffers-" + n, .body = convert_large<t>}); scenarios().push_back({.prop = "C22", .name = "limits-" + n, .body = convert_limits<t>}); scenarios().push_back({.prop = "C22", .name = "roundtrip-" + n, .body = convert_roundtrip<t>});
  scenarios().push_back({.prop = "C23", .name = "bits-" + n, .body = dupes_bits<t>}); scenarios().push_back({.prop = "C23", .name = "buffers-" + n, .body = dupes_large<t>}); } };
static R14<SHA> a1; static R14<NT> a2; static R14<T64> a3; static RX<SHA> b1; static RX<NT> b2;
static Reg dr({.prop = "C23", .name = "option-range", .body = dupes_range});
int main(int argc, char** argv) { return main_(argc, argv); }
