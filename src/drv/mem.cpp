// C28: the tools, built with sanitizers, on files and arguments of every size. Only what a sanitizer reports counts here.
#include "drv/toolkit.hpp"

static const Ty* const TYS[] = {&SHA, &NT, &T64};
static std::string content(const Ty& t, std::size_t len, int pat) {
  std::string s; std::size_t rs = t.hs + 4;
  switch (pat) {
    case 0: for (unsigned i = 0; s.size() < len; ++i) s += ref::bin({mk(t, i + 1, (int32_t)i + 5)}); break; // sorted
    case 1: for (unsigned i = 0; s.size() < len; ++i) s += ref::bin({mk(t, 60000 - i * 9000, (int32_t)(i % 3))}); break; // falling
    case 2: s.assign(len, '\0'); break;
    default: s.assign(len, '\xff');
  }
  (void)rs; s.resize(len); return s;
}
static bool has(const Ty& t, const std::string& tool) { return t.hs != 8 || tool == "hibp-topn" || tool == "hibp-search"; } // the others know no --sha1t64
static void clean_run(Ctx& c, Run r) { if (r.argv.back() == "--sha1t64" && !has(T64, r.argv[0])) return; run_checked(r); c.evals(1, 0); c.nontrivial(fnv(c.what + r.cmd())); }
// database files of every length up to three records and a bit
static void files(Ctx& c) {
  int which = c.choose(3 * 4); const Ty& t = *TYS[which % 3]; int pat = which / 3; std::size_t rs = t.hs + 4, len = (std::size_t)c.choose((int)(3 * rs + 3)); if (!c.thorough && pat > 1 && len % rs > 1 && len % rs != rs - 1) throw Infeasible{};
  std::string f = content(t, len, pat); c.what = std::string(t.name) + ", " + std::to_string(len) + " bytes, pattern " + std::to_string(pat);
  std::string nd = ref::hexup(mk(t, 2, 0).h), nf(t.hs, '\xff');
  auto fresh = [&] { clean(); put("db", f); put("d2", content(t, 2 * rs, 0)); };
  std::vector<std::vector<std::string>> A{{"hibp-sort", "-i", "db"}, {"hibp-sort", "-i", "db", "--sort-by-count"}, {"hibp-sort", "-i", "db", "--max-memory", "0"}, {"hibp-topn", "db", "-o", "out", "--topn", "2"}, {"hibp-topn", "db", "-o", "out", "--topn", "50"}, {"hibp-convert", "-i", "db", "-o", "out", "--bin-to-txt"}, {"hibp-dupes", "db"}, {"hibp-diff", "db", "d2"}, {"hibp-diff", "d2", "db"}, {"hibp-search", "db", nd, "--hash"}, {"hibp-search", "db", ref::hexup(nf), "--hash"}, {"hibp-search", "db", "password"}, {"hibp-search", "db", nd, "--hash", "--toc", "--toc-bits", "15"}};
  for (auto& a: A) { fresh(); clean_run(c, tool(a, t.opt)); }
  c.sample(c.what); c.step(A.size());
}
// tables of contents of every length and content, newer than the database
static void tables(Ctx& c) {
  int which = c.choose(3 * 8); const Ty& t = *TYS[which % 3]; int pat = which / 3; std::size_t len = (std::size_t)c.choose(27); unsigned bits = 15; unsigned n = 5;
  ref::DB d; for (unsigned i = 0; i != n; ++i) { ref::R r; r.h.assign(t.hs, '\0'); r.h[0] = (char)(i * 2 >> 8); r.h[1] = (char)(i * 2); r.h[t.hs - 1] = 1; r.c = 3; d.push_back(r); }
  clean(); put("db", ref::bin(d)); std::string s; auto e = [&](uint32_t v) { s.append((char*)&v, 4); };
  for (uint32_t i = 0; s.size() < len + 4; ++i) switch (pat) { case 0: e(i); break; case 1: e(0); break; case 2: e(0xffffffff); break; case 3: e(n); break; case 4: e(n + 1); break; case 5: e(n - std::min(i, n)); break; case 6: e(i % 2 ? 0 : 0xffffffff); break; default: e(0x80000000u + i); }
  s.resize(len); struct timespec old[2] = {{1000, 0}, {1000, 0}}; utimensat(AT_FDCWD, "db", old, 0);
  c.what = std::string(t.name) + ", a table of " + std::to_string(len) + " bytes, pattern " + std::to_string(pat); std::set<std::string> nd; for (auto& r: d) { nd.insert(r.h); auto h = r.h; h[t.hs - 1] = 9; nd.insert(h); } nd.insert(std::string(t.hs, '\xff')); if (!c.thorough) { std::set<std::string> k; unsigned j = 0; for (auto& x: nd) if (j++ % 2 == 0 || j > nd.size() - 2) k.insert(x); nd = k; }
  for (auto& h: nd) { put("db.15.toc", s); clean_run(c, tool({"hibp-search", "db", ref::hexup(h), "--hash", "--toc", "--toc-bits", std::to_string(bits)}, t.opt)); }
  c.sample(c.what); c.step(nd.size());
}
// text: lines of every length, with and without an end, digits and others
static void texts(Ctx& c) {
  int which = c.choose(3 * 5); const Ty& t = *TYS[which % 3]; int pat = which / 3; std::size_t len = (std::size_t)c.choose((int)t.hs * 2 + 16);
  std::string l; switch (pat) { case 0: l.assign(len, 'A'); break; case 1: l = (ref::hexup(mk(t, 1, 0).h) + ":12345678901234").substr(0, len); break; case 2: l.assign(len, ':'); break; case 3: l.assign(len, '\0'); break; default: l.assign(len, '\xff'); }
  std::string good = ref::hexup(mk(t, 1, 0).h) + ":5"; c.what = std::string(t.name) + ", a line of " + std::to_string(len) + " characters, pattern " + std::to_string(pat);
  for (std::string in: {l, l + "\n", l + "\r\n", good + "\n" + l, good + "\n" + l + "\n" + good + "\n"}) { clean(); put("in", in); clean_run(c, tool({"hibp-convert", "-i", "in", "-o", "out", "--txt-to-bin"}, t.opt)); }
  clean(); put("db", content(t, 3 * (t.hs + 4), 0)); if (pat != 3) { clean_run(c, tool({"hibp-search", "db", l, "--hash"}, t.opt)); clean_run(c, tool({"hibp-search", "db", l}, t.opt)); }
  c.sample(c.what); c.step(7);
}
// sizes around the tools' buffers
static void sizes(Ctx& c) {
  const Ty& t = *TYS[c.choose(3)]; std::size_t rs = t.hs + 4; int k = c.choose(5), off = c.choose(3) - 1; std::size_t n = (k == 0 ? 4096 : k == 1 ? 8192 : k == 2 ? 65536 : k == 3 ? 1000 * rs : 131072) / rs + (std::size_t)(off + 1) - (off < 0 ? 1 : 0); std::string f; f.reserve(n * rs);
  ref::DB d; for (std::size_t i = 0; i != n; ++i) { ref::R r; r.h.assign(t.hs, '\0'); uint32_t v = (uint32_t)(i * 2654435761u); bool srt = off != 0; if (srt) v = (uint32_t)i * 11; for (int b = 0; b != 4; ++b) r.h[(std::size_t)b + 1] = (char)(v >> (24 - 8 * b)); r.c = (int32_t)(i % 100); d.push_back(r); }
  f = ref::bin(d); std::string g = ref::text(d); c.what = std::string(t.name) + ", " + std::to_string(n) + " records"; std::string nd = ref::hexup(d[n / 2].h);
  for (auto& a: std::vector<std::vector<std::string>>{{"hibp-sort", "-i", "db"}, {"hibp-sort", "-i", "db", "--sort-by-count"}, {"hibp-topn", "db", "-o", "out", "--topn", std::to_string(n)}, {"hibp-topn", "db", "-o", "out", "--topn", std::to_string(n / 2)}, {"hibp-convert", "-i", "db", "-o", "out", "--bin-to-txt"}, {"hibp-convert", "-i", "txt", "-o", "out", "--txt-to-bin"}, {"hibp-dupes", "db"}, {"hibp-diff", "db", "d2"}, {"hibp-search", "db", nd, "--hash"}, {"hibp-search", "db", nd, "--hash", "--toc", "--toc-bits", "15"}}) { clean(); put("db", f); put("txt", g); put("d2", f.substr(0, (n / 2) * rs)); clean_run(c, tool(a, t.opt)); }
  c.sample(c.what); c.step(10);
}
// as many chunks as there are records, and one for every two or three
static void chunks(Ctx& c) {
  const Ty& t = *TYS[c.choose(2)]; int n = 1 + c.choose(c.thorough ? 200 : 40); if (n > 34 && !c.thorough) n = n * 6 - 160;
  ref::DB d; for (int i = 0; i != n; ++i) d.push_back(mk(t, (unsigned)(i * 37 % n) + 1, (int32_t)(i % 5))); std::string f = ref::bin(d); c.what = std::string(t.name) + ", " + std::to_string(n) + " chunks of one record";
  for (auto& a: std::vector<std::vector<std::string>>{{"hibp-sort", "-i", "db", "--max-memory", "0"}, {"hibp-sort", "-i", "db", "--sort-by-count", "--max-memory", "0"}}) { clean(); put("db", f); clean_run(c, tool(a, t.opt)); }
  c.sample(c.what); c.step(2);
}
// a table of each width the tools take, complete, one entry short and one too long
static void widths(Ctx& c) {
  const Ty& t = *TYS[c.choose(3)]; unsigned bits = 15 + (unsigned)c.choose(11); int off = c.choose(3) - 1;
  ref::DB d; for (unsigned i: {0u, 1u, 255u}) { ref::R r; r.h.assign(t.hs, (char)i); r.c = 3; d.push_back(r); }
  c.what = std::string(t.name) + ", a table of 2^" + std::to_string(bits) + (off < 0 ? " - 1" : off ? " + 1" : "") + " entries";
  clean(); put("db", ref::bin(d)); struct timespec old[2] = {{1000, 0}, {1000, 0}}; utimensat(AT_FDCWD, "db", old, 0);
  std::string f = "db." + std::to_string(bits) + ".toc"; put(f, "");
  for (auto& h: {std::string(t.hs, '\0'), std::string(t.hs, '\x7f'), std::string(t.hs, '\xff')}) { if (truncate(f.c_str(), (off_t)((1ull << bits) + (unsigned long long)(long long)off) * 4)) c.fail("setup", "truncate"); clean_run(c, tool({"hibp-search", "db", ref::hexup(h), "--hash", "--toc", "--toc-bits", std::to_string(bits)}, t.opt)); }
  c.sample(c.what); c.step(3);
}
static Reg r5({.prop = "C28", .name = "chunks", .body = chunks}), r6({.prop = "C28", .name = "widths", .body = widths, .splitk = 2});
static Reg r1({.prop = "C28", .name = "files", .body = files}), r2({.prop = "C28", .name = "tables", .body = tables}), r3({.prop = "C28", .name = "texts", .body = texts}), r4({.prop = "C28", .name = "sizes", .body = sizes});
int main(int argc, char** argv) { return mc::main_(argc, argv); }
