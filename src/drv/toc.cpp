// C15 (answers with a fresh table of contents), C16 (stored tables) and the in-process part of C24
#include "drv/toolkit.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include "toc.hpp"
#include <iostream>
#include <memory>
#include <optional>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>

struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
static NullBuf nullbuf;
static void quiet() { std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf); std::cout.clear(); }
template <class T> constexpr std::size_t HS = sizeof(T::hash);
template <class T> const char* nm() { return HS<T> == 20 ? "sha1" : HS<T> == 16 ? "ntlm" : "sha1t64"; }
template <class T> const Ty& ty() { return HS<T> == 20 ? SHA : HS<T> == 16 ? NT : T64; }
template <class T> T rec(const ref::R& r) { T t; std::memcpy(t.hash.data(), r.h.data(), r.h.size()); t.count = r.c; return t; }
using S1 = hibp::pawned_pw_sha1; using N4 = hibp::pawned_pw_ntlm; using S8 = hibp::pawned_pw_sha1t64;

// the record of a prefix of `bits` bits: in its lowest place, somewhere inside, in its highest place
static std::string at(std::size_t hs, uint32_t prefix, unsigned bits, int where) { // 0 lowest, 1.. inside, -1 highest
  std::string h(hs, where == -1 ? '\xff' : '\0'); uint32_t v = prefix << (32 - bits);
  if (where == -1) v |= bits == 32 ? 0 : 0xFFFFFFFFu >> bits;
  if (where > 0) h[hs - 1] = (char)where;
  for (int i = 0; i != 4; ++i) h[(std::size_t)i] = (char)(v >> (24 - 8 * i));
  return h;
}
static std::optional<int32_t> look(const ref::DB& d, const std::string& h) { for (auto& r: d) if (r.h == h) return r.c; return {}; }
static bool gap(const ref::DB& d, unsigned bits) { // no table can be built: some prefix up to the last has no record
  if (d.empty()) return true;
  uint32_t want = 0;
  for (auto& r: d) { uint32_t p = 0; for (int i = 0; i != 4; ++i) p = p << 8 | (unsigned char)r.h[(std::size_t)i]; p >>= 32 - bits; if (p > want) return true; if (p == want) ++want; }
  return false;
}
template <class T> std::string ans(const std::optional<T>& a) { return a ? a->to_string() : "not found"; }
static std::string exp_(const ref::DB& d, const std::string& h) { auto x = look(d, h); return x ? ref::text(ref::R{h, *x}) : "not found"; }
static std::vector<std::string> needles(std::size_t hs, unsigned bits, uint32_t from, uint32_t to) {
  std::vector<std::string> v; uint32_t max = bits == 32 ? 0xFFFFFFFFu : (1u << bits) - 1;
  for (uint32_t p = from; p <= to && p <= max; ++p) for (int w: {0, 1, 2, 3, 4, 5, -1}) v.push_back(at(hs, p, bits, w));
  v.push_back(std::string(hs, '\0')); v.push_back(std::string(hs, '\xff')); v.push_back(at(hs, max, bits, 0));
  return v;
}
static void fresh() { clean(); }

// ------------------------------------------------------------------ C15
// every prefix has none, one (lowest / highest / inside) or two records: all databases over 2^bits prefixes
template <class T> void all_dbs(Ctx& c) {
  quiet(); unsigned bits = (unsigned)c.choose(c.thorough ? 4 : 3) + 1; std::size_t hs = HS<T>; int P = 1 << bits; ref::DB d; std::string desc; int cnt = 1;
  int kinds = bits <= 2 ? 7 : bits == 3 ? (c.thorough ? 5 : 4) : 3; int gaps = 0;
  for (int p = 0; p != P; ++p) {
    int k = c.choose(kinds); desc += (char)('0' + k);
    if (k == 2) { if (++gaps > 2 && bits > 2) throw Infeasible{}; continue; }
    std::vector<int> w; if (k == 0) w = {2}; if (k == 1) w = {1, 4}; if (k == 3) w = {0, -1}; if (k == 4) w = {0}; if (k == 5) w = {-1}; if (k == 6) w = {0, 1, 2, 3, 4, -1};
    for (int x: w) d.push_back({at(hs, (uint32_t)p, bits, x), cnt++});
  }
  fresh(); put("db", ref::bin(d)); std::string what = std::string(nm<T>()) + " " + std::to_string(bits) + " bits, prefixes " + desc;
  bool g = gap(d, bits), threw = false;
  try { hibp::toc_build<T>("db", bits); } catch (const std::exception&) { threw = true; }
  if (g) { if (!threw) c.fail("gap", what + ": a prefix without records, but building the table does not fail"); c.nontrivial(fnv(what)); return; }
  if (threw) c.fail("build-fails", what + ": the table cannot be built");
  flat_file::database<T> db("db", (std::size_t)(1 + c.choose(3) * 3)); uint64_t ev = 0;
  for (int round = 0; round != 2; ++round) { // the table just built, then the one just stored
    if (round) hibp::toc_build<T>("db", bits);
    for (auto& h: needles(hs, bits, 0, (uint32_t)P - 1)) { T n = rec<T>({h, -7}); std::string a; try { a = ans(hibp::toc_search<T>(db, n, bits)); } catch (const std::exception& e) { a = std::string("exception ") + e.what(); }
      if (a != exp_(d, h)) c.fail("answer", what + (round ? ", stored table" : ", fresh table") + ": needle " + ref::hexup(h) + " -> " + a + ", without the table: " + exp_(d, h)); ++ev; }
  }
  c.evals(ev, 0); c.nontrivial(fnv(what)); c.sample(what + " (2 = no record)");
}
template <class T> void group_sizes(Ctx& c) { // groups around the reading buffers' sizes
  quiet(); std::size_t hs = HS<T>; int big = 65536 / (int)sizeof(T); unsigned bits = 2; ref::DB d;
  static const int DS[] = {-1, 0, 1}; int first = c.choose(4), n1 = first == 3 ? 1 : big + DS[first], n2k = c.choose(4), n2 = n2k == 3 ? 1 : big + DS[n2k]; int n3 = 1 + c.choose(2) * big;
  int cnt = 0; auto grp = [&](uint32_t p, int n) { for (int i = 0; i != n; ++i) { std::string h = at(hs, p, bits, 0); h[hs - 2] = (char)(i >> 8); h[hs - 1] = (char)i; if (hs > 4) d.push_back({h, cnt++}); } };
  grp(0, n1); grp(1, n2); grp(2, n3); fresh(); put("db", ref::bin(d));
  hibp::toc_build<T>("db", bits); flat_file::database<T> db("db", 4096 / sizeof(T)); std::string what = std::string(nm<T>()) + " groups " + std::to_string(n1) + "," + std::to_string(n2) + "," + std::to_string(n3); uint64_t ev = 0;
  for (std::size_t i = 0; i < d.size(); ++i) { bool edge = i < 3 || i + 3 > d.size() || std::abs((int)i - n1) < 4 || std::abs((int)i - n1 - n2) < 4 || std::abs((int)i - big) < 4; if (!edge && i % 97) continue;
    for (int o = 0; o != 2; ++o) { std::string h = d[i].h; if (o) h[hs - 3] = 1; T n = rec<T>({h, 0}); auto a = ans(hibp::toc_search<T>(db, n, bits)); std::string want = o ? (hs > 2 ? exp_({}, h) : "") : ref::text(d[i]); if (a != want) c.fail("answer", what + ": needle " + ref::hexup(h) + " -> " + a + ", expected " + want); ++ev; } }
  c.evals(ev, 0); c.nontrivial(fnv(what)); c.sample(what);
}
// the real tool, every number of bits it takes
static std::string answer(const Run& r) { std::string a; std::istringstream is(r.out); std::string l; while (std::getline(is, l)) if (l.rfind("found", 0) == 0 || l == "not found") a += l + "\n"; return a; }
static std::string want_line(const ref::DB& d, const std::string& h) { auto x = look(d, h); return x ? "found  = " + ref::text(ref::R{h, *x}) + "\n" : "not found\n"; }
template <class T> void cli(Ctx& c) {
  unsigned bits = 15 + (unsigned)c.choose(11); std::size_t hs = HS<T>; int kind = c.choose(6); ref::DB d; int cnt = 1; uint32_t last = 6;
  // 0: one per prefix, 1: several, 2: gap in the middle, 3: first prefix empty, 4: one record only, 5: enough for prefixes whose top bytes differ
  if (kind == 5) { last = bits > 20 ? 300 : 70; }
  if (kind == 4) last = 0;
  for (uint32_t p = 0; p <= last; ++p) {
    if ((kind == 2 && p == 3) || (kind == 3 && p == 0)) continue;
    d.push_back({at(hs, p, bits, 1), cnt++}); if (kind == 1) { d.push_back({at(hs, p, bits, 3), cnt++}); d.push_back({at(hs, p, bits, -1), cnt++}); }
  }
  clean(); put("db", ref::bin(d)); std::string what = std::string(nm<T>()) + " --toc-bits " + std::to_string(bits) + " database " + std::to_string(kind); uint64_t ev = 0;
  std::vector<std::string> nd = needles(hs, bits, last > 8 ? last - 1 : 0, last + 1); if (last > 8) for (auto& h: needles(hs, bits, 0, 1)) nd.push_back(h);
  nd.push_back(at(hs, last / 2, bits, 1)); bool g = gap(d, bits);
  for (auto& h: nd) {
    std::vector<std::string> av{"hibp-search", "db", ref::hexup(h), "--hash", "--toc"}; if (bits != 20 || !(h[hs - 1] & 1)) { av.push_back("--toc-bits"); av.push_back(std::to_string(bits)); } // 20 is the default
    Run r = tool(av, ty<T>().opt);
    run_checked(r); ++ev;
    if (g) { if (!r.failed()) c.fail("gap", what + ": a prefix without records, but the search does not fail" + tail(r)); continue; }
    if (!r.ok() || answer(r) != want_line(d, h)) c.fail("answer", what + ": expected " + want_line(d, h) + tail(r));
    Run p = tool({"hibp-search", "db", ref::hexup(h), "--hash"}, ty<T>().opt); run_checked(p);
    if (answer(p) != answer(r)) c.fail("differs", what + ": with a table " + answer(r) + "without " + answer(p));
  }
  c.evals(ev, 0); c.nontrivial(fnv(what)); c.sample(what + ", " + std::to_string(ev) + " needles");
}
template <class T> void cli_full(Ctx& c) { // a complete database: every prefix of 15 (16) bits has a record, needles everywhere
  unsigned bits = 15 + (unsigned)c.choose(c.thorough ? 3 : 2); std::size_t hs = HS<T>; uint32_t P = 1u << bits; int k = c.choose(8);
  ref::DB d; for (uint32_t p = 0; p != P; ++p) d.push_back({at(hs, p, bits, 1), (int32_t)p}); std::string content = ref::bin(d); clean(); put("db", content); uint64_t ev = 0;
  std::string what = std::string(nm<T>()) + " complete database of " + std::to_string(P) + " prefixes";
  std::vector<uint32_t> ps{0, 1, 2, 255, 256, 257, P / 2 - 1, P / 2, P - 256, P - 2, P - 1}; for (uint32_t i = 0; i < P; i += P / 64 + 1) ps.push_back(i);
  for (std::size_t i = (std::size_t)k; i < ps.size(); i += 8) for (int w: {0, 1, 2, -1}) {
    std::string h = at(hs, ps[i], bits, w); Run r = tool({"hibp-search", "db", ref::hexup(h), "--hash", "--toc", "--toc-bits", std::to_string(bits)}, ty<T>().opt); run_checked(r); ++ev;
    std::string want = w == 1 ? "found  = " + ref::text(d[ps[i]]) + "\n" : "not found\n";
    if (!r.ok() || answer(r) != want) c.fail("answer", what + ": expected " + want + tail(r));
  }
  c.evals(ev, ev); c.sample(what);
}
template <class T> void cli_huge(Ctx& c) { // more than 2^32 bytes: the table is built by reading through all of it
  std::size_t hs = HS<T>, rs = sizeof(T); uint64_t n = (1ULL << 32) / rs + 20; ref::DB d; for (unsigned i = 0; i != 40; ++i) d.push_back(mk(ty<T>(), 1 + i, (int32_t)i + 5)); clean(); if (!sparse("db", n, rs, {{n - 40, ref::bin(d)}})) throw Infeasible{};
  std::string what = std::string(nm<T>()) + " database of " + std::to_string(n) + " records"; uint64_t ev = 0; ref::DB all = d; all.insert(all.begin(), {std::string(hs, '\0'), 0});
  for (unsigned i = 0; i != 45; ++i) for (int o = 0; o != 2; ++o) { if (o && i % 4) continue; std::string h = i ? mk(ty<T>(), i, 0).h : all[0].h; if (o) h[hs - 2] = 1;
    Run r = tool({"hibp-search", "db", ref::hexup(h), "--hash", "--toc", "--toc-bits", "16"}, ty<T>().opt); r.timeout_s = 150; run_checked(r); ++ev; if (!r.ok() || answer(r) != want_line(all, h)) c.fail("answer", what + ": expected " + want_line(all, h) + tail(r)); }
  c.evals(ev, 0); c.nontrivial(fnv(what)); c.sample(what); clean();
}
// ------------------------------------------------------------------ C16: histories of the real tool
// The modification times are set from a logical clock after every step, so that "later" does not depend on
// the resolution of the file system's clock.
static std::map<std::string, std::pair<ino_t, int64_t>> seen_; static int64_t tick;
static void settick(const std::string& f, int64_t t) { struct timespec ts[2] = {{1600000000 + t, 0}, {1600000000 + t, 0}}; utimensat(AT_FDCWD, f.c_str(), ts, 0); }
static std::vector<std::string> all_files() { auto v = ls(); std::error_code e; for (auto& x: std::filesystem::directory_iterator("d", e)) v.push_back(x.path().string()); return v; }
static void stamp(int64_t t) { for (auto& f: all_files()) { struct stat s; if (stat(f.c_str(), &s)) continue; int64_t m = s.st_mtim.tv_sec * 1000000000LL + s.st_mtim.tv_nsec; auto it = seen_.find(f);
    if (it == seen_.end() || it->second != std::pair{s.st_ino, m}) { settick(f, t); stat(f.c_str(), &s); seen_[f] = {s.st_ino, s.st_mtim.tv_sec * 1000000000LL + s.st_mtim.tv_nsec}; } } }
template <class T> ref::DB version(int v, unsigned bits) { // contents a database goes through
  ref::DB d; std::size_t hs = HS<T>; int cnt = 100 * v + 1; int P = v == 1 ? 3 : v == 2 ? 5 : 4;
  for (int p = 0; p != P; ++p) { if (v == 3 && p == 0) { for (int w: {1, 2, 3}) d.push_back({at(hs, 0, bits, w), cnt++}); continue; } d.push_back({at(hs, (uint32_t)p, bits, 1 + v), cnt++}); if (v == 2 && p == 2) d.push_back({at(hs, 2, bits, -1), cnt++}); }
  return d;
}
template <class T> void hist_cli(Ctx& c) {
  const unsigned B[2] = {15, 16}; std::size_t hs = HS<T>; clean(); seen_.clear(); tick = 1; int depth = c.thorough ? 4 : 3; std::string h;
  ref::DB cur = version<T>(1, 16); put("db", ref::bin(cur)); stamp(tick);
  auto srch = [&](unsigned bits, const std::string& nd, int fault, int64_t k, int64_t torn) {
    Run r = tool({"hibp-search", "db", ref::hexup(nd), "--hash", "--toc", "--toc-bits", std::to_string(bits)}, ty<T>().opt);
    if (fault) { r.shim = true; r.ctl.mut_skip = 7; if (fault == 1) { r.ctl.crash_at = k; r.ctl.crash_torn = torn; } else { r.ctl.fail_mut_at = k; r.ctl.fail_mut_errno = ENOSPC; } }
    run_checked(r); return r; };
  auto judge = [&](unsigned bits, const std::string& nd, bool mayfail) { Run r = srch(bits, nd, 0, 0, 0);
    if (r.ok() ? answer(r) != want_line(cur, nd) : !(mayfail && r.failed())) c.fail("stale", std::string(nm<T>()) + " history:" + h + " -> search with " + std::to_string(bits) + " bits, expected " + want_line(cur, nd) + tail(r)); };
  int steps = c.choose(depth + 1); int last = -1;
  for (int s = 0; s != steps; ++s) {
    // 0,1: search; 2..4: another content; 5: extend; then interrupted / out of space searches (one deviation each)
    int op = c.choose(8); if (op == last && op >= 2 && op <= 4) throw Infeasible{}; last = op;
    std::string nd = at(hs, 1, 16, 2); ++tick;
    if (op < 2) { h += " search" + std::to_string(B[op]); judge(B[op], nd, gap(cur, B[op])); }
    else if (op < 5) { cur = version<T>(op - 1, 16); bool same = c.deviate(2, 1); if (same) --tick; h += " rewrite" + std::to_string(op - 1) + (same ? "(same tick)" : ""); put("db", ref::bin(cur)); }
    else if (op == 5) { std::string top = cur.back().h; top[hs - 1] = (char)(top[hs - 1] - 0); ref::R r{at(hs, (uint32_t)((unsigned char)cur.back().h[0] << 8 | (unsigned char)cur.back().h[1]) + 1, 16, 1), 777 + s}; cur.push_back(r); h += " extend"; int fd = open("db", O_WRONLY | O_APPEND); auto b = ref::bin(r); if (write(fd, b.data(), b.size()) < 0) {} close(fd); }
    else { int bi = c.choose(2); // out of space or killed at the k-th changing call (torn after some bytes)
      int64_t k, torn = -1; int kind = op - 5; if (c.budget[0] <= 0) throw Infeasible{};
      --c.budget[0]; k = 1 + c.choose(4); if (kind == 1) { static const int TB[] = {-1, 0, 1, 4, 8, 11}; torn = TB[c.choose(6)]; }
      h += std::string(kind == 1 ? " killed" : " nospace") + "(" + std::to_string(B[bi]) + ",call " + std::to_string(k) + (torn >= 0 ? ",after " + std::to_string(torn) + " bytes" : "") + ")";
      Run r = srch(B[bi], nd, kind, k, torn); if (r.ctl.muts < k) throw Infeasible{}; // nothing happened: another history covers it
      if (kind == 2 && r.ok() && answer(r) != want_line(cur, nd)) c.fail("answer", std::string(nm<T>()) + " history:" + h + ": wrong answer, expected " + want_line(cur, nd) + tail(r));
    }
    stamp(tick); c.step();
  }
  ++tick; std::set<std::string> nds; for (auto& r: cur) nds.insert(r.h); for (int v = 1; v <= 3; ++v) nds.insert(version<T>(v, 16).back().h);
  uint64_t ev = 0; for (int b = 0; b != 2; ++b) for (auto& x: nds) { judge(B[b], x, gap(cur, B[b])); ++ev; }
  c.evals(ev, 0); c.nontrivial(fnv(h)); if (steps) c.sample(std::string(nm<T>()) + " history:" + h);
}
// ------------------------------------------------------------------ C16: searches (and a rewrite) at the same time
// Each process stops before a chosen one of its file operations while others go on. Times are the file system's own:
// between steps the clock is waited for, so that later is later.
struct Proc { // a search that can be stopped
  pid_t pid = -1; int out = -1, err = -1, cfd = -1; ShimCtl* ctl = nullptr; bool done = false; int st = 0; std::string argv;
  ~Proc() { if (pid > 0 && !done) { kill(pid, SIGKILL); kill(pid, SIGCONT); waitpid(pid, &st, 0); } if (ctl) munmap(ctl, sizeof *ctl); for (int f: {out, err, cfd}) if (f >= 0) close(f); }
  void start(std::vector<std::string> a, int64_t stop) {
    static const std::string build = getenv("BUILD") ? getenv("BUILD") : "/verif/.build"; out = memfd_create("o", 0); err = memfd_create("e", 0); cfd = memfd_create("s", 0); if (ftruncate(cfd, sizeof(ShimCtl))) _exit(99);
    ctl = (ShimCtl*)mmap(nullptr, sizeof(ShimCtl), PROT_READ | PROT_WRITE, MAP_SHARED, cfd, 0); *ctl = ShimCtl{}; ctl->mut_skip = 7; ctl->stop_at = stop > 0 ? stop : 1 << 30;
    for (auto& x: a) argv += (argv.empty() ? "" : " ") + x; std::string exe = build + tooldir() + a[0], e = "HIBP_SHIM_FD=" + std::to_string(cfd); std::vector<char*> av, ev; for (auto& x: a) av.push_back((char*)x.c_str()); av.push_back(nullptr); for (auto x: {"LC_ALL=C", "TZ=UTC", e.c_str()}) ev.push_back((char*)x); ev.push_back(nullptr);
    pid = vfork(); if (pid == 0) { int z = open("/dev/null", O_RDONLY); dup2(z, 0); dup2(out, 1); dup2(err, 2); prctl(PR_SET_PDEATHSIG, SIGKILL); execve(exe.c_str(), av.data(), ev.data()); _exit(127); }
    wait_();
  }
  void wait_() { uint64_t t0 = now_ms(); for (unsigned spin = 0;; ++spin) { pid_t w = waitpid(pid, &st, WNOHANG | WUNTRACED); if (w == pid) { done = !WIFSTOPPED(st); return; } uint64_t el = now_ms() - t0; if (el > 60000) { std::fprintf(stderr, "a search does not end\n"); _exit(99); } usleep(el < 5 ? 60 : 1000); } }
  void go_on() { if (done) return; kill(pid, SIGCONT); wait_(); }
  void end() { if (done) return; kill(pid, SIGKILL); waitpid(pid, &st, 0); done = true; }
  bool ok() const { return done && WIFEXITED(st) && WEXITSTATUS(st) == 0; }
  std::string said() const { return slurp_fd(out); }
  std::string how() const { return argv + ": " + (WIFEXITED(st) ? "exit status " + std::to_string(WEXITSTATUS(st)) : "signal") + "\n" + said() + slurp_fd(err); }
};
static void later() { struct timespec a, b; clock_gettime(CLOCK_REALTIME_COARSE, &a); do { usleep(200); clock_gettime(CLOCK_REALTIME_COARSE, &b); } while (a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec); usleep(100); }
static std::string line_of(const std::string& out) { Run r; r.out = out; return answer(r); }
template <class T> void processes(Ctx& c) {
  const unsigned B[2] = {15, 16}; const int K = 26; int all = c.choose(3 * 5 * 3 * K); // in one, so that it is shared out evenly
  int st0 = all % 3, rw = all / 3 % 5, sec = all / 15 % 3; int64_t a = 1 + all / 45, b = 0; // rw: 0: none; 1..4: a rewrite before the first, after it, after the second one stops, after the first one has ended
  bool two = sec, killed = false; unsigned bb = B[sec == 2]; if ((rw == 3 && !two) || (st0 == 1 && !c.thorough && sizeof(T) != sizeof(S1))) throw Infeasible{};
  clean(); std::size_t hs = HS<T>; std::string h; ref::DB cur = version<T>(1, 16); put("db", ref::bin(cur)); bool rewritten = false;
  if (st0) { later(); Run r = tool({"hibp-search", "db", ref::hexup(cur[0].h), "--hash", "--toc", "--toc-bits", "15"}, ty<T>().opt); run_checked(r); h += " table there"; } // 0: no table, 1: a fresh one, 2: an old one
  auto rewrite = [&](int v) { later(); cur = version<T>(v, 16); put("db", ref::bin(cur)); later(); h += " rewrite" + std::to_string(v); };
  if (st0 == 2) rewrite(2); else if (!st0) later();
  auto args = [&](unsigned bits, const std::string& nd) { std::vector<std::string> a{"hibp-search", "db", ref::hexup(nd), "--hash", "--toc", "--toc-bits", std::to_string(bits)}; for (auto& o: ty<T>().opt) a.push_back(o); return a; };
  std::string nd = at(hs, 1, 16, 2), nd0 = cur[0].h;
  Proc x, y; x.start(args(B[0], nd), a); if (x.done) throw Infeasible{}; h += " first search stops before its " + std::to_string(a) + ". operation"; int rv = st0 == 2 ? 3 : 2;
  if (rw == 1) { rewrite(rv); rewritten = true; }
  if (two) { b = c.choose(K + 1); y.start(args(bb, nd0), b); if (b && y.done) throw Infeasible{}; h += " second search (" + std::to_string(bb) + " bits)" + (y.done ? " runs" : " stops before its " + std::to_string(b) + ". operation"); }
  if (rw == 2) { rewrite(rv); rewritten = true; }
  if (two) killed = c.flag(); if (killed) { x.end(); h += " first one is killed"; } else { x.go_on(); h += " first one goes on to the end"; }
  if (rw == 3) { rewrite(rv); rewritten = true; }
  if (two && !y.done) { y.go_on(); h += " second one goes on to the end"; }
  if (rw == 4) { rewrite(rv); rewritten = true; }
  auto w = [&] { return std::string(nm<T>()) + " history:" + h; };
  if (!rewritten || rw == 4) { ref::DB d = st0 == 2 ? version<T>(2, 16) : version<T>(1, 16);
    if (!killed && (!x.ok() || line_of(x.said()) != want_line(d, nd))) c.fail("answer", w() + ": the first search's answer is wrong, expected " + want_line(d, nd) + "\n" + x.how());
    if (two && (!y.ok() || line_of(y.said()) != want_line(d, nd0))) c.fail("answer", w() + ": the second search's answer is wrong, expected " + want_line(d, nd0) + "\n" + y.how()); }
  if (!killed && !WIFEXITED(x.st)) c.fail("crash", w() + "\n" + x.how()); if (two && !WIFEXITED(y.st)) c.fail("crash", w() + "\n" + y.how());
  std::set<std::string> nds; for (auto& r: cur) nds.insert(r.h); for (int v = 1; v <= 3; ++v) nds.insert(version<T>(v, 16).back().h); uint64_t ev = 0;
  for (unsigned bits: B) if (bits == B[0] || (two && bits == bb)) for (auto& n: nds) { Run r = tool(args(bits, n)); run_checked(r); ++ev; if (r.ok() ? answer(r) != want_line(cur, n) : !(gap(cur, bits) && r.failed())) c.fail("stale", w() + " -> search with " + std::to_string(bits) + " bits, expected " + want_line(cur, n) + tail(r)); }
  c.evals(ev, 0); c.nontrivial(fnv(h)); c.sample(w()); c.step();
}
// several databases and bit widths in one process; a full disk or failing reads at any call
struct Sub { std::string file; int type; ref::DB cur; };
template <class T> void use(Ctx& c, const Sub& s, unsigned bits, const std::string& h, bool faulty) {
  try { hibp::toc_build<T>(s.file, bits); } catch (const std::exception& e) { if (!faulty && !gap(s.cur, bits)) c.fail("build-fails", "history:" + h + ": " + e.what()); return; }
  flat_file::database<T> db(s.file, 3); std::set<std::string> nds; for (auto& r: s.cur) { nds.insert(r.h); nds.insert([&] { auto x = r.h; x[HS<T> - 1] ^= 0x55; return x; }()); } nds.insert(std::string(HS<T>, '\0')); nds.insert(std::string(HS<T>, '\xff'));
  for (auto& x: nds) { std::string a; try { a = ans(hibp::toc_search<T>(db, rec<T>({x, 0}), bits)); } catch (const std::exception& e) { if (faulty) continue; a = e.what(); }
    if (a != exp_(s.cur, x)) c.fail("stale", "history:" + h + ": needle " + ref::hexup(x) + " in " + s.file + " -> " + a + ", expected " + exp_(s.cur, x)); }
}
static void use_t(Ctx& c, const Sub& s, unsigned bits, const std::string& h, bool f) { if (s.type == 0) use<S1>(c, s, bits, h, f); else if (s.type == 1) use<N4>(c, s, bits, h, f); else use<S8>(c, s, bits, h, f); }
static ref::DB ver_t(int type, int v, unsigned b) { return type == 0 ? version<S1>(v, b) : type == 1 ? version<N4>(v, b) : version<S8>(v, b); }
static ShimCtl* shimmem() { static ShimCtl s; return &s; }
static void hist_lib(Ctx& c) {
  quiet(); clean(); seen_.clear(); tick = 1; std::string h; const unsigned B[2] = {3, 4}; int depth = c.thorough ? 4 : 3;
  Sub sub[3] = {{"p.a", 0, ver_t(0, 1, 4)}, {"p.b", 0, ver_t(0, 2, 4)}, {"d/p.a", 1, ver_t(1, 3, 4)}}; mkdir("d", 0777); // names that differ in the extension or the directory only
  for (auto& s: sub) put(s.file, ref::bin(s.cur)); stamp(tick);
  for (int s = 0; s != depth; ++s) {
    ++tick; int op = c.choose(9); // searching each of three databases with each of two widths, or rewriting one of them
    if (op < 6) { auto& x = sub[op / 2]; h += " search(" + x.file + "," + std::to_string(B[op % 2]) + ")";
      int f = c.deviate(5, 0); ShimCtl* m = shimmem(); *m = ShimCtl{}; if (f) { // 1: out of space, 2: interrupted write of the table, 3: failing read, 4: early end of file
        int k = 1 + c.choose(f <= 2 ? 3 : 5); h += "[" + std::string(f == 1 ? "nospace" : f == 2 ? "write error" : f == 3 ? "read error" : "early end") + " at call " + std::to_string(k) + "]";
        if (f <= 2) { m->fail_mut_at = k; m->fail_mut_errno = f == 1 ? ENOSPC : EIO; } else { m->fail_read_at = k; m->fail_errno = f == 3 ? EIO : 0; } shim_set(m); }
      try { use_t(c, x, B[op % 2], h, f != 0); } catch (...) { shim_set(nullptr); throw; }
      shim_set(nullptr); if (f && (f <= 2 ? m->muts : m->reads) < (f <= 2 ? m->fail_mut_at : m->fail_read_at)) throw Infeasible{};
    } else { auto& x = sub[op - 6]; int v = 1 + c.choose(3); bool same = c.deviate(2, 1); if (same) --tick; h += " rewrite(" + x.file + "," + std::to_string(v) + (same ? ",same tick" : "") + ")"; x.cur = ver_t(x.type, v, 4); put(x.file, ref::bin(x.cur)); }
    stamp(tick); c.step();
  }
  for (auto& x: sub) for (unsigned b: B) use_t(c, x, b, h + " -> finally search(" + x.file + "," + std::to_string(b) + ")", false);
  c.nontrivial(fnv(h)); c.sample("history:" + h);
}
// the three types' tables side by side, as the server uses them: all built first, then searched in any order
static void side(Ctx& c) {
  quiet(); clean(); std::string h; Sub s[3]; for (int i = 0; i != 3; ++i) { s[i] = {"p." + std::to_string(i + 1), i, ver_t(i, 1 + c.choose(3), 4)}; put(s[i].file, ref::bin(s[i].cur)); h += " " + s[i].file; }
  int order = c.choose(6); static const int O[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; unsigned bits = 3 + (unsigned)c.choose(2); bool stored = c.flag();
  for (int round = 0; round != (stored ? 2 : 1); ++round) for (int i: O[order]) { if (i == 0) hibp::toc_build<S1>("p.1", bits); else if (i == 1) hibp::toc_build<N4>("p.2", bits); else hibp::toc_build<S8>("p.3", bits); }
  flat_file::database<S1> d0("p.1", 2); flat_file::database<N4> d1("p.2", 2); flat_file::database<S8> d2("p.3", 2); uint64_t ev = 0;
  for (int step = 0; step != 30; ++step) { int i = (step * 7 + order) % 3; auto& r = s[i].cur[(std::size_t)step % s[i].cur.size()]; for (int o = 0; o != 2; ++o) { std::string x = r.h; if (o) x.back() ^= 0x11;
      std::string a = i == 0 ? ans(hibp::toc_search<S1>(d0, rec<S1>({x, 0}), bits)) : i == 1 ? ans(hibp::toc_search<N4>(d1, rec<N4>({x, 0}), bits)) : ans(hibp::toc_search<S8>(d2, rec<S8>({x, 0}), bits)); ++ev;
      if (a != exp_(s[i].cur, x)) c.fail("mixed", "tables of three databases, built in order " + std::to_string(order) + ": needle " + ref::hexup(x) + " -> " + a + ", expected " + exp_(s[i].cur, x)); } }
  c.evals(ev, ev); c.sample("three databases side by side, order " + std::to_string(order));
}
// ------------------------------------------------------------------ C24: lookups through one database object, faults anywhere
template <class T> void lookups(Ctx& c) {
  quiet(); clean(); unsigned bits = 3; auto d = version<T>(2, 4); int buf = 1 + c.choose(3); put("db", ref::bin(d)); hibp::toc_build<T>("db", bits); std::string h = std::string(nm<T>()) + ", buffer " + std::to_string(buf) + ":";
  flat_file::database<T> db("db", (std::size_t)buf); int depth = c.thorough ? 4 : 3; bool any = false;
  for (int s = 0; s != depth; ++s) {
    int op = c.choose(4); std::size_t p = (std::size_t)c.choose(4); static const std::size_t PP[] = {0, 2, 4, 5}; auto& r = d[PP[p]]; int f = c.deviate(5, 0); ShimCtl* m = shimmem(); *m = ShimCtl{}; static const char* FN[] = {"", "[read error]", "[read errors]", "[early end]", "[seek error]"};
    int k = f ? 1 + c.choose(2) : 0; static const char* ON[] = {"get", "lower_bound", "toc_search", "copy"}; h += std::string(" ") + ON[op] + std::to_string(PP[p]) + FN[f] + (f ? std::to_string(k) : "");
    if (f) { if (f == 4) m->fail_seek_at = k; else { m->fail_read_at = k; m->fail_errno = f == 3 ? 0 : EIO; m->fail_sticky = f == 2; } shim_set(m); any = true; }
    std::string got, want = ref::text(r); bool threw = false;
    try {
      if (op == 0) got = db.get_record(PP[p]).to_string();
      else if (op == 1) { auto n = rec<T>({r.h, 0}); auto it = std::lower_bound(db.begin(), db.end(), n); got = it != db.end() && *it == n ? it->to_string() : "not found"; }
      else if (op == 2) got = ans(hibp::toc_search<T>(db, rec<T>({r.h, 0}), bits));
      else { want.clear(); for (std::size_t i = PP[p]; i != d.size(); ++i) want += ref::text(d[i]); std::vector<T> v; std::copy(db.begin() + PP[p], db.end(), std::back_inserter(v)); for (auto& x: v) got += x.to_string(); }
    } catch (const std::exception&) { threw = true; }
    shim_set(nullptr);
    if (threw && !any) c.fail("spurious", h + " -> fails without any fault");
    if (!threw && got != want) c.fail("wrong", h + " -> " + got + ", expected " + want);
    if (f && (f == 4 ? m->seeks < k : m->reads < k)) throw Infeasible{};
    c.step();
  }
  c.nontrivial(fnv(h)); c.sample(h);
}
template <class T> struct Rg { Rg() { std::string n = nm<T>();
  scenarios().push_back({.prop = "C15", .name = "small-" + n, .body = all_dbs<T>, .splitk = 3}); scenarios().push_back({.prop = "C15", .name = "groups-" + n, .body = group_sizes<T>, .splitk = 1});
  scenarios().push_back({.prop = "C15", .name = "tool-" + n, .body = cli<T>, .splitk = 2}); scenarios().push_back({.prop = "C15", .name = "complete-" + n, .body = cli_full<T>, .splitk = 2}); scenarios().push_back({.prop = "C15", .name = "huge-" + n, .body = cli_huge<T>, .exec_limit_s = 400});
  scenarios().push_back({.prop = "C16", .name = "tool-" + n, .body = hist_cli<T>, .budget = {1, 1, 0, 0}, .tbudget = {2, 1, 0, 0}, .splitk = 4});
  scenarios().push_back({.prop = "C16", .name = "processes-" + n, .body = processes<T>, .splitk = 1});
  scenarios().push_back({.prop = "C24", .name = "lookups-" + n, .body = lookups<T>, .budget = {1, 0, 0, 0}, .tbudget = {2, 0, 0, 0}, .splitk = 3}); } };
static Rg<S1> a; static Rg<N4> b; static Rg<S8> d_;
static Reg h1({.prop = "C16", .name = "process", .body = hist_lib, .budget = {1, 1, 0, 0}, .tbudget = {2, 1, 0, 0}, .splitk = 4}); static Reg h2({.prop = "C16", .name = "side-by-side", .body = side}), h3({.prop = "C15", .name = "side-by-side", .body = side});
int main(int argc, char** argv) { return main_(argc, argv); }
