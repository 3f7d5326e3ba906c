// C07 (refused writes), C24 (failing and short reads) and C08 (existing files, option sets) on the real tools
#include "drv/toolkit.hpp"
#include "mc/hashref.hpp"

// ------------------------------------------------------------------ jobs: one successful use of a tool each
struct Job {
  std::string name; std::vector<std::string> argv; std::map<std::string, std::string> files; std::string in;
  int out;            // 0: file "o", 1: standard output, 2: the file hibp-sort names, 3: answer of hibp-search
  std::string expect; // the complete output
  bool text_in = false; // input is text: an early end of file is no failure
};
static ref::DB seq(const Ty& t, int n, int mul = 3, int add = 0) { ref::DB d; for (int i = 0; i != n; ++i) d.push_back(mk(t, (unsigned)(i * mul + add), (i * 7919) % 1009 + 1)); return d; }
static std::vector<std::string> cat(std::vector<std::string> a, const std::vector<std::string>& b) { for (auto& x: b) a.push_back(x); return a; }
static ref::DB top(ref::DB d, std::size_t n) {
  std::stable_sort(d.begin(), d.end(), [](auto& a, auto& b) { return a.c != b.c ? a.c > b.c : ref::byhash(a, b); });
  d.resize(n); std::sort(d.begin(), d.end(), ref::byhash); return d;
}

static const std::vector<Job>& jobs() {
  static std::vector<Job> v;
  if (!v.empty()) return v;
  for (const Ty* tp: {&SHA, &NT}) for (int n: {5, 2500}) {
    const Ty& t = *tp; std::string sz = std::string(t.name) + (n == 5 ? "-small" : "-large");
    auto d = seq(t, n); auto b = ref::bin(d), x = ref::text(d);
    v.push_back({"convert-tb-" + sz, cat({"hibp-convert", "--txt-to-bin", "-i", "i", "-o", "o"}, t.opt), {{"i", x}}, "", 0, b, true});
    v.push_back({"convert-tb-stdin-stdout-" + sz, cat({"hibp-convert", "--txt-to-bin", "--stdin", "--stdout"}, t.opt), {}, x, 1, b, true});
    v.push_back({"convert-bt-" + sz, cat({"hibp-convert", "--bin-to-txt", "-i", "i", "-o", "o"}, t.opt), {{"i", b}}, "", 0, x});
    v.push_back({"convert-bt-stdout-" + sz, cat({"hibp-convert", "--bin-to-txt", "-i", "i", "--stdout"}, t.opt), {{"i", b}}, "", 1, x});
    if (n == 5) {
      v.push_back({"convert-tb-stdin-" + sz, cat({"hibp-convert", "--txt-to-bin", "--stdin", "-o", "o"}, t.opt), {}, x, 0, b, true});
      v.push_back({"convert-tb-stdout-" + sz, cat({"hibp-convert", "--txt-to-bin", "-i", "i", "--stdout"}, t.opt), {{"i", x}}, "", 1, b, true});
      v.push_back({"convert-tb-limit-" + sz, cat({"hibp-convert", "--txt-to-bin", "-i", "i", "-o", "o", "--limit", "3"}, t.opt), {{"i", x}}, "", 0, ref::bin(ref::DB(d.begin(), d.begin() + 3)), true});
      v.push_back({"convert-bt-limit-" + sz, cat({"hibp-convert", "--bin-to-txt", "-i", "i", "-o", "o", "--limit", "3"}, t.opt), {{"i", b}}, "", 0, ref::text(ref::DB(d.begin(), d.begin() + 3))});
    }
    // diff: every third record changed, every fifth inserted
    ref::DB o, nw; std::string hunks;
    for (int i = 0; i != n; ++i) { auto r = d[(std::size_t)i]; char h[32];
      if (i % 5 == 4) { std::snprintf(h, sizeof h, "I:%08zX:", o.size()); hunks += h + ref::text(r) + "\n"; nw.push_back(r); continue; }
      o.push_back(r); if (i % 3 == 0) { r.c++; std::snprintf(h, sizeof h, "U:%08zX:", o.size() - 1); hunks += h + ref::text(r) + "\n"; } nw.push_back(r); }
    v.push_back({"diff-" + sz, cat({"hibp-diff", "old", "new"}, t.opt), {{"old", ref::bin(o)}, {"new", ref::bin(nw)}}, "", 1, hunks});
    ref::DB dd; for (int i = 0; i != n; ++i) dd.push_back(mk(t, (unsigned)(i / 2), i)); // every second one is a duplicate
    v.push_back({"dupes-" + sz, cat({"hibp-dupes", "db"}, t.opt), {{"db", ref::bin(dd)}}, "", 1, ""});
    ref::DB sh; for (int i = 0; i != n; ++i) sh.push_back(d[(std::size_t)((i * 1237 + 11) % n)]);
    v.push_back({"sort-" + sz, cat({"hibp-sort", "--input", "db"}, t.opt), {{"db", ref::bin(sh)}}, "", 2, b});
    if (n == 5) v.push_back({"sort-chunks-" + sz, cat({"hibp-sort", "--input", "db", "--max-memory", "0"}, t.opt), {{"db", ref::bin(sh)}}, "", 2, b});
  }
  for (const Ty* tp: {&SHA, &NT, &T64}) for (int n: {5, 3500}) {
    const Ty& t = *tp; std::string sz = std::string(t.name) + (n == 5 ? "-small" : "-large");
    auto d = seq(t, n); std::size_t N = n == 5 ? 3 : 2300;
    v.push_back({"topn-" + sz, cat({"hibp-topn", "db", "-o", "o", "-N", std::to_string(N)}, t.opt), {{"db", ref::bin(d)}}, "", 0, ref::bin(top(d, N))});
    v.push_back({"topn-stdout-" + sz, cat({"hibp-topn", "db", "--stdout", "-N", std::to_string(N)}, t.opt), {{"db", ref::bin(d)}}, "", 1, ref::bin(top(d, N))});
  }
  for (auto& j: v) if (j.expect.empty()) { // hibp-dupes: its report in the words of the fault-free run (its content is C23's business)
    for (auto& [n, b]: j.files) put(n, b);
    Run r; r.argv = j.argv; run_checked(r); j.expect = r.out; clean();
    if (!r.ok() || r.out.empty()) v.clear(), j.name = "";
    if (v.empty()) throw Violation{"clean-run", "hibp-dupes fails without any fault: " + tail(r)};
  }
  return v;
}
static std::string sorted_name(const Run& r) { auto p = r.err.rfind("written to "); if (p == std::string::npos) return ""; auto s = r.err.substr(p + 11); return s.substr(0, s.find('\n')); }
static std::string output(const Job& j, const Run& r) { return j.out == 0 ? slurp("o") : j.out == 1 ? r.out : slurp(sorted_name(r)); }
static void setup(const Job& j, Run& r) { clean(); for (auto& [n, b]: j.files) put(n, b); r.argv = j.argv; r.in = j.in; }
static void inputs_same(Ctx& c, const Job& j, const std::string& what) { for (auto& [n, b]: j.files) if (slurp(n) != b) c.fail("input", what + ": the input " + n + " was changed"); }

// success only with the complete output; otherwise an exit with a failure status
static void judge(Ctx& c, const Job& j, Run& r, const std::string& what, bool complete = true) {
  if (r.ok()) { std::string o = output(j, r);
    if (complete && o != j.expect) { Run q = r; if (j.out == 1) q.out = "(" + std::to_string(o.size()) + " bytes)"; c.fail("false-success", j.name + ", " + what + ": success with " + std::to_string(o.size()) + " bytes of output, complete would be " + std::to_string(j.expect.size()) + (o.size() == j.expect.size() ? " (content differs)" : "") + tail(q)); } }
  else if (!r.failed()) c.fail("abnormal-end", j.name + ", " + what + ": no regular failure" + tail(r));
  inputs_same(c, j, what);
}
static int faulted = counter("faulted_runs"), nofault = counter("fault_points"), okruns = counter("successes_among_faulted_runs");

static const Job& pick_job(Ctx& c) { auto& v = jobs(); return v[(std::size_t)c.choose((int)v.size())]; }

// ------------------------------------------------------------------ C07
static void wr_limit(Ctx& c) { // the output medium takes L bytes and no more
  const Job& j = pick_job(c); std::size_t full = j.expect.size();
  std::vector<std::size_t> L;
  if (full <= 700) for (std::size_t i = 0; i <= full; ++i) L.push_back(i);
  else { for (std::size_t i = 0; i < full; i += c.thorough ? 67 : 1999) L.push_back(i);
    for (std::size_t u: {(std::size_t)1, (std::size_t)4096, (std::size_t)8191, (std::size_t)8192, (std::size_t)16384, (std::size_t)24000, (std::size_t)20000, (std::size_t)48000, (std::size_t)40000, full}) for (int dd = -1; dd <= 1; ++dd) if (u + (std::size_t)dd <= full) L.push_back(u + (std::size_t)dd); }
  std::size_t l = L[(std::size_t)c.choose((int)L.size())];
  Run r; setup(j, r); r.fsize = (int64_t)l; run_checked(r);
  judge(c, j, r, "no more than " + std::to_string(l) + " bytes can be written");
  if (l >= full && j.out != 2 && !r.ok()) c.fail("spurious", j.name + ": fails although everything fits" + tail(r));
  c.count(faulted); if (r.ok()) c.count(okruns); c.nontrivial(fnv(j.name, l)); c.sample(j.name + ", limit " + std::to_string(l) + " of " + std::to_string(full) + ": " + r.how());
}
static void wr_call(Ctx& c) { // the k-th changing system call fails, once
  const Job& j = pick_job(c); static const int E[] = {ENOSPC, EIO}; int e = E[c.choose(2)];
  Run r0; setup(j, r0); r0.shim = true; r0.ctl.mut_skip = 1 << 2; run_checked(r0);
  if (!r0.ok() || output(j, r0) != j.expect) c.fail("clean-run", j.name + ": wrong without any fault" + tail(r0));
  int64_t n = r0.ctl.muts; c.count(nofault, (uint64_t)n);
  if (n < 1) { std::fprintf(stderr, "harness: %s makes no visible writes\n", j.name.c_str()); _exit(97); }
  for (int64_t k = 1; k <= n; ++k) {
    Run r; setup(j, r); r.shim = true; r.ctl.mut_skip = 1 << 2; r.ctl.fail_mut_at = k; r.ctl.fail_mut_errno = e; run_checked(r);
    judge(c, j, r, "changing call " + std::to_string(k) + " of " + std::to_string(n) + " fails with " + strerror(e));
    c.count(faulted); if (r.ok()) c.count(okruns); c.nontrivial(fnv(j.name, (uint64_t)k * 256 + (uint64_t)e));
  }
  c.evals((uint64_t)n + 1, 0); c.sample(j.name + ": each of " + std::to_string(n) + " calls fails once with " + strerror(e));
}
static void wr_stdout(Ctx& c) { // nobody takes standard output
  const Job& j = pick_job(c); int m = 1 + c.choose(3);
  if (j.out != 1) throw Infeasible{};
  Run r; setup(j, r); r.out_mode = m; run_checked(r);
  bool fails = r.failed() || (m == 2 && r.signaled && r.status == SIGPIPE);
  if (!fails) c.fail("false-success", j.name + ", standard output " + (m == 3 ? "closed" : "is a broken pipe") + ": " + tail(r));
  c.nontrivial(fnv(j.name, (uint64_t)m)); c.sample(j.name + (m == 3 ? " with standard output closed" : " into a broken pipe") + ": " + r.how());
}
static void wr_answer(Ctx& c) { // hibp-search: its answer is its output
  const Ty& t = *std::vector<const Ty*>{&SHA, &NT, &T64}[(std::size_t)c.choose(3)]; int ask = c.choose(3), toc = c.choose(3), fault = c.choose(5);
  ref::DB d; for (int i = 0; i != 5; ++i) { ref::R r; r.h.assign(t.hs, '\x11'); r.h[0] = '\0'; r.h[1] = (char)(2 * i); r.c = i + 1; d.push_back(r); } if (ask == 2 && !toc) { std::string pw = "secret"; ref::R r; r.h = t.hs == 16 ? ref::ntlm(pw) : ref::sha1(pw).substr(0, t.hs); r.c = 4; d.push_back(r); std::sort(d.begin(), d.end(), ref::byhash); }
  std::vector<std::string> a{"hibp-search", "db"}; if (ask == 2) a.push_back("secret"); else { a.push_back(ref::hexup(ask ? std::string(t.hs, '\xfe') : d[3].h)); a.push_back("--hash"); }
  if (toc) for (auto x: {"--toc", "--toc-bits", "15"}) a.push_back(x);
  Job j; j.name = std::string("search-") + t.name + (ask == 2 ? ", a password" : ask ? ", a hash that is not there" : ", a hash") + (toc == 0 ? "" : toc == 1 ? ", table to be made" : ", table there"); j.argv = cat(a, t.opt); j.files = {{"db", ref::bin(d)}};
  auto answer = [](const std::string& o) { auto p = o.find("not found\n"); if (p != std::string::npos) return o.substr(p); p = o.find("found  = "); return p == std::string::npos || o.back() != '\n' ? std::string() : o.substr(p); };
  auto prep = [&](Run& r) { setup(j, r); if (toc == 2) { Run q; q.argv = r.argv; run_checked(q); struct timespec old[2] = {{1000, 0}, {1000, 0}}; utimensat(AT_FDCWD, "db", old, 0); } };
  Run r0; prep(r0); r0.shim = true; r0.ctl.mut_skip = 1 << 2; run_checked(r0); std::string want = answer(r0.out); if (!r0.ok() || want.empty()) c.fail("clean-run", j.name + ": no answer without any fault" + tail(r0));
  auto see = [&](Run& r, const std::string& what, bool taken) {
    if (r.ok() && (!taken || answer(r.out) != want)) c.fail("false-success", j.name + ", " + what + ": success, but the answer was not written" + tail(r));
    if (!r.ok() && !r.failed() && !(r.signaled && r.status == SIGPIPE)) c.fail("abnormal-end", j.name + ", " + what + ": no regular failure" + tail(r)); inputs_same(c, j, what); c.count(faulted); if (r.ok()) c.count(okruns); c.nontrivial(fnv(j.name + what)); };
  if (fault < 3) { Run r; prep(r); r.out_mode = fault + 1; run_checked(r); see(r, "standard output not taken (" + std::to_string(fault + 1) + ")", false); c.sample(j.name + ", standard output not taken: " + r.how()); return; }
  int64_t n = r0.ctl.muts; int e = fault == 3 ? ENOSPC : EIO; c.count(nofault, (uint64_t)n);
  for (int64_t k = 1; k <= n; ++k) { Run r; prep(r); r.shim = true; r.ctl.mut_skip = 1 << 2; r.ctl.fail_mut_at = k; r.ctl.fail_mut_errno = e; run_checked(r); see(r, "changing call " + std::to_string(k) + " of " + std::to_string(n) + " fails with " + strerror(e), true); }
  c.evals((uint64_t)n + 1, 0); c.sample(j.name + ": each of " + std::to_string(n) + " calls fails once with " + strerror(e));
}
static Reg w4({.prop = "C07", .name = "answer", .body = wr_answer});
static Reg w1({.prop = "C07", .name = "space", .body = wr_limit}); static Reg w2({.prop = "C07", .name = "call", .body = wr_call}); static Reg w3({.prop = "C07", .name = "stdout", .body = wr_stdout});

// ------------------------------------------------------------------ C24: tools that read a file from start to end
static void rd_fault(Ctx& c) {
  const Job& j = pick_job(c); int kind = c.choose(4); // EIO once, EIO from then on, early end of file (databases), failing seek
  static const char* KN[] = {"fails once", "and all later ones fail", "finds the end of the file", "(a seek) fails"};
  if (kind == 2 && j.text_in) throw Infeasible{};
  auto arm = [&](Run& r) { setup(j, r); r.shim = true; r.ctl.read_stdin = !j.in.empty(); };
  Run r0; arm(r0); run_checked(r0);
  if (!r0.ok() || output(j, r0) != j.expect) c.fail("clean-run", j.name + ": wrong without any fault" + tail(r0));
  int64_t n = kind == 3 ? r0.ctl.seeks : r0.ctl.reads;
  if (kind != 3 && n < 1) { std::fprintf(stderr, "harness: %s makes no visible reads\n", j.name.c_str()); _exit(97); }
  c.count(nofault, (uint64_t)n);
  for (int64_t k = 1; k <= n; ++k) {
    Run r; arm(r);
    if (kind == 3) r.ctl.fail_seek_at = k; else { r.ctl.fail_read_at = k; r.ctl.fail_errno = kind == 2 ? 0 : EIO; r.ctl.fail_sticky = kind == 1; }
    run_checked(r);
    judge(c, j, r, "read " + std::to_string(k) + " of " + std::to_string(n) + " " + KN[kind]);
    c.count(faulted); if (r.ok()) c.count(okruns); c.nontrivial(fnv(j.name, (uint64_t)k * 4 + (uint64_t)kind));
  }
  c.evals((uint64_t)n + 1, 0); c.sample(j.name + ": each of " + std::to_string(n) + " reads " + KN[kind]);
}
static void rd_short(Ctx& c) { // reads return less than asked for: no difference
  const Job& j = pick_job(c); static const int MX[] = {0, 1, 3, 24, 1000, 4095}; int m = MX[c.choose(6)];
  bool large = j.name.find("large") != std::string::npos; if (m == 1 && large) m = 7;
  auto arm = [&](Run& r) { setup(j, r); r.shim = true; r.ctl.read_stdin = !j.in.empty(); };
  if (m) { Run r; arm(r); r.ctl.max_read = m; run_checked(r);
    if (!r.ok() || output(j, r) != j.expect) { if (j.out == 1) r.out = "..."; c.fail("short-read", j.name + ": wrong or failing when no read returns more than " + std::to_string(m) + " bytes" + tail(r)); }
    inputs_same(c, j, "short reads"); c.nontrivial(fnv(j.name, (uint64_t)m)); c.sample(j.name + ", reads of at most " + std::to_string(m) + " bytes"); return; }
  Run r0; arm(r0); run_checked(r0); int64_t n = r0.ctl.reads;
  for (int64_t k = 1; k <= n; ++k) { Run r; arm(r); r.ctl.short_at = k; run_checked(r);
    if (!r.ok() || output(j, r) != j.expect) { if (j.out == 1) r.out = "..."; c.fail("short-read", j.name + ": wrong or failing when read " + std::to_string(k) + " returns one byte" + tail(r)); }
    c.nontrivial(fnv(j.name, (uint64_t)k * 8 + 7)); }
  c.evals((uint64_t)n, 0);
}
// hibp-search, with and without a table of contents (built, loaded)
static std::string answer(const Run& r) {
  std::string a; std::istringstream is(r.out); std::string l;
  while (std::getline(is, l)) if (l.rfind("found", 0) == 0 || l == "not found") a += l + "\n";
  return a;
}
template <const Ty& t> void rd_search(Ctx& c) {
  int n = c.choose(2) ? 700 : 5; int mode = c.choose(3); int kind = c.choose(4); // plain, building a table, loading one
  static const char* KN[] = {"fails once", "and all later ones fail", "finds the end of the file", "(a seek) fails"};
  ref::DB d; for (int i = 0; i != n; ++i) { ref::R r; r.h.assign(t.hs, '\0'); r.h[1] = (char)(i / 8 * 2); r.h[2] = (char)(i % 8 * 16 + 1); r.c = i + 1; d.push_back(r); } // 15 bits: prefix i/8
  int which = c.choose(5); ref::R nd = which == 0 ? d[0] : which == 1 ? d[(std::size_t)n / 2] : which == 2 ? d.back() : d[(std::size_t)n / 2]; bool hit = which < 3;
  if (which == 3) nd.h[t.hs - 1]++; if (which == 4) nd.h.assign(t.hs, '\xff');
  std::string want = hit ? "found  = " + ref::text(nd) + "\n" : "not found\n";
  auto base = [&](Run& r) { r.argv = cat({"hibp-search", "db", ref::hexup(nd.h), "--hash"}, t.opt); if (mode) { r.argv.push_back("--toc"); r.argv.push_back("--toc-bits=15"); } };
  auto prep = [&] { clean(); put("db", ref::bin(d)); struct timespec ts[2] = {{1000000000, 0}, {1000000000, 0}}; utimensat(AT_FDCWD, "db", ts, 0);
    if (mode == 2) { Run r; base(r); run_checked(r); } };
  Run r0; prep(); base(r0); r0.shim = true; run_checked(r0);
  std::string what = std::string(t.name) + " " + std::to_string(n) + " records, " + (mode == 0 ? "plain" : mode == 1 ? "building a table" : "stored table") + ", needle " + ref::hexup(nd.h);
  if (!r0.ok() || answer(r0) != want) c.fail("clean-run", what + ": wrong without any fault" + tail(r0));
  int64_t m = kind == 3 ? r0.ctl.seeks : r0.ctl.reads; c.count(nofault, (uint64_t)m);
  for (int64_t k = 1; k <= m; ++k) {
    Run r; prep(); base(r); r.shim = true;
    if (kind == 3) r.ctl.fail_seek_at = k; else { r.ctl.fail_read_at = k; r.ctl.fail_errno = kind == 2 ? 0 : EIO; r.ctl.fail_sticky = kind == 1; }
    run_checked(r); std::string w2 = what + ", read " + std::to_string(k) + " of " + std::to_string(m) + " " + KN[kind];
    if (r.ok() && answer(r) != want) c.fail("wrong-answer", w2 + ": expected " + want + tail(r));
    if (!r.ok() && !r.failed()) c.fail("abnormal-end", w2 + tail(r));
    if (!r.ok() && answer(r).find("not found") != std::string::npos) c.fail("wrong-answer", w2 + ": says not found, then fails" + tail(r));
    c.count(faulted); if (r.ok()) c.count(okruns);
    if (mode) { Run s; base(s); run_checked(s); if (!s.ok() || answer(s) != want) c.fail("later", w2 + "; the next search, without any fault, expected " + want + tail(s)); }
    c.nontrivial(fnv(what, (uint64_t)k * 4 + (uint64_t)kind));
  }
  if (kind == 0) for (int mx: {1, 5, 100}) { Run r; prep(); base(r); r.shim = true; r.ctl.max_read = mx; run_checked(r); if (!r.ok() || answer(r) != want) c.fail("short-read", what + ": reads of at most " + std::to_string(mx) + " bytes" + tail(r)); }
  c.evals((uint64_t)m + 1, 0); c.sample(what + ": each of " + std::to_string(m) + " reads " + KN[kind]);
}
static Reg r1({.prop = "C24", .name = "tools-fault", .body = rd_fault}); static Reg r2({.prop = "C24", .name = "tools-short", .body = rd_short});
static Reg r3({.prop = "C24", .name = "search-sha1", .body = rd_search<SHA>}); static Reg r4({.prop = "C24", .name = "search-ntlm", .body = rd_search<NT>}); static Reg r5({.prop = "C24", .name = "search-sha1t64", .body = rd_search<T64>});

// ------------------------------------------------------------------ C08
// state of the output file before: absent, a file, an empty file, a link to a file, the input itself, a hard and a symbolic link to the input
enum { ABSENT, FILE_, EMPTY_, LINK, SAME, HARD, SYM, NSTATE };
static const char* SN[] = {"absent", "an existing file", "an existing empty file", "a link to an existing file", "the input", "a hard link to the input", "a symbolic link to the input"};
static const std::string OLD = "precious old content\n";
static std::string make_out(int st, const std::string& in) {
  if (st == SAME) return in;
  if (st == FILE_) put("o", OLD); if (st == EMPTY_) put("o", ""); if (st == LINK) { put("other", OLD); if (symlink("other", "o")) {} }
  if (st == HARD) { if (link(in.c_str(), "o")) {} } if (st == SYM) { if (symlink(in.c_str(), "o")) {} }
  return "o";
}
static std::map<std::string, std::string> snap() { std::map<std::string, std::string> m; for (auto& n: ls()) m[n] = slurp(n); return m; }
static void unchanged(Ctx& c, const std::map<std::string, std::string>& before, const std::string& what, const Run& r) {
  for (auto& [n, b]: before) if (!exists(n) || slurp(n) != b) c.fail("changed", what + ": " + n + " was changed" + tail(r));
}
static void opt_convert(Ctx& c) {
  int f = c.choose(256), st = c.choose(NSTATE); bool tb = f & 1, bt = f & 2, in = f & 4, si = f & 8, o = f & 16, so = f & 32, fo = f & 64, nt = f & 128;
  int lim = c.choose(2);
  if (!o && st != ABSENT && st != FILE_) throw Infeasible{};
  const Ty& t = nt ? NT : SHA; auto d = seq(t, 4); clean();
  std::string I = bt && !tb ? ref::bin(d) : ref::text(d); put("i", I);
  std::string on = make_out(st, "i"); if (st == ABSENT) on = "o";
  Run r; r.argv = {"hibp-convert"};
  if (tb) r.argv.push_back("--txt-to-bin"); if (bt) r.argv.push_back("--bin-to-txt"); if (in) r.argv.insert(r.argv.end(), {"-i", "i"}); if (si) { r.argv.push_back("--stdin"); r.in = I; }
  if (o) r.argv.insert(r.argv.end(), {"-o", on}); if (so) r.argv.push_back("--stdout"); if (fo) r.argv.push_back("--force"); if (nt) r.argv.push_back("--ntlm"); if (lim) r.argv.insert(r.argv.end(), {"--limit", "2"});
  auto before = snap(); run_checked(r); std::string what = r.cmd() + " (output: " + SN[st] + ")";
  bool valid = tb != bt && in != si && !(bt && si) && o != so;
  bool reads_file = in, clash = o && reads_file && st >= SAME, exist = o && st != ABSENT && !fo;
  if (!valid || exist || clash) { if (!r.failed()) c.fail("accepted", what + ": is not refused" + tail(r)); unchanged(c, before, what, r); }
  else { if (lim) d.resize(2); std::string want = tb ? ref::bin(d) : ref::text(d), got = so ? r.out : slurp(on);
    if (!r.ok() || got != want) c.fail("refused", what + ": does not work" + tail(r));
    if (reads_file && slurp("i") != I) c.fail("input", what + ": the input was changed"); }
  c.nontrivial((uint64_t)f * 16 + (uint64_t)st * 2 + (uint64_t)lim); c.sample(what + ": " + r.how());
}
static void opt_topn(Ctx& c) {
  int f = c.choose(32), st = c.choose(NSTATE), N = c.choose(4); bool o = f & 1, so = f & 2, fo = f & 4, nt = f & 8, s64 = f & 16;
  if (!o && st != ABSENT && st != FILE_) throw Infeasible{};
  const Ty& t = nt ? NT : s64 ? T64 : SHA; auto d = seq(t, 4); clean(); std::string I = ref::bin(d); put("i", I);
  std::string on = make_out(st, "i"); if (st == ABSENT) on = "o"; static const int NN[] = {2, 0, 4, 5};
  Run r; r.argv = {"hibp-topn", "i", "-N", std::to_string(NN[N])};
  if (o) r.argv.insert(r.argv.end(), {"-o", on}); if (so) r.argv.push_back("--stdout"); if (fo) r.argv.push_back("-f"); if (nt) r.argv.push_back("--ntlm"); if (s64) r.argv.push_back("--sha1t64");
  auto before = snap(); run_checked(r); std::string what = r.cmd() + " (output: " + SN[st] + ")";
  bool valid = o != so && !(nt && s64), clash = o && st >= SAME, exist = o && st != ABSENT && !fo;
  if (!valid || exist || clash) { if (!r.failed()) c.fail("accepted", what + ": is not refused" + tail(r)); unchanged(c, before, what, r); }
  else if (N >= 2) { if (!r.failed()) c.fail("accepted", what + ": N is not smaller than the database, but accepted" + tail(r)); if (slurp("i") != I) c.fail("input", what + ": the input was changed"); }
  else { std::string got = so ? r.out : slurp(on); if (!r.ok() || got != ref::bin(top(d, (std::size_t)NN[N]))) { r.out = "..."; c.fail("refused", what + ": does not work" + tail(r)); } if (slurp("i") != I) c.fail("input", what + ": the input was changed"); }
  c.nontrivial((uint64_t)f * 64 + (uint64_t)st * 8 + (uint64_t)N); c.sample(what + ": " + r.how());
}
// every tool leaves its inputs alone: content, size, times, mode - also when it fails on them
static void inputs_kept(Ctx& c) {
  static const std::vector<std::vector<std::string>> A = {
    {"hibp-sort", "--input", "db"}, {"hibp-sort", "--input", "db", "--sort-by-count"}, {"hibp-sort", "--input", "db", "--max-memory", "0"}, {"hibp-diff", "db", "db2"}, {"hibp-diff", "db", "db"}, {"hibp-dupes", "db"}, {"hibp-dupes", "db", "--bits", "32"},
    {"hibp-search", "db", "password"}, {"hibp-search", "db", "password", "--toc"}, {"hibp-search", "db", "0000000000000000000000000000000000000000", "--hash", "--toc", "--toc-bits", "15"},
    {"hibp-topn", "db", "-o", "o", "-N", "2"}, {"hibp-topn", "db", "-o", "o", "-N", "99"}, {"hibp-convert", "--bin-to-txt", "-i", "db", "-o", "o"}, {"hibp-convert", "--txt-to-bin", "-i", "db", "-o", "o"}, {"hibp-convert", "--bin-to-txt", "-i", "db", "--stdout"}};
  auto& a = A[(std::size_t)c.choose((int)A.size())]; int content = c.choose(7); int opt = c.choose(3); int ro = c.choose(2);
  const Ty& t = opt == 1 ? NT : opt == 2 ? T64 : SHA; ref::DB d = content == 0 ? ref::DB{} : content == 1 ? seq(t, 1) : seq(t, 6); std::string I = ref::bin(d);
  if (content == 3) I.pop_back(); if (content == 4) I += "x"; if (content == 5) { d[2] = d[1]; d[4].h[0] = '\xff'; I = ref::bin(d); } if (content == 6) { std::reverse(d.begin(), d.end()); I = ref::bin(d); }
  clean(); put("db", I); put("db2", ref::bin(seq(t, 8))); chmod("db", ro ? 0400 : 0640); struct timespec ts[2] = {{1000000000, 5}, {1000000000, 7}}; utimensat(AT_FDCWD, "db", ts, 0);
  struct stat s0, s1; stat("db", &s0); Run r = tool(a, t.opt); if (opt == 2 && a[0] != "hibp-search" && a[0] != "hibp-topn") throw Infeasible{};
  run_checked(r); std::string what = r.cmd() + ", input kind " + std::to_string(content);
  if (!exists("db") || slurp("db") != I) c.fail("input", what + ": the input was changed" + tail(r));
  stat("db", &s1); if (s0.st_mtim.tv_sec != s1.st_mtim.tv_sec || s0.st_mtim.tv_nsec != s1.st_mtim.tv_nsec || s0.st_mode != s1.st_mode || s0.st_ino != s1.st_ino) c.fail("input", what + ": the input was replaced or touched" + tail(r));
  if (slurp("db2") != ref::bin(seq(t, 8))) c.fail("input", what + ": the second input was changed" + tail(r));
  if (r.timed_out) c.fail("hang", what + tail(r));
  c.nontrivial(fnv(what)); c.sample(what + ": " + r.how());
}
static Reg o1({.prop = "C08", .name = "convert", .body = opt_convert}); static Reg o2({.prop = "C08", .name = "topn", .body = opt_topn}); static Reg o3({.prop = "C08", .name = "inputs", .body = inputs_kept});
// ------------------------------------------------------------------ C26: databases that are missing or not a whole number of records
static const std::vector<Job>& dbjobs() { // every tool on every type it takes; the database(s) under test: "db", "db2"
  static std::vector<Job> v; if (!v.empty()) return v;
  auto add = [&](const Ty& t, const std::string& n, std::vector<std::string> a, bool two = false) { std::map<std::string, std::string> f{{"db", ""}}; if (two) f["db2"] = ""; v.push_back({n + "-" + t.name, cat(std::move(a), t.opt), f, "", 1, t.name}); };
  for (const Ty* tp: {&SHA, &NT}) { const Ty& t = *tp;
    add(t, "convert", {"hibp-convert", "--bin-to-txt", "-i", "db", "-o", "o"}); add(t, "convert-stdout", {"hibp-convert", "--bin-to-txt", "-i", "db", "--stdout"}); add(t, "convert-limit", {"hibp-convert", "--bin-to-txt", "-i", "db", "--stdout", "--limit", "1"});
    add(t, "sort", {"hibp-sort", "--input", "db"}); add(t, "sort-count", {"hibp-sort", "--input", "db", "--sort-by-count"}); add(t, "sort-chunks", {"hibp-sort", "--input", "db", "--max-memory", "0"});
    add(t, "dupes", {"hibp-dupes", "db"}); add(t, "diff", {"hibp-diff", "db", "db2"}, true); }
  for (const Ty* tp: {&SHA, &NT, &T64}) { const Ty& t = *tp;
    add(t, "topn", {"hibp-topn", "db", "-o", "o", "-N", "1"}); add(t, "topn-stdout", {"hibp-topn", "db", "--stdout", "-N", "0"});
    for (int k = 0; k != 3; ++k) { auto h = ref::hexup(mk(t, k == 0 ? 0 : k == 1 ? 3 : 0xFFFF, 0).h);
      add(t, "search-" + std::to_string(k), {"hibp-search", "db", h, "--hash"}); add(t, "search-toc-" + std::to_string(k), {"hibp-search", "db", h, "--hash", "--toc", "--toc-bits=15"}); }
    Ty s = t; s.opt.clear(); for (int tc = 0; tc != 2; ++tc) { std::vector<std::string> a{"hibp-server", "--" + std::string(t.name) + "-db", "db", "--port", "0", "--threads", "1"}; if (tc) { a.push_back("--toc"); a.push_back("--toc-bits=15"); }
      auto n = std::string(tc ? "server-toc" : "server"); add(s, n, a); } }
  return v;
}
static void torn_db(Ctx& c) {
  auto& J = dbjobs(); const Job& j = J[(std::size_t)c.choose((int)J.size())]; const Ty& t = j.expect == "sha1" ? SHA : j.expect == "ntlm" ? NT : T64; std::size_t rs = t.hs + 4;
  bool two = j.files.size() == 2; int kind = c.choose(6); if (kind == 4 && !two) throw Infeasible{}; // small, around the read buffers, missing, unreadable (a directory); the second one torn; more than 2^32 bytes
  ref::DB d = seq(t, kind == 1 ? 6000 : 6); std::string full = ref::bin(d); uint64_t ev = 0;
  std::vector<std::size_t> L;
  if (kind == 0 || kind == 4) { for (std::size_t l = 1; l < full.size(); ++l) if (l % rs) L.push_back(l); }
  else if (kind == 1) { for (std::size_t b: {(std::size_t)4096, (std::size_t)65536, (std::size_t)24000, (std::size_t)6000 * rs, (4096 / rs) * rs, (65536 / rs) * rs}) for (int dd: {-3, -2, -1, 1, 2, 3}) { std::size_t l = b + (std::size_t)(long)dd; if (l < full.size() && l % rs) L.push_back(l); } }
  else if (kind == 5) { for (int sh: {31, 32, 33, 35}) for (uint64_t k: {(uint64_t)0, (uint64_t)(sh < 32 ? 0 : 6 * rs), (uint64_t)1, (uint64_t)rs + 3}) { uint64_t l = (1ULL << sh) + k; if (l % rs) L.push_back(l); } } // 2^32 + 6 records: whole records to 32-bit arithmetic
  else L.push_back(0);
  for (std::size_t l: L) {
    clean(); if (kind == 5) { int fd = open("db", O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); bool ok = fd >= 0 && ftruncate(fd, (off_t)l) == 0; close(fd); if (!ok) throw Infeasible{}; } else if (kind == 3) mkdir("db", 0777); else if (kind != 2) put("db", kind == 4 ? full : full.substr(0, l));
    if (two) put("db2", kind == 5 ? full : kind == 4 ? full.substr(0, l) : kind < 2 ? full.substr(0, l / rs * rs) : full);
    auto before = ls(); Run r; r.argv = j.argv; r.timeout_s = 5; run_checked(r);
    std::string what = j.name + ", " + (kind == 2 ? "no such database" : kind == 3 ? "a directory instead of a database" : (kind == 4 ? "second database: " : "") + std::to_string(l) + " bytes (records of " + std::to_string(rs) + ")");
    if (!r.failed()) { if (r.out.size() > 400) r.out.resize(400); c.fail("accepted", what + ": not refused" + tail(r)); }
    if (answer(r).size()) c.fail("answer", what + ": an answer is given" + tail(r));
    std::string out = r.argv[0] == "hibp-diff" || r.argv[0] == "hibp-convert" || r.argv[0] == "hibp-topn" ? r.out : ""; if (exists("o")) out += slurp("o");
    if (!out.empty() && !(kind == 4)) c.fail("output", what + ": records are put out: " + std::to_string(out.size()) + " bytes" + tail(r));
    if (kind == 5) { struct stat s; if (stat("db", &s) || (uint64_t)s.st_size != l || s.st_blocks > 64) c.fail("changed", what + ": the database was changed" + tail(r)); }
    if (kind == 0 || kind == 1) if (slurp("db") != full.substr(0, l)) c.fail("changed", what + ": the database was changed" + tail(r));
    for (auto& n: ls()) if (std::find(before.begin(), before.end(), n) == before.end() && n != "o") c.fail("left", what + ": " + n + " was made from it" + tail(r));
    ++ev; c.nontrivial(fnv(what)); if (kind == 3) rmdir("db");
  }
  c.evals(ev, 0); c.sample(j.name + (kind == 2 ? ": missing" : kind == 3 ? ": a directory" : ": " + std::to_string(L.size()) + " sizes that are no whole number of records"));
}
static Reg t1({.prop = "C26", .name = "torn", .body = torn_db});
int main(int argc, char** argv) { return main_(argc, argv); }
