// hibp-download: its real code under every network behaviour, interleaving and interruption within bounds.
#include "dnl/prog.hpp"
#include "dnl/real.hpp"
#include <curl/curl.h>

static std::string kinds(const Fmt& f, std::size_t n, std::size_t p) { return std::string(f.name) + ", " + std::to_string(n) + " ranges, " + std::to_string(p) + " parallel"; }
static const std::vector<std::vector<std::string>> MODES{{"--no-progress"}, {"--debug"}, {"--progress"}};
static const char* MODEN[] = {"quiet", "debug", "progress"};

// ------------------------------------------------------------------ C01
static void order(Ctx& c) { // every completion order and batching
  std::size_t n = c.thorough ? 5 : 4; const Fmt& f = c.pick(FMTS); std::size_t par = (std::size_t)c.choose((int)n + 1) + 1;
  bool h2 = c.flag();
  Service sv; sv.n = [](std::size_t i) { return (unsigned)(1 + i % 3); }; sv.shape = [](std::size_t i) { return (int)(i % NSHAPES); };
  Prog p = download(sv, f, n, par); p.env.order = 1; p.env.batch = 1; p.env.h2 = h2; p.env.strict = c.thorough;
  clean(); c.what = kinds(f, n, par) + (h2 ? ", one connection" : ""); go(c, p); complete(c, p, sv.expect(f, 0, n));
  c.nontrivial(mix(fnv(c.what), p.log.iterations * 4096 + c.sh->npts)); c.evals(1, 1); c.sample(c.what + ": " + std::to_string(p.log.requests) + " requests, " + std::to_string(p.points) + " scheduling points");
}
static void events(Ctx& c) { // connection set-up steps and transfers in any order
  std::size_t n = c.thorough ? 4 : 3, par = 1 + (std::size_t)c.choose((int)n); bool h2 = c.flag();
  Service sv; Prog p = download(sv, F_SHA, n, par); p.env.order = 1; p.env.batch = 1; p.env.h2 = h2; p.env.free_events = true;
  clean(); c.what = kinds(F_SHA, n, par); go(c, p); complete(c, p, sv.expect(F_SHA, 0, n)); c.evals(1, 1); c.sample(c.what + " with set-up steps in any order");
}
static void pieces(Ctx& c) { // every cut of a body
  const Fmt& f = c.pick(FMTS); int sh = c.choose(NSHAPES); unsigned nl = (unsigned)c.choose(3) + 1;
  Service sv; sv.n = [=](std::size_t i) { return i == 1 ? nl : 2u; }; sv.shape = [=](std::size_t i) { return i == 1 ? sh : (int)LF; };
  std::string b = sv.raw(1, f.ntlm); int mode = c.choose(3); std::vector<std::size_t> cuts;
  if (mode == 0) { static const std::size_t Z[] = {1, 2, 3, 7, 41, 1000}; std::size_t z = Z[c.choose(6)]; for (std::size_t i = z; i < b.size(); i += z) cuts.push_back(i); }
  else { cuts.push_back((std::size_t)c.choose((int)b.size() + 1)); if (mode == 2) { if (!c.thorough && nl > 1) throw Infeasible{}; std::size_t k = (std::size_t)c.choose((int)b.size() + 1); if (k <= cuts[0]) throw Infeasible{}; cuts.push_back(k); } }
  Prog p = download(sv, f, 3, 3); auto base = p.env.outcome;
  p.env.outcome = [=](std::size_t i, int a, bool nt) { auto o = base(i, a, nt); if (i == 1) o.cuts = cuts; return o; };
  clean(); c.what = std::string(f.name) + ", " + SHAPES[sh] + ", cut at " + std::to_string(cuts.empty() ? 0 : cuts[0]) + " (" + std::to_string(cuts.size() + 1) + " pieces)";
  go(c, p); complete(c, p, sv.expect(f, 0, 3)); c.evals(1, 1); c.sample(c.what);
}
static void shapes(Ctx& c) { // every combination of body shapes over three ranges
  const Fmt& f = c.pick(FMTS); int s[3] = {c.choose(NSHAPES), c.choose(NSHAPES), c.choose(NSHAPES)}; unsigned nl = c.flag() ? 1 : 3;
  Service sv; sv.n = [=](std::size_t) { return nl; }; sv.shape = [=](std::size_t i) { return s[i % 3]; };
  Prog p = download(sv, f, 3, 2); clean(); c.what = std::string(f.name) + ", bodies: " + SHAPES[s[0]] + " | " + SHAPES[s[1]] + " | " + SHAPES[s[2]] + ", " + std::to_string(nl) + " lines";
  go(c, p); complete(c, p, sv.expect(f, 0, 3)); c.evals(1, 1); c.sample(c.what);
}
static void limits(Ctx& c) { // --limit and --parallel-max, larger and smaller than each other
  const Fmt& f = c.pick(FMTS); std::size_t n = 1 + (std::size_t)c.choose(20), par = 1 + (std::size_t)c.choose(24); bool h2 = c.flag(); int o = 2 * c.choose(2), bt = 2 * c.choose(2);
  Service sv; Prog p = download(sv, f, n, par); p.env.h2 = h2; p.env.order = o; p.env.batch = bt;
  clean(); c.what = kinds(f, n, par); go(c, p); complete(c, p, sv.expect(f, 0, n)); c.evals(1, 1); c.sample(c.what);
}
static void volume(Ctx& c) { // more records than the writer buffers, bodies of realistic length
  const Fmt& f = c.pick(FMTS); unsigned per = c.flag() ? 997 : 2500; std::size_t n = c.flag() ? 12 : 9;
  int o = c.choose(2) * 2; Service sv; sv.n = [=](std::size_t) { return per; };
  Prog p = download(sv, f, n, 5); p.env.order = o; clean(); c.what = kinds(f, n, 5) + ", " + std::to_string(per) + " lines each"; go(c, p); complete(c, p, sv.expect(f, 0, n)); c.evals(1, 1); c.sample(c.what);
}
static void big(Ctx& c) { // bodies far longer than today's, in pieces of the size the transfer library hands over
  const Fmt& f = c.pick(FMTS); static const unsigned PER[] = {1500, 6000, 30000, 60000}; unsigned per = PER[c.choose(c.thorough ? 4 : 3)]; int who = c.choose(3), sh = c.flag() ? CRNOEOL : LF; std::size_t piece = c.flag() ? 16384 : 0;
  Service sv; sv.n = [=](std::size_t i) { return (int)i == who || who == 2 ? per : 2u; }; sv.shape = [=](std::size_t) { return sh; }; Prog p = download(sv, f, 2, 2); auto base = p.env.outcome;
  p.env.outcome = [=](std::size_t i, int a, bool nt) { auto o = base(i, a, nt); if (piece) for (std::size_t k = piece; k < o.body.size(); k += piece) o.cuts.push_back(k); return o; };
  clean(); c.what = std::string(f.name) + ", " + std::to_string(per) + " lines in " + (who == 2 ? "both ranges" : "range " + std::to_string(who)) + (piece ? ", in pieces" : ""); go(c, p); complete(c, p, sv.expect(f, 0, 2)); c.evals(1, 1); c.sample(c.what);
}
static void sched1(Ctx& c) { // orders together with thread interleavings
  std::size_t n = 3, par = c.flag() ? 3 : 2; const Fmt& f = c.flag() ? F_TXT : F_SHA; Service sv; Prog p = download(sv, f, n, par); p.env.order = 1; p.env.batch = 1;
  clean(); c.what = kinds(f, n, par); go(c, p); complete(c, p, sv.expect(f, 0, n)); c.evals(1, 1); c.sample(c.what + ", " + std::to_string(p.preemptions) + " preemptions");
}
static Reg a1({.prop = "C01", .name = "order", .body = order}); static Reg a2({.prop = "C01", .name = "events", .body = events}); static Reg a3({.prop = "C01", .name = "pieces", .body = pieces});
static Reg a4({.prop = "C01", .name = "shapes", .body = shapes}); static Reg a5({.prop = "C01", .name = "limits", .body = limits}); static Reg a6({.prop = "C01", .name = "volume", .body = volume});
static Reg a8({.prop = "C01", .name = "big", .body = big});
static Reg a7({.prop = "C01", .name = "interleaved", .body = sched1, .budget = {1, 0, 0, 1}, .tbudget = {1, 0, 1, 3}});

// ------------------------------------------------------------------ C03
static void handover(Ctx& c, std::size_t n, std::size_t par, bool order_free, int shape_of_batch) {
  int m = c.choose(3); Service sv; Prog p = download(sv, F_SHA, n, par, MODES[(std::size_t)m]); p.races = true; p.env.order = order_free; p.env.batch = shape_of_batch;
  clean(); c.what = kinds(F_SHA, n, par) + ", " + MODEN[m]; go(c, p); complete(c, p, sv.expect(F_SHA, 0, n)); c.evals(1, 1);
  c.sample(c.what + ": " + std::to_string(p.points) + " scheduling points, " + std::to_string(p.preemptions) + " preemptions, stderr " + std::to_string(p.err.size()) + " bytes");
}
static Reg h1({.prop = "C03", .name = "one range", .body = [](Ctx& c) { handover(c, 1, 1, false, 0); }, .budget = {2, 0, 1, 9}, .tbudget = {3, 0, 1, 9}, .splitk = 3});
static Reg h2({.prop = "C03", .name = "two ranges", .body = [](Ctx& c) { handover(c, 2, 1 + (std::size_t)c.choose(2), true, 1); }, .budget = {1, 0, 1, 9}, .tbudget = {2, 0, 1, 9}, .splitk = 4});

// ------------------------------------------------------------------ C02
enum Fail { REFUSED, PART_LINE, PART_WHOLE_LINES, HTTP500, HTTP404_LIKE, STALL, STALL_PART, RECV_FULL, HTTP429, HTTP206, HTTP204, HTTP302, H2RESET, NFAIL };
static const char* FAILS[] = {"refused", "breaks inside a line", "breaks after whole lines", "500 with a page", "404 with a body like a range", "stalls", "stalls after a part", "breaks after the whole body", "429", "206 with a part", "204", "302", "stream reset"};
static net::Outcome failure(int k, const std::string& good) {
  net::Outcome o; auto lines_end = good.find('\n'); std::string one = lines_end == std::string::npos ? good : good.substr(0, lines_end + 1);
  switch (k) {
  case REFUSED: o.code = CURLE_COULDNT_CONNECT; o.http = 0; break;
  case PART_LINE: o.code = CURLE_PARTIAL_FILE; o.body = good.substr(0, good.size() / 2 + 3); break;
  case PART_WHOLE_LINES: o.code = CURLE_RECV_ERROR; o.body = one; break;
  case HTTP500: o.http = 500; o.body = "<html>error: 500</html>\n"; break;
  case HTTP404_LIKE: o.http = 404; o.body = good; break;
  case STALL: o.stall = true; o.http = 0; break;
  case STALL_PART: o.stall = true; o.body = one; break;
  case RECV_FULL: o.code = CURLE_RECV_ERROR; o.body = good; break;
  case HTTP429: o.http = 429; o.body = "{ \"statusCode\": 429 }"; break;
  case HTTP206: o.http = 206; o.body = one; break;
  case HTTP204: o.http = 204; break;
  case HTTP302: o.http = 302; o.body = "moved\n"; break;
  case H2RESET: o.code = 92; o.body = one; break;
  }
  return o;
}
static void judge_retry(Ctx& c, Prog& p, const Service& sv, const Fmt& f, const std::vector<std::size_t>& fails) {
  std::size_t n = fails.size(); bool hard = false; for (auto k: fails) hard |= k >= 6; std::string want = sv.expect(f, 0, n);
  if (!hard) { complete(c, p, want); for (std::size_t i = 0; i != n; ++i) if (p.log.attempts[i] != fails[i] + 1) c.fail("attempts", "range " + std::to_string(i) + " failed " + std::to_string(fails[i]) + " times and was requested " + std::to_string(p.log.attempts[i]) + " times\n" + c.what + p.tail()); }
  else { prefix_left(c, p, want, f, true); for (std::size_t i = 0; i != n; ++i) if (p.log.attempts[i] > 6) c.fail("attempts", "range " + std::to_string(i) + " was requested " + std::to_string(p.log.attempts[i]) + " times\n" + c.what + p.tail()); }
}
static void retry_kinds(Ctx& c) { // every sequence of failures of one transfer
  static const int K[] = {REFUSED, PART_LINE, PART_WHOLE_LINES, HTTP500, HTTP404_LIKE}; const Fmt& f = c.flag() ? F_TXT : F_NT; std::vector<int> seq;
  bool all = c.flag(); std::size_t maxf = all ? (c.thorough ? 3 : 2) : 6; int kk = all ? (int)NFAIL : c.thorough ? 5 : 4;
  while (seq.size() < maxf) { int x = c.choose(kk + 1); if (!x) break; seq.push_back(all ? x - 1 : K[x - 1]); }
  if (all) while (seq.size() && seq.size() < 5 && c.thorough) { seq.push_back(seq.back()); }
  Service sv; sv.n = [](std::size_t) { return 3u; }; Prog p = download(sv, f, 2, 2); auto base = p.env.outcome;
  p.env.outcome = [=](std::size_t i, int a, bool nt) { auto o = base(i, a, nt); return i == 1 && (std::size_t)a < seq.size() ? failure(seq[(std::size_t)a], o.body) : o; };
  clean(); c.what = std::string(f.name) + ", range 1:"; for (int k: seq) c.what += std::string(" ") + FAILS[k] + ","; go(c, p); judge_retry(c, p, sv, f, {0, seq.size()}); c.evals(1, 1); c.sample(c.what + " " + p.how());
}
static void retry_counts(Ctx& c) { // how often each of three transfers fails, in which order they are served
  std::size_t n = 3; bool small = c.flag(); static const std::size_t NS[] = {0, 1, 2}, NL[] = {0, 1, 4, 5, 6, 7}; std::vector<std::size_t> fl;
  for (std::size_t i = 0; i != n; ++i) fl.push_back(small ? NS[c.choose(c.thorough ? 3 : 2)] : NL[c.choose(6)]);
  std::size_t par = 1 + (std::size_t)c.choose(3); bool h2 = c.flag(); int ord = small ? 1 : 2 * c.choose(2), bt = small ? 1 : 2 * c.choose(2), rot = small ? c.choose(3) * 4 : c.choose(c.thorough ? NFAIL : 4); const Fmt& f = small ? F_TXT : c.pick(FMTS);
  Service sv; Prog p = download(sv, f, n, par); p.env.order = ord; p.env.batch = bt; p.env.h2 = h2; auto base = p.env.outcome;
  p.env.outcome = [=](std::size_t i, int a, bool nt) { auto o = base(i, a, nt); return (std::size_t)a < fl[i] ? failure((rot + a + (int)i) % NFAIL, o.body) : o; };
  clean(); c.what = kinds(f, n, par) + ", failures: " + std::to_string(fl[0]) + " " + std::to_string(fl[1]) + " " + std::to_string(fl[2]) + " starting with: " + FAILS[rot]; go(c, p); judge_retry(c, p, sv, f, fl); c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static void retry_sched(Ctx& c) { // failures while the writer is at work
  std::size_t k = 1 + (std::size_t)c.choose(2); std::size_t who = (std::size_t)c.choose(3); int kind = c.flag() ? PART_WHOLE_LINES : HTTP404_LIKE; Service sv; Prog p = download(sv, F_TXT, 3, 2); p.env.order = 1; auto base = p.env.outcome;
  p.env.outcome = [=](std::size_t i, int a, bool nt) { auto o = base(i, a, nt); return i == who && (std::size_t)a < k ? failure(kind, o.body) : o; };
  clean(); c.what = "range " + std::to_string(who) + " fails " + std::to_string(k) + " times: " + FAILS[kind]; go(c, p); std::vector<std::size_t> fl(3, 0); fl[who] = k; judge_retry(c, p, sv, F_TXT, fl); c.evals(1, 1); c.sample(c.what + ", " + std::to_string(p.preemptions) + " preemptions");
}
static Reg b1({.prop = "C02", .name = "kinds", .body = retry_kinds}); static Reg b2({.prop = "C02", .name = "counts", .body = retry_counts, .splitk = 4}); static Reg b3({.prop = "C02", .name = "interleaved", .body = retry_sched, .budget = {1, 0, 0, 1}, .tbudget = {1, 0, 1, 4}, .splitk = 3});

// ------------------------------------------------------------------ C04
static void hard_fail(Ctx& c) { // one transfer fails for good
  std::size_t n = 3, who = (std::size_t)c.choose(3), par = c.flag() ? 3 : 1; int m = c.thorough ? c.choose(3) : c.choose(2); int other = par == 1 ? 0 : c.choose(3); // the others end before, are still in flight, or end just before the last attempt fails
  Service sv; Prog p = download(sv, F_TXT, n, par, MODES[(std::size_t)m]); p.races = true; static const int OO[] = {0, 2, 3}; p.env.order = OO[other]; p.env.rank = [=](std::size_t i, int a) { return i == who ? (a >= 5 ? 2 : 0) : 1; }; auto base = p.env.outcome;
  p.env.outcome = [=](std::size_t i, int a, bool nt) { return i == who ? failure(a % 2 ? REFUSED : HTTP500, "") : base(i, a, nt); };
  clean(); c.what = kinds(F_TXT, n, par) + ", " + MODEN[m] + ", range " + std::to_string(who) + " fails for good"; go(c, p); prefix_left(c, p, sv.expect(F_TXT, 0, n), F_TXT, true); c.evals(1, 1); c.sample(c.what + ", " + std::to_string(p.preemptions) + " preemptions: " + p.err.substr(0, 80));
}
static void write_fail(Ctx& c) { // the k-th write is refused, once or from then on
  const Fmt& f = c.flag() ? F_SHA : F_TXT; std::size_t n = f.txt ? 4 : 2, par = c.flag() ? 4 : 1; int m = c.choose(2), e = c.choose(2) ? EIO : ENOSPC; int64_t k = 1 + c.choose(f.txt ? 3 : 1);
  Service sv; sv.n = [](std::size_t) { return 100u; }; Prog p = download(sv, f, n, par, MODES[(std::size_t)m]); p.races = c.thorough; p.shim = true; p.ctl.mut_skip = 7; p.ctl.fail_mut_at = k; p.ctl.fail_mut_errno = e;
  clean(); c.what = kinds(f, n, par) + ", " + MODEN[m] + ", write " + std::to_string(k) + " fails: " + strerror(e); go(c, p);
  if (p.ctl.muts < k) throw Infeasible{};
  prefix_left(c, p, sv.expect(f, 0, n), f, false); c.evals(1, 1); c.sample(c.what + ", " + std::to_string(p.preemptions) + " preemptions: " + p.err.substr(0, 80));
}
static void write_fail_big(Ctx& c) { // in the writing thread in binary form, too: more than its buffer holds
  const Fmt& f = c.pick(FMTS); std::size_t n = 5; Service sv; sv.n = [](std::size_t) { return 2500u; }; Prog p = download(sv, f, n, 1 + (std::size_t)c.choose(2) * 4); int64_t k = 1 + c.choose(f.txt ? 6 : 2);
  p.shim = true; p.ctl.mut_skip = 7; p.ctl.fail_mut_at = k; p.ctl.fail_mut_errno = ENOSPC; clean(); c.what = std::string(f.name) + ", 12500 records, write " + std::to_string(k) + " fails"; go(c, p);
  if (p.ctl.muts < k) throw Infeasible{};
  prefix_left(c, p, sv.expect(f, 0, n), f, false); c.evals(1, 1); c.sample(c.what);
}
static void both_fail(Ctx& c) { // both threads fail
  std::size_t n = 4, who = 2 + (std::size_t)c.choose(2); Service sv; sv.n = [](std::size_t) { return 100u; }; Prog p = download(sv, F_TXT, n, 4); auto base = p.env.outcome; p.env.order = 2 * c.choose(2);
  p.shim = true; p.ctl.mut_skip = 7; p.ctl.fail_mut_at = 1; p.ctl.fail_mut_errno = ENOSPC; p.env.outcome = [=](std::size_t i, int a, bool nt) { return i == who ? failure(REFUSED, "") : base(i, a, nt); };
  clean(); c.what = "the first write and range " + std::to_string(who) + " fail"; go(c, p); prefix_left(c, p, sv.expect(F_TXT, 0, n), F_TXT, false); c.evals(1, 1); c.sample(c.what + ", " + std::to_string(p.preemptions) + " preemptions");
}
static void no_endless(Ctx& c) { // after the writer has failed the network thread soon stops asking
  std::size_t n = c.thorough ? 400 : 48, par = 1 + (std::size_t)c.choose(4); int m = c.choose(c.thorough ? 3 : 2); bool h2 = c.flag(); const Fmt& f = c.flag() ? F_TXT : F_NTTXT; Service sv; sv.n = [](std::size_t) { return 60u; }; Prog p = download(sv, f, n, par, MODES[(std::size_t)m]);
  p.shim = true; p.ctl.mut_skip = 7; p.ctl.fail_mut_at = 1 + c.choose(4); p.ctl.fail_mut_errno = ENOSPC; auto* ctl = &blk()->ctl; auto at = p.ctl.fail_mut_at; p.env.h2 = h2; p.env.failed = [=] { return ctl->muts >= at; };
  clean(); c.what = kinds(f, n, par) + ", " + MODEN[m] + ", write " + std::to_string(at) + " fails"; go(c, p); prefix_left(c, p, sv.expect(f, 0, n), f, false);
  if (p.log.requests_after_failure > par + 8) c.fail("endless", std::to_string(p.log.requests_after_failure) + " ranges were requested after the output had failed\n" + c.what + p.tail());
  c.evals(1, 1); c.sample(c.what + ": " + std::to_string(p.log.requests_after_failure) + " requests afterwards");
}
static Reg d1({.prop = "C04", .name = "transfer fails", .body = hard_fail, .budget = {1, 0, 0, 2}, .tbudget = {2, 0, 1, 3}, .splitk = 4}); static Reg d2({.prop = "C04", .name = "write fails", .body = write_fail, .budget = {1, 0, 0, 2}, .tbudget = {2, 0, 1, 2}, .splitk = 4});
static Reg d3({.prop = "C04", .name = "large write fails", .body = write_fail_big, .budget = {0, 0, 0, 1}, .tbudget = {1, 0, 0, 1}, .splitk = 3}); static Reg d4({.prop = "C04", .name = "both fail", .body = both_fail, .budget = {1, 0, 0, 2}, .tbudget = {2, 0, 1, 2}, .splitk = 4}); static Reg d5({.prop = "C04", .name = "no endless fetching", .body = no_endless, .budget = {0, 0, 0, 2}, .tbudget = {1, 0, 0, 2}, .splitk = 3});

// ------------------------------------------------------------------ C05
static const std::vector<Fmt> BFMTS{F_SHA, F_NT, F_T64};
static const std::vector<int> RSHAPES{CRLF, LF, NOEOL, CRNOEOL, BLANKEND};
static Prog resume(const Service& sv, const Fmt& f, std::size_t n, std::size_t par) { Prog p = download(sv, f, n, par, {"--no-progress", "--resume"}); return p; }
// where the ranges end in the file
static std::size_t range_end(const Service& sv, const Fmt& f, std::size_t i) { return sv.expect(f, 0, i + 1).size(); }
static void judge_resume(Ctx& c, Prog& p, const Service& sv, const Fmt& f, std::size_t n, const std::string& before) {
  std::string want = sv.expect(f, 0, n), o = slurp("o"); std::size_t rs = f.hs + 4, whole = before.size() / rs * rs;
  if (p.ok()) { if (o != want) c.fail("wrong-output", "the resumed download reports success: " + diffshow(o, want) + "\n" + c.what + p.tail()); return; }
  if (!p.failed()) c.fail("abnormal", c.what + p.tail());
  if (whole == 0) { if (o.substr(0, std::min(o.size(), want.size())) != want.substr(0, o.size())) c.fail("wrong-output", "refused, and the file was changed" + p.tail()); return; }
  if (before.size() == want.size()) { if (o != want) c.fail("lost", "refused, and the complete file was changed: " + diffshow(o, want) + "\n" + c.what + p.tail()); return; }
  c.fail("refused", "the interrupted download cannot be resumed\n" + c.what + p.tail());
}
static std::string again(Ctx& c, const Service& sv, const Fmt& f, std::size_t n, std::size_t par, const std::string& what) { // resume what is there, judge
  std::string before = slurp("o"); c.what = what; Prog p = resume(sv, f, n, par); go(c, p); judge_resume(c, p, sv, f, n, before); return p.how();
}
static Service rservice(Ctx& c, int& sh, int& pat, const Fmt* f = nullptr) { // f: also hashes that are almost or partly the same
  sh = c.pick(RSHAPES); pat = c.choose(f ? 5 : 3); if (pat > 2 && sh != CRLF && sh != NOEOL) throw Infeasible{}; Service sv; int s = sh, q = pat; sv.shape = [=](std::size_t) { return s; };
  sv.n = [=](std::size_t i) { return q == 0 ? 1u : q == 1 ? (unsigned)(1 + i % 3) : q == 3 ? 4u : 3u; }; if (pat == 3) sv.near = f->hs == 8 ? 10 : f->ntlm ? 26 : 34; sv.alike = pat == 4; return sv;
}
static void cut_once(Ctx& c) { // every length
  const Fmt& f = c.pick(BFMTS); int sh, pat; Service sv = rservice(c, sh, pat, &f); std::size_t n = c.thorough ? 6 : 4, par = c.flag() ? 3 : 1; std::string want = sv.expect(f, 0, n);
  std::size_t L = (std::size_t)c.choose((int)want.size() + 1); clean(); put("o", want.substr(0, L));
  std::string r = again(c, sv, f, n, par, std::string(f.name) + ", " + SHAPES[sh] + (pat == 3 ? ", near hashes" : pat == 4 ? ", ranges alike" : "") + ", cut at byte " + std::to_string(L) + " of " + std::to_string(want.size())); c.evals(1, 1); c.sample(c.what + ": " + r);
}
static void cut_twice(Ctx& c) { // the resumed run is interrupted as well, at every byte it writes
  const Fmt& f = c.pick(BFMTS); int sh, pat; Service sv = rservice(c, sh, pat); if (!c.thorough && sh != CRLF && sh != NOEOL) throw Infeasible{}; std::size_t n = 3; std::string want = sv.expect(f, 0, n), rsz(f.hs + 4, 0);
  std::size_t rs = f.hs + 4, L, L2; // record boundaries and their neighbours, a byte in the middle; thorough: every byte
  auto at = [&](std::size_t from) { if (c.thorough) return from + (std::size_t)c.choose((int)(want.size() - from)); std::vector<std::size_t> v; for (std::size_t b = 0; b <= want.size(); b += rs) for (long d: {-1L, 0L, 1L, 5L}) { long x = (long)b + d; if (x >= (long)from && x < (long)want.size()) v.push_back((std::size_t)x); } if (v.empty()) throw Infeasible{}; return v[(std::size_t)c.choose((int)v.size())]; };
  L = at(rs); L2 = at(0); clean(); put("o", want.substr(0, L));
  Prog p = resume(sv, f, n, 2); p.fsize = (int64_t)L2; p.fsize_kills = true; c.what = std::string(f.name) + ", " + SHAPES[sh] + ", cut at byte " + std::to_string(L) + ", then at " + std::to_string(L2); std::string w = c.what; go(c, p);
  std::string mid = slurp("o"); if (mid != want.substr(0, mid.size())) c.fail("wrong-output", "the interrupted resume leaves something else than a prefix: " + diffshow(mid, want) + "\n" + w + p.tail());
  std::string r = again(c, sv, f, n, 2, w); c.evals(1, 1); c.sample(w + ": " + r);
}
static void cut_calls(Ctx& c) { // the first run and the resumed one end before any of their changing calls
  const Fmt& f = c.pick(BFMTS); Service sv; unsigned per = c.flag() ? 3500 : 3; sv.n = [=](std::size_t) { return per; }; std::size_t n = 4; std::string want = sv.expect(f, 0, n);
  clean(); Prog p = download(sv, f, n, 2); p.shim = true; p.ctl.mut_skip = 7; p.ctl.crash_at = 1 + c.choose(3); p.ctl.crash_torn = c.flag() ? (int64_t)(c.choose(3) * 29) : -1; std::string w = std::string(f.name) + ", interrupted at changing call " + std::to_string(p.ctl.crash_at) + " of the first run"; c.what = w; go(c, p);
  if (p.ok()) throw Infeasible{};
  std::string mid = exists("o") ? slurp("o") : ""; if (mid != want.substr(0, mid.size())) c.fail("wrong-output", "the interrupted run leaves something else than a prefix: " + diffshow(mid, want) + "\n" + w + p.tail());
  int k = c.choose(4); if (k && mid.size() >= f.hs + 4) { Prog q = resume(sv, f, n, 2); q.shim = true; q.ctl.mut_skip = 7; q.ctl.crash_at = k; q.ctl.crash_torn = c.flag() ? 31 : -1; w += ", then at call " + std::to_string(k) + " of the resumed one"; c.what = w; go(c, q); if (q.ok()) throw Infeasible{}; } else if (k) throw Infeasible{};
  if (!exists("o")) throw Infeasible{};
  std::string r = again(c, sv, f, n, 2, w); c.evals(1, 1); c.sample(w + ": " + r);
}
static void unreachable(Ctx& c) { // the service fails while the resume starts: nothing is lost
  const Fmt& f = c.pick(BFMTS); Service sv; sv.n = [](std::size_t i) { return (unsigned)(1 + i % 3); }; std::size_t n = 3; std::string want = sv.expect(f, 0, n); std::size_t L = (std::size_t)c.choose((int)want.size() + 1), rs = f.hs + 4; if (L < rs) throw Infeasible{};
  int k = c.choose(NFAIL), phase = c.choose(2); clean(); put("o", want.substr(0, L)); Prog p = resume(sv, f, n, 2);
  if (phase == 0) { auto base = p.env.sync; p.env.sync = [=](std::size_t i, bool nt) { auto o = failure(k, base(i, nt).body); if (o.stall) o.code = CURLE_OPERATION_TIMEDOUT; return o; }; }
  else { auto base = p.env.outcome; p.env.outcome = [=](std::size_t i, int a, bool nt) { return failure(k, base(i, a, nt).body); }; }
  std::string w = std::string(f.name) + ", cut at byte " + std::to_string(L) + ", " + (phase ? "every transfer fails: " : "looking up the last range: ") + FAILS[k]; c.what = w; go(c, p);
  std::string mid = slurp("o");
  if (p.ok()) { if (mid != want) c.fail("wrong-output", "success: " + diffshow(mid, want) + "\n" + w + p.tail()); c.evals(1, 1); return; }
  if (mid != want.substr(0, mid.size())) c.fail("wrong-output", "a prefix should be left: " + diffshow(mid, want) + "\n" + w + p.tail());
  if (mid.size() / rs == 0) { // nothing left to resume from: the only range was cut; a fresh start restores it
    if (L / rs > 0 && L > range_end(sv, f, 0)) c.fail("lost", "complete ranges were lost\n" + w + p.tail()); c.evals(1, 1); return; }
  std::string r = again(c, sv, f, n, 2, w); c.evals(1, 1); c.sample(w + ", then again: " + r);
}
static void cut_large(Ctx& c) { // ranges longer than the buffers that look for their start
  const Fmt& f = c.pick(BFMTS); Service sv; sv.n = [](std::size_t i) { return (unsigned)(900 + 50 * i); }; std::size_t n = 4; std::string want = sv.expect(f, 0, n); std::size_t rs = f.hs + 4; std::vector<std::size_t> Ls;
  for (std::size_t i = 0; i != n; ++i) { std::size_t e = range_end(sv, f, i); for (long d: {-(long)rs, -1L, 0L, 1L, (long)rs, (long)rs * 2 + 3, (long)rs * 170, (long)rs * 171, (long)rs * 204, (long)rs * 205, (long)rs * 341, (long)rs * 342}) if ((long)e + d < (long)want.size()) Ls.push_back((std::size_t)((long)e + d)); }
  if (c.thorough) for (std::size_t x = rs; x < want.size(); x += rs * 7 + 1) Ls.push_back(x);
  std::size_t L = Ls[(std::size_t)c.choose((int)Ls.size())]; clean(); put("o", want.substr(0, L)); std::string r = again(c, sv, f, n, 3, std::string(f.name) + ", ranges of 900 and more lines, cut at byte " + std::to_string(L) + " of " + std::to_string(want.size())); c.evals(1, 1); c.sample(c.what + ": " + r);
}
static void cut_huge(Ctx& c) { // a partial download of more than 2^31 and 2^32 bytes: zeros, then the last ranges
  const Fmt& f = c.pick(BFMTS); static const int SH[] = {31, 32, 33, 35}; int sh = SH[c.choose(4)], where = c.choose(3); Service sv; sv.n = [](std::size_t i) { return (unsigned)(3 + i); }; std::size_t n = 4, rs = f.hs + 4; std::string want = sv.expect(f, 0, n); std::vector<std::size_t> Ls;
  for (std::size_t i = 0; i != n; ++i) for (long d: {-(long)rs - 1, -(long)rs, -1L, 0L, 1L, (long)rs}) { long x = (long)range_end(sv, f, i) + d; if (x > 0 && x < (long)want.size()) Ls.push_back((std::size_t)x); }
  std::size_t L = Ls[(std::size_t)c.choose((int)Ls.size())]; uint64_t z = (1ULL << sh) / rs - (uint64_t)where * 8; if (L / rs == 0) throw Infeasible{}; // the boundary lies in front of, among or behind what was downloaded
  clean(); if (!sparse("o", z, rs, {{z, want.substr(0, L)}})) throw Infeasible{}; // the tail goes behind the zeros
  Prog p = resume(sv, f, n, 2); p.fsize = (int64_t)(z * rs + want.size() + 4096); c.what = std::string(f.name) + ", " + std::to_string(z) + " records in front, cut at byte " + std::to_string(L); std::string w = c.what; go(c, p);
  struct stat s; if (stat("o", &s)) _exit(99); std::string got = slurp_tail("o", z * rs);
  if (!p.ok()) c.fail("refused", "the interrupted download cannot be resumed\n" + w + p.tail());
  if ((uint64_t)s.st_size != z * rs + want.size() || got != want) c.fail("wrong-output", "the resumed download reports success: " + diffshow(got, want) + "\n" + w + p.tail());
  c.evals(1, 1); c.sample(w + ": " + p.how()); clean();
}
static Reg r6({.prop = "C05", .name = "cut huge", .body = cut_huge});
static Reg r1({.prop = "C05", .name = "cut once", .body = cut_once}); static Reg r2({.prop = "C05", .name = "cut twice", .body = cut_twice, .splitk = 3}); static Reg r3({.prop = "C05", .name = "cut at calls", .body = cut_calls}); static Reg r4({.prop = "C05", .name = "service fails", .body = unreachable}); static Reg r5({.prop = "C05", .name = "large ranges", .body = cut_large});

// ------------------------------------------------------------------ C27: a body that is no list of hashes
static const char* const NOHASH[] = {"<html><head><title>Sign in to the network</title></head>", "x", "error: 503", "{\"count\":5}", ":5", "0123", "0123456789ABCDEF:7", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz:3", ".", "\\", "-", "0x1", ""};
static std::string nohash(const Fmt& f, int k, const std::string& good) { // one line that is no record in this form
  std::size_t h = f.hs * 2 - 5; std::string l = good; if (k < 12) return NOHASH[k];
  k -= 12; if (k == 0) return l.substr(0, h - 1) + l.substr(l.find(':')); if (k == 1) return l.substr(0, h - 1); k -= 2; if (k < 3) { l[k == 0 ? 0 : k == 1 ? h / 2 : h - 1] = 'G'; return l; } k -= 3; l[k == 0 ? 0 : k == 1 ? h / 2 : h - 1] = '\0'; return l;
}
static void bad_body(Ctx& c) {
  const Fmt& f = c.pick(BFMTS); std::size_t n = 3, who = (std::size_t)c.choose(3), at = (std::size_t)c.choose(3), par = c.flag() ? 3 : 1; int k = c.choose(20), sh = c.flag() ? CRLF : NOEOL; if (f.hs == 8 && k >= 12 && k < 14) throw Infeasible{}; if (f.hs == 8 && k == 6) throw Infeasible{};
  Service sv; sv.n = [](std::size_t) { return 3u; }; sv.shape = [=](std::size_t) { return sh; }; Prog p = download(sv, f, n, par); auto base = p.env.outcome; std::string shown;
  { auto v = sv.ls(who, f.ntlm); shown = nohash(f, k, v[at].suffix + ":5"); }
  p.env.outcome = [=](std::size_t i, int a, bool nt) { auto o = base(i, a, nt); if (i != who) return o; o.body.clear(); auto v = sv.ls(i, nt); for (std::size_t j = 0; j != v.size(); ++j) o.body += (j == at ? shown : v[j].suffix + ":" + std::to_string(v[j].count)) + (sh == CRLF ? "\r\n" : j + 1 != v.size() ? "\n" : ""); return o; };
  p.env.order = 2 * c.choose(2); clean(); c.what = kinds(f, n, par) + ", line " + std::to_string(at) + " of range " + std::to_string(who) + " is '" + shown.c_str() + "'"; go(c, p); std::string want = sv.expect(f, 0, n), o = exists("o") ? slurp("o") : "";
  std::size_t most = (who * 3 + at) * (f.hs + 4); // nothing of what follows the damaged line
  if (p.ok()) c.fail("accepted", "success, with " + std::to_string(o.size()) + " bytes written\n" + c.what + p.tail());
  if (!p.failed() || p.err.empty()) c.fail("abnormal", c.what + p.tail());
  if (o.size() % (f.hs + 4) || o.size() > most || o != want.substr(0, o.size())) c.fail("made-up", "what is left is not a prefix of the records in front: " + diffshow(o, want) + "\n" + c.what + p.tail());
  c.evals(1, 1); c.sample(c.what + ", " + std::to_string(p.preemptions) + " preemptions: " + p.err.substr(0, 80));
}
static void bad_last(Ctx& c) { // the body a resume looks at
  const Fmt& f = c.pick(BFMTS); Service sv; sv.n = [](std::size_t) { return 3u; }; std::size_t n = 3, rs = f.hs + 4; std::string want = sv.expect(f, 0, n); std::size_t L = (std::size_t)c.choose((int)want.size() + 1); if (L < rs) throw Infeasible{}; if (!c.thorough && L % rs > 1 && L % rs != rs - 1) throw Infeasible{};
  int k = c.choose(8); static const char* B[] = {"<html>\n<body>:</body>\n", "", ":", "\n", "x:5", "0123456789ABCDEF0123456789ABCDEF012345", "::::::::::::::::::::::::::::::::::::::::::::::::::", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz:1\nzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz:2\n"};
  clean(); put("o", want.substr(0, L)); Prog p = resume(sv, f, n, 2); p.env.sync = [=](std::size_t, bool) { net::Outcome o; o.body = B[k]; return o; };
  c.what = std::string(f.name) + ", cut at byte " + std::to_string(L) + ", the last range's body is '" + B[k] + "'"; go(c, p); std::string o = slurp("o");
  if (p.ok() && o != want) c.fail("accepted", "success: " + diffshow(o, want) + "\n" + c.what + p.tail());
  if (!p.ok() && (!p.failed() || p.err.empty())) c.fail("abnormal", c.what + p.tail());
  if (o != want.substr(0, o.size()) || o.size() < L / rs * rs) c.fail("lost", "whole records were lost or changed: " + diffshow(o, want) + "\n" + c.what + p.tail());
  c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static Reg bb1({.prop = "C27", .name = "bodies", .body = bad_body, .budget = {0, 0, 0, 1}, .tbudget = {1, 0, 0, 1}}); static Reg bb2({.prop = "C27", .name = "last range", .body = bad_last});

// ------------------------------------------------------------------ C06
static void judge_full(Ctx& c, Prog& p, const std::string& want) {
  if (p.ok()) { std::string o = slurp("o"); if (o != want) c.fail("false-success", "success, but " + diffshow(o, want) + "\n" + c.what + p.tail()); }
  else if (!p.failed()) c.fail("abnormal", c.what + p.tail());
}
static void full_small(Ctx& c) { // room for exactly L bytes
  const Fmt& f = c.pick(FMTS); Service sv; sv.n = [](std::size_t i) { return (unsigned)(1 + i); }; std::size_t n = 3; bool res = !f.txt && c.flag(); std::string want = sv.expect(f, 0, n); std::size_t L = (std::size_t)c.choose((int)want.size() + 1), have = res ? range_end(sv, f, 0) : 0;
  clean(); if (res) { if (L < have) throw Infeasible{}; put("o", want.substr(0, have)); } Prog p = res ? resume(sv, f, n, 2) : download(sv, f, n, 2); p.fsize = (int64_t)L; c.what = std::string(f.name) + (res ? ", resumed" : "") + ", room for " + std::to_string(L) + " of " + std::to_string(want.size()) + " bytes"; go(c, p);
  judge_full(c, p, want); if (L == want.size() && !p.ok()) c.fail("spurious", "fails although everything fits\n" + c.what + p.tail()); c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static void full_large(Ctx& c) {
  const Fmt& f = c.pick(FMTS); bool many = c.flag(); Service sv; sv.n = [=](std::size_t) { return many ? 2500u : 100u; }; std::size_t n = 5; std::string want = sv.expect(f, 0, n); std::vector<std::size_t> Ls; std::size_t stepb = want.size() / (c.thorough ? 400 : 60) + 1;
  for (std::size_t x = 0; x < want.size(); x += stepb) Ls.push_back(x);
  for (std::size_t u: {(std::size_t)4096, (std::size_t)8191, (std::size_t)8192, (std::size_t)16382, (std::size_t)16384, (std::size_t)10000 * (f.hs + 4), want.size()}) for (long d: {-1L, 0L, 1L}) if ((long)u + d <= (long)want.size()) Ls.push_back((std::size_t)((long)u + d));
  std::size_t L = Ls[(std::size_t)c.choose((int)Ls.size())]; clean(); Prog p = download(sv, f, n, 2); p.fsize = (int64_t)L; c.what = std::string(f.name) + ", room for " + std::to_string(L) + " of " + std::to_string(want.size()) + " bytes"; go(c, p); judge_full(c, p, want); if (L == want.size() && !p.ok()) c.fail("spurious", "fails although everything fits\n" + c.what + p.tail()); c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static void full_call(Ctx& c) { // one write is refused, later ones are not
  const Fmt& f = c.pick(FMTS); static const unsigned N[] = {2, 100, 2500}; unsigned per = N[c.choose(3)]; static const int ER[] = {ENOSPC, EIO, EDQUOT, EINTR, EFBIG}; int e = ER[c.choose(5)]; Service sv; sv.n = [=](std::size_t) { return per; }; std::size_t n = 5; std::string want = sv.expect(f, 0, n);
  int64_t k = 1 + c.choose(per == 2500 && f.txt ? (c.thorough ? 80 : 24) : 8); clean(); Prog p = download(sv, f, n, 2); p.shim = true; p.ctl.mut_skip = 7; p.ctl.fail_mut_at = k; p.ctl.fail_mut_errno = e; c.what = std::string(f.name) + ", " + std::to_string(per * 5) + " records, write " + std::to_string(k) + " fails: " + strerror(e); go(c, p);
  if (p.ctl.muts < k) throw Infeasible{}; judge_full(c, p, want); c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static Reg f1({.prop = "C06", .name = "space", .body = full_small}); static Reg f2({.prop = "C06", .name = "large", .body = full_large}); static Reg f3({.prop = "C06", .name = "call", .body = full_call});

// ------------------------------------------------------------------ C08
static void options(Ctx& c) { // every set of options, every state of the output file
  static const char* O[] = {"--force", "--resume", "--txt-out", "--ntlm", "--sha1t64", "--debug"}; bool on[6]; std::vector<std::string> a; for (int i = 0; i != 6; ++i) if ((on[i] = c.flag())) a.push_back(O[i]);
  bool force = on[0], res = on[1], txt = on[2], nt = on[3], t64 = on[4]; int state = c.choose(5); // absent, empty, a partial download of the right type, something else, a symbolic link to a database
  const Fmt& f = nt ? (txt ? F_NTTXT : F_NT) : txt ? F_TXT : t64 ? F_T64 : F_SHA; Service sv; std::size_t n = 3; std::string want = sv.expect(f, 0, n), part = sv.expect(f, 0, 2), junk = "not a database\n"; std::string before = state == 2 || state == 4 ? part : state == 3 ? junk : "";
  clean(); if (state == 4) { put("target", before); if (symlink("target", "o")) _exit(99); } else if (state) put("o", before);
  Prog p = download(sv, f, n, 2, {"--no-progress"}); p.args = {"hibp-download", "o", "--limit", "3", "--no-progress"}; for (auto& x: a) p.args.push_back(x); c.what = p.cmd(); static const char* SN[] = {"absent", "empty", "partial download", "something else", "link to a partial download"}; c.what += std::string(", output file: ") + SN[state]; go(c, p);
  bool bad = (txt && res) || (force && res) || (nt && t64), present = state != 0; std::string o = present ? slurp("o") : exists("o") ? slurp("o") : "<absent>";
  if (bad || (present && !force && !res)) { if (!p.failed()) c.fail("not-refused", c.what + p.tail()); if (present ? o != before : exists("o")) c.fail("touched", "refused, but the output file was changed or created\n" + c.what + p.tail()); }
  else if (!res) { if (!p.ok()) c.fail("refused", c.what + p.tail()); if (o != want) c.fail("wrong-output", diffshow(o, want) + "\n" + c.what + p.tail()); }
  else if (state == 2 || state == 4) { if (!p.ok()) c.fail("refused", c.what + p.tail()); if (o != want) c.fail("wrong-output", diffshow(o, want) + "\n" + c.what + p.tail()); }
  else if (p.ok() && o != want) c.fail("wrong-output", "--resume: success, but " + diffshow(o, want) + "\n" + c.what + p.tail());
  c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static void bad_options(Ctx& c) { // values that make no sense
  static const std::vector<std::vector<std::string>> B{{}, {"o", "--parallel-max", "0"}, {"o", "--parallel-max", "-1"}, {"o", "--parallel-max", "x"}, {"o", "--limit", "-1"}, {"o", "--limit", "x"}, {"o", "--limit"}, {"o", "--unknown"}, {"o", "o2"}, {"o", "--parallel-max", "99999999999999999999999"}};
  auto& b = B[(std::size_t)c.choose((int)B.size())]; bool ex = c.flag(), force = c.flag(); Service sv; Prog p = download(sv, F_SHA, 2, 2); p.args = {"hibp-download"}; for (auto& x: b) p.args.push_back(x); if (force) p.args.push_back("--force"); clean(); std::string before = sv.expect(F_SHA, 0, 1); if (ex) put("o", before); c.what = p.cmd(); go(c, p);
  if (!p.failed()) c.fail("not-refused", c.what + p.tail()); if (ex ? slurp("o") != before : exists("o")) c.fail("touched", "refused, but the output file was changed or created\n" + c.what + p.tail()); c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static Reg o1({.prop = "C08", .name = "hibp-download", .body = options}); static Reg o2({.prop = "C08", .name = "hibp-download values", .body = bad_options});

// ------------------------------------------------------------------ C25
static void requests(Ctx& c) { // no failures: each range once
  std::size_t n = c.thorough ? 5 : 4, par = 1 + (std::size_t)c.choose((int)n + 1); const Fmt& f = c.flag() ? F_NT : F_SHA; bool h2 = c.flag(), testing = c.flag(); std::size_t start = (std::size_t)c.choose(3);
  Service sv; Prog p = start ? resume(sv, f, n, par) : download(sv, f, n, par); if (testing) { p.args.push_back("--testing"); p.env.testing = true; } p.env.strict = true; p.env.start = start; p.env.order = 1; p.env.batch = 1; p.env.h2 = h2; clean(); if (start) put("o", sv.expect(f, 0, start));
  c.what = kinds(f, n, par) + ", from range " + std::to_string(start) + (h2 ? ", one connection" : ""); go(c, p); complete(c, p, sv.expect(f, 0, n));
  for (std::size_t i = 0; i != n; ++i) if (p.log.attempts[i] != (i >= start ? 1 : 0)) c.fail("requests", "range " + std::to_string(i) + " was requested " + std::to_string(p.log.attempts[i]) + " times\n" + c.what);
  if (p.log.requests != n - start) c.fail("requests", std::to_string(p.log.requests) + " requests for " + std::to_string(n - start) + " ranges\n" + c.what); c.evals(1, 1); c.sample(c.what + ": at most " + std::to_string(p.log.max_in_flight) + " in flight");
}
static void handles(Ctx& c) { // failures of every kind: every handle is released once
  std::size_t n = 3, par = 1 + (std::size_t)c.choose(3); static const std::size_t NL[] = {0, 1, 5, 6}; std::size_t fl[3]; for (auto& x: fl) x = NL[c.choose(4)]; bool h2 = c.flag(); int o = c.choose(2) * 2, bt = c.choose(2) * 2, rot = c.choose(4) * 3; const Fmt& f = F_TXT;
  bool werr = c.flag(); Service sv; sv.n = [=](std::size_t) { return werr ? 120u : 2u; }; Prog p = download(sv, f, n, par); p.env.strict = true; p.env.order = o; p.env.batch = bt; p.env.h2 = h2; auto base = p.env.outcome; p.env.outcome = [=](std::size_t i, int a, bool nt) { auto r = base(i, a, nt); return (std::size_t)a < fl[i] ? failure((rot + a + (int)i) % NFAIL, r.body) : r; };
  if (werr) { p.shim = true; p.ctl.mut_skip = 7; p.ctl.fail_mut_at = 1; p.ctl.fail_mut_errno = ENOSPC; }
  clean(); c.what = kinds(f, n, par) + ", failures " + std::to_string(fl[0]) + " " + std::to_string(fl[1]) + " " + std::to_string(fl[2]) + (werr ? ", and the output fails" : ""); go(c, p); bool hard = werr; for (auto x: fl) hard |= x >= 6; if (p.ok() == hard) c.fail("status", c.what + p.tail()); c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static void handles_sched(Ctx& c) { // ... and in every interleaving
  int what = c.choose(3); Service sv; sv.n = [=](std::size_t) { return what == 2 ? 120u : 2u; }; Prog p = download(sv, F_TXT, 3, 2); p.env.strict = true; p.env.order = 0; auto base = p.env.outcome; p.env.outcome = [=](std::size_t i, int a, bool nt) { auto r = base(i, a, nt); return what == 1 && i == 1 ? failure(REFUSED, "") : r; };
  if (what == 2) { p.shim = true; p.ctl.mut_skip = 7; p.ctl.fail_mut_at = 1; p.ctl.fail_mut_errno = ENOSPC; }
  clean(); c.what = what == 0 ? "no failure" : what == 1 ? "range 1 fails for good" : "the output fails"; go(c, p); if (p.ok() != (what == 0)) c.fail("status", c.what + p.tail()); c.evals(1, 1); c.sample(c.what + ", " + std::to_string(p.preemptions) + " preemptions");
}
static void whole_space(Ctx& c) { // all 2^20 ranges , and the last ones after a resume
  const Fmt& f = c.flag() ? F_T64 : F_SHA; std::size_t n = 1u << 20, start = f.hs == 8 ? n - (1u << 14) : 0; Service sv; sv.n = [](std::size_t) { return 1u; };
  Prog p = start ? resume(sv, f, n, 300) : download(sv, f, n, 300); p.args = {"hibp-download", "o", "--no-progress"}; for (auto& o: f.opt) p.args.push_back(o); if (start) p.args.push_back("--resume"); p.env.strict = true; p.env.start = start; p.env.h2 = true; p.env.batch = 2; p.max_points = 1ull << 40; p.env.max_iterations = 1ull << 40; p.limit_s = 600;
  clean(); if (start) put("o", sv.expect(f, start - 3, start)); c.what = "ranges " + std::to_string(start) + " to " + std::to_string(n); go(c, p); complete(c, p, sv.expect(f, start ? start - 3 : 0, n)); if (p.log.requests != n - start) c.fail("requests", std::to_string(p.log.requests) + " requests for " + std::to_string(n - start) + " ranges\n" + c.what); c.evals(n - start, n - start); c.sample(c.what + ": " + std::to_string(p.log.iterations) + " events, at most " + std::to_string(p.log.max_in_flight) + " in flight");
}
static Reg e1({.prop = "C25", .name = "requests", .body = requests}); static Reg e2({.prop = "C25", .name = "handles", .body = handles}); static Reg e3({.prop = "C25", .name = "interleaved", .body = handles_sched, .budget = {1, 0, 0, 2}, .tbudget = {2, 0, 0, 2}, .splitk = 3}); static Reg e4({.prop = "C25", .name = "whole index space", .body = whole_space, .exec_limit_s = 600}); static Reg e5({.prop = "C01", .name = "whole index space", .body = whole_space, .exec_limit_s = 600});

// ------------------------------------------------------------------ the stand-in network against the real one
static void both(Ctx& c, Prog p, const Service& sv, const Fmt& f, const std::vector<std::size_t>& fails, const std::string& have) {
  p.args.push_back("--testing"); p.env.testing = true; std::string w = c.what; std::string out[2]; net::Log lg[2]; int rc[2];
  bool hard = false; for (auto k: fails) hard |= k >= 6;
  for (int real = 0; real != 2; ++real) {
    clean(); if (!have.empty()) put("o", have); c.what = w; Prog q = p; q.env.strict = real == 0;
    if (real) { if (!RealNet::run(c, q)) return; } else go(c, q);
    if (have.empty()) judge_retry(c, q, sv, f, fails); else complete(c, q, sv.expect(f, 0, fails.size()));
    out[real] = slurp("o"); lg[real] = q.log; rc[real] = q.status;
  }
  bool same = (rc[0] == 0) == (rc[1] == 0) && (hard || (out[0] == out[1] && lg[0].requests == lg[1].requests && lg[0].sync_requests == lg[1].sync_requests && !memcmp(lg[0].attempts, lg[1].attempts, sizeof lg[0].attempts)));
  if (!same) c.fail("conformance", "the stand-in network behaves differently from the real one: " + std::to_string(lg[0].requests) + " requests, exit " + std::to_string(rc[0]) + "; real: " + std::to_string(lg[1].requests) + " requests, exit " + std::to_string(rc[1]) + "\n" + w);
  c.count(conf_traces);
}
static void real_shapes(Ctx& c) { // bodies, cuts, orders
  std::size_t n = 1 + (std::size_t)c.choose(4), par = 1 + (std::size_t)c.choose((int)n); const Fmt& f = c.pick(FMTS); int rot = c.thorough ? c.choose(NSHAPES) : c.choose(2) * 4, ord = 2 * c.choose(2), bt = par > 1 ? 2 * c.choose(2) : 0; bool cut = c.thorough ? c.flag() : rot == 0;
  Service sv; sv.n = [](std::size_t i) { return i == 2 ? 700u : 3u; }; sv.shape = [=](std::size_t i) { return (int)((i + (std::size_t)rot) % NSHAPES); }; Prog p = download(sv, f, n, par); p.env.order = ord; p.env.batch = bt; auto base = p.env.outcome;
  if (cut) p.env.outcome = [=](std::size_t i, int a, bool nt) { auto o = base(i, a, nt); for (std::size_t k = 1 + i * 7; k < o.body.size(); k += 41 + o.body.size() / 8) o.cuts.push_back(k); return o; };
  c.what = kinds(f, n, par) + ", shapes from " + SHAPES[rot]; both(c, p, sv, f, std::vector<std::size_t>(n, 0), ""); c.evals(1, 1); c.sample(c.what);
}
static void real_failures(Ctx& c) {
  static const int K[] = {PART_LINE, PART_WHOLE_LINES, HTTP500, HTTP404_LIKE, RECV_FULL, HTTP429, HTTP206, HTTP204, HTTP302}; static const std::size_t NF[] = {0, 1, 2, 5, 6};
  static const std::size_t QF[][2] = {{1, 0}, {0, 5}, {2, 1}, {5, 5}, {6, 0}, {0, 6}}; std::size_t fl[2]; if (c.thorough) for (auto& x: fl) x = NF[c.choose(5)]; else { int q = c.choose(6); fl[0] = QF[q][0]; fl[1] = QF[q][1]; } int k = c.choose(9), k2 = c.thorough ? c.choose(9) : (k + 4) % 9; std::size_t par = 1 + (std::size_t)c.choose(2); int ord = 2 * c.choose(2); const Fmt& f = (c.thorough ? c.flag() : k & 1) ? F_TXT : F_NT; if (!fl[0] && !fl[1]) throw Infeasible{};
  Service sv; Prog p = download(sv, f, 2, par); p.env.order = ord; auto base = p.env.outcome; p.env.outcome = [=](std::size_t i, int a, bool nt) { auto o = base(i, a, nt); return (std::size_t)a < fl[i] ? failure(a % 2 ? K[k2] : K[k], o.body) : o; };
  c.what = kinds(f, 2, par) + ", failures " + std::to_string(fl[0]) + " and " + std::to_string(fl[1]) + ": " + FAILS[K[k]] + ", " + FAILS[K[k2]]; both(c, p, sv, f, {fl[0], fl[1]}, ""); c.evals(1, 1); c.sample(c.what);
}
static void real_resume(Ctx& c) {
  const Fmt& f = c.flag() ? F_NT : c.flag() ? F_T64 : F_SHA; std::size_t n = 4, par = 1 + (std::size_t)c.choose(2), start = 1 + (std::size_t)c.choose(3); int sh = c.choose(3); Service sv; sv.n = [](std::size_t i) { return (unsigned)(2 + i); }; sv.shape = [=](std::size_t) { return sh; };
  Prog p = resume(sv, f, n, par); p.env.start = start; p.env.strict = true; c.what = kinds(f, n, par) + ", resumed after range " + std::to_string(start - 1); both(c, p, sv, f, std::vector<std::size_t>(n, 0), sv.expect(f, 0, start)); c.evals(1, 1); c.sample(c.what);
}
static Reg g1({.prop = "C01", .name = "real network: bodies", .body = real_shapes, .exec_limit_s = 120, .workers = 1}); static Reg g2({.prop = "C02", .name = "real network: failures", .body = real_failures, .exec_limit_s = 120, .workers = 1}); static Reg g3({.prop = "C05", .name = "real network: resumed", .body = real_resume, .exec_limit_s = 120, .workers = 1}); static Reg g4({.prop = "C25", .name = "real network: requests", .body = real_shapes, .exec_limit_s = 120, .workers = 1});

// ------------------------------------------------------------------ C28: damaged bodies for the program built with sanitizers
static void real_damaged(Ctx& c) {
  const Fmt& f = c.pick(BFMTS); int k = c.choose(20), at = c.choose(2), sh = c.flag() ? CRLF : NOEOL, cut = c.choose(3); if (f.hs == 8 && k >= 12 && k < 14) throw Infeasible{};
  Service sv; sv.n = [](std::size_t) { return 2u; }; Prog p = download(sv, f, 1, 1); p.args.push_back("--testing"); p.env.testing = true; auto v = sv.ls(0, f.ntlm); std::string l = nohash(f, k, v[(std::size_t)at].suffix + ":5"), body;
  for (int j = 0; j != 2; ++j) body += (j == at ? l : v[(std::size_t)j].suffix + ":5") + (sh == CRLF ? "\r\n" : j ? "" : "\n");
  p.env.outcome = [=](std::size_t, int, bool) { net::Outcome o; o.http = 200; o.body = body; if (cut) for (std::size_t x = (std::size_t)cut; x < body.size(); x += cut == 1 ? 1 : 7) o.cuts.push_back(x); return o; };
  clean(); c.what = kinds(f, 1, 1) + ", line " + std::to_string(at) + " is '" + l.c_str() + "'"; if (!RealNet::run(c, p)) return; c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static void real_last(Ctx& c) {
  const Fmt& f = c.pick(BFMTS); Service sv; sv.n = [](std::size_t) { return 2u; }; std::string want = sv.expect(f, 0, 2); std::size_t rs = f.hs + 4, L = (std::size_t)c.choose((int)want.size() + 1); if (L % rs > 1 && L % rs != rs - 1) throw Infeasible{}; int k = c.choose(8);
  static const char* B[] = {"<html>\n<body>:</body>\n", "", ":", "\n", "x:5", "0123456789ABCDEF0123456789ABCDEF012345", "::::::::::::::::::::::::::::::::::::::::::::::::::", "zzzz:1\nzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz:2\n"};
  clean(); put("o", want.substr(0, L)); Prog p = resume(sv, f, 2, 1); p.args.push_back("--testing"); p.env.testing = true; p.env.start = L / rs ? 1 : 0; p.env.sync = [=](std::size_t, bool) { net::Outcome o; o.http = 200; o.body = B[k]; return o; };
  c.what = std::string(f.name) + ", cut at byte " + std::to_string(L) + ", the last range's body is '" + B[k] + "'"; if (!RealNet::run(c, p)) return; c.evals(1, 1); c.sample(c.what + ": " + p.how());
}
static Reg m1({.prop = "C28", .name = "damaged bodies", .body = real_damaged, .exec_limit_s = 120, .workers = 1}); static Reg m2({.prop = "C28", .name = "damaged last range", .body = real_last, .exec_limit_s = 120, .workers = 1});

int main(int argc, char** argv) { return mc::main_(argc, argv); }
