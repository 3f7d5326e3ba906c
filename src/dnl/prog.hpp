// Runs hibp-download's main() in a process of its own, under the controlled scheduler and the stand-in network.
#pragma once
#include "dnl/net.hpp"
#include "drv/toolkit.hpp"
#include <sched.h>
int dnl_main(int, char**);
extern mc::Ctx* net_ctx;

struct Blk { sched::Report rep; net::Log log; ShimCtl ctl; volatile int returned; volatile int code; };
static Blk* blk() { static Blk* b = nullptr; static pid_t owner = 0; if (owner != getpid()) { b = (Blk*)mmap(nullptr, sizeof(Blk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED) _exit(99); owner = getpid(); } return b; }
static int capf(int i) { static int f[2] = {-1, -1}; static pid_t owner = 0; if (owner != getpid()) { for (auto& x: f) x = memfd_create("cap", MFD_CLOEXEC); owner = getpid(); } return f[i]; }

struct Prog {
  std::vector<std::string> args; net::Env env; int64_t fsize = -1; bool fsize_kills = false; bool shim = false; ShimCtl ctl{}; bool races = false;
  uint64_t max_points = 200000; int limit_s = 30;
  int status = -1; bool signaled = false; std::string out, err; net::Log log{}; uint64_t points = 0, preemptions = 0;
  bool ok() const { return !signaled && status == 0; }
  bool failed() const { return !signaled && status != 0; }
  std::string cmd() const { std::string s; for (auto& a: args) s += (s.empty() ? "" : " ") + a; return s; }
  std::string how() const { return signaled ? std::string("killed by ") + strsignal(status) : "exit status " + std::to_string(status); }
  std::string tail() const { return "\n" + cmd() + ": " + how() + "\nstderr: " + err.substr(0, 600); }
};
static int dnl_points = counter("scheduling_points"), dnl_pre = counter("preemptions"), dnl_runs = counter("program_runs"), dnl_races = counter("accesses_checked_for_races"), dnl_req = counter("requests_answered");

static void go(Ctx& c, Prog& p) {
  Blk* b = blk(); memset(b, 0, sizeof *b); b->ctl = p.ctl;
  for (int i = 0; i != 2; ++i) { if (ftruncate(capf(i), 0)) _exit(99); lseek(capf(i), 0, SEEK_SET); }
  int f0 = capf(0), f1 = capf(1);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(f0, 1); dup2(f1, 2); int z = open("/dev/null", O_RDONLY); dup2(z, 0); close(z);
    struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    if (long nc = sysconf(_SC_NPROCESSORS_ONLN); nc > 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(c.scratch.c_str() + c.scratch.rfind('w') + 1) % (int)nc, &s); sched_setaffinity(0, sizeof s, &s); } // one thread runs at a time anyway
    signal(SIGXFSZ, p.fsize_kills || p.fsize < 0 ? SIG_DFL : SIG_IGN); signal(SIGPIPE, SIG_DFL);
    rlim_t fl = p.fsize >= 0 ? (rlim_t)p.fsize : (rlim_t)512 << 20; struct rlimit l{fl, fl}; setrlimit(RLIMIT_FSIZE, &l); // without a limit of its own: stopped when it writes without end
    std::vector<char*> av; for (auto& a: p.args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    net::env = &p.env; net::lg = &b->log; net_ctx = &c; sched::no_race_check = !p.races; sched::max_points = p.max_points;
    alarm((unsigned)p.limit_s);
    if (p.shim) shim_set(&b->ctl);
    sched::start(c, &b->rep);
    int r = dnl_main((int)p.args.size(), av.data());
    net::at_end();
    sched::stop(); b->code = r; b->returned = 1;
    _exit(r & 255);
  }
  if (pid < 0) { perror("fork"); _exit(99); }
  int st; while (waitpid(pid, &st, 0) != pid) {}
  p.signaled = WIFSIGNALED(st); p.status = p.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
  p.out = slurp_fd(capf(0)); p.err = slurp_fd(capf(1)); p.log = b->log; p.points = b->rep.points; p.preemptions = b->rep.preemptions; p.ctl = b->ctl;
  c.count(dnl_points, b->rep.points); c.count(dnl_pre, b->rep.preemptions); c.count(dnl_runs); c.count(dnl_races, b->rep.races_checked); c.count(dnl_req, b->log.requests + b->log.sync_requests); c.step(b->rep.points);
  if (!p.signaled && p.status >= 97 && p.status <= 99) { fprintf(stderr, "%s\n", p.err.c_str()); _exit(p.status); }
  if (b->rep.infeasible) throw Infeasible{};
  if (b->rep.key[0]) c.fail(b->rep.key, std::string(b->rep.msg) + "\n" + c.what + p.tail());
  if (p.signaled && p.status == SIGALRM) c.fail("hang", "the program does not end (" + std::to_string(p.points) + " scheduling points)\n" + c.what + p.tail());
  if (p.signaled && !(p.fsize_kills && p.status == SIGXFSZ)) c.fail("crash", "the program is " + p.how() + "\n" + c.what + p.tail());
  if (b->returned) for (int i = 0; i != 4; ++i) c.budget[i] = b->rep.budget_left[i];
}

// ---------------------------------------------------------------- what the service holds
struct Fmt { const char* name; std::vector<std::string> opt; bool ntlm, txt; std::size_t hs; };
static const Fmt F_SHA{"sha1", {}, false, false, 20}, F_NT{"ntlm", {"--ntlm"}, true, false, 16}, F_T64{"sha1t64", {"--sha1t64"}, false, false, 8}, F_TXT{"sha1 text", {"--txt-out"}, false, true, 20}, F_NTTXT{"ntlm text", {"--ntlm", "--txt-out"}, true, true, 16};
static const std::vector<Fmt> FMTS{F_SHA, F_NT, F_T64, F_TXT, F_NTTXT};

enum Shape { LF, CRLF, NOEOL, CRNOEOL, BLANKEND, BLANKMID, BLANKFIRST, CRBLANK, EMPTY, NSHAPES };
static const char* SHAPES[] = {"LF", "CRLF", "LF, none at the end", "CRLF, none at the end", "blank line at the end", "blank line in the middle", "blank line first", "CRLF with blank lines", "empty body"};
struct Line { std::string suffix; int32_t count; };
static std::vector<Line> lines(std::size_t idx, bool ntlm, unsigned n) {
  std::vector<Line> v; std::size_t len = ntlm ? 27 : 35;
  for (unsigned j = 0; j != n; ++j) {
    char b[64]; snprintf(b, sizeof b, "%04X%05zX%c", j * 3 + 1 + (unsigned)(idx % 3), (idx * 7919 + j) & 0xFFFFF, ntlm ? 'E' : 'A'); std::string s = b; uint64_t h = mix(idx + 1, j + (ntlm ? 77777 : 0));
    while (s.size() < len) { s += "0123456789ABCDEF"[h & 15]; h = h * 6364136223846793005ULL + 1442695040888963407ULL; h ^= h >> 29; }
    v.push_back({s, (int32_t)(j % 5 == 4 ? 2147483647 - (int32_t)idx : j % 5 == 2 ? 0 : (int32_t)(idx * 131 + j * 17 + 1))});
  }
  return v;
}
static std::string body(const std::vector<Line>& ls, int shape) {
  if (shape == EMPTY) return "";
  bool cr = shape == CRLF || shape == CRNOEOL || shape == CRBLANK; std::string e = cr ? "\r\n" : "\n", s;
  if (shape == BLANKFIRST || shape == CRBLANK) s += e;
  for (std::size_t i = 0; i != ls.size(); ++i) {
    s += ls[i].suffix + ":" + std::to_string(ls[i].count);
    if (i + 1 != ls.size() || (shape != NOEOL && shape != CRNOEOL)) s += e;
    if ((shape == BLANKMID || shape == CRBLANK) && i == 0) s += e;
  }
  if (shape == BLANKEND || shape == CRBLANK) s += e;
  return s;
}
static std::string pfx(std::size_t idx) { char b[16]; snprintf(b, sizeof b, "%05zX", idx); return b; }
struct Service { // what each range holds and how it is written
  int near = -1;          // >= 0: neighbouring lines first differ in this hex digit of the suffix
  bool alike = false;     // every range holds the same suffixes
  std::vector<Line> ls(std::size_t i, bool ntlm) const {
    auto v = lines(alike ? 1 : i, ntlm, n(i)); if (near < 0) return v;
    for (std::size_t j = 1; j < v.size(); j += 2) { auto x = (std::size_t)near; auto& a = v[j - 1].suffix; auto& b = v[j].suffix; if (a[x] == 'F' || a[x] == '9') a[x] = '3'; b = a; ++b[x]; }
    return v;
  }
  std::function<unsigned(std::size_t)> n = [](std::size_t) { return 2u; }; std::function<int(std::size_t)> shape = [](std::size_t) { return (int)CRLF; };
  std::string raw(std::size_t i, bool ntlm) const { return body(ls(i, ntlm), shape(i)); }
  std::string expect(const Fmt& f, std::size_t a, std::size_t b) const {
    std::string s;
    for (std::size_t i = a; i < b; ++i) { if (shape(i) == EMPTY) continue; for (auto& l: ls(i, f.ntlm)) { if (f.txt) s += pfx(i) + l.suffix + ":" + std::to_string(l.count) + "\n"; else { ref::R r; r.h = ref::unhex(pfx(i) + l.suffix).substr(0, f.hs); r.c = l.count; s += ref::bin(r); } } }
    return s;
  }
};
// a download of ranges [0, n) with p parallel transfers, nothing fails unless the test changes it
static Prog download(const Service& sv, const Fmt& f, std::size_t n, std::size_t par, const std::vector<std::string>& more = {"--no-progress"}) {
  Prog p; p.args = {"hibp-download", "o", "--limit", std::to_string(n), "--parallel-max", std::to_string(par)};
  for (auto& o: f.opt) p.args.push_back(o);
  for (auto& o: more) p.args.push_back(o);
  p.env.ntlm = f.ntlm; p.env.limit = n; p.env.parallel = par;
  for (auto& o: more) if (o == "--testing") p.env.testing = true;
  p.env.outcome = [sv](std::size_t i, int, bool nt) { net::Outcome o; o.body = sv.raw(i, nt); return o; };
  p.env.sync = [sv](std::size_t i, bool nt) { net::Outcome o; o.body = sv.raw(i, nt); return o; };
  return p;
}
static std::string diffshow(const std::string& got, const std::string& want) { std::size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; return std::to_string(got.size()) + " bytes written, " + std::to_string(want.size()) + " expected, first difference at byte " + std::to_string(i); }
static void complete(Ctx& c, const Prog& p, const std::string& want) {
  if (!p.ok()) c.fail("fails", "the download fails although nothing failed\n" + c.what + p.tail());
  std::string o = slurp("o"); if (o != want) c.fail("wrong-output", "success, but the output is wrong: " + diffshow(o, want) + "\n" + c.what + p.tail());
}
static void prefix_left(Ctx& c, const Prog& p, const std::string& want, const Fmt& f, bool whole) { // a failed download leaves a prefix
  if (!p.failed()) c.fail("false-success", "the program does not report the failure\n" + c.what + p.tail());
  if (p.err.empty()) c.fail("silent", "the program fails without an error message\n" + c.what + p.tail());
  std::string o = exists("o") ? slurp("o") : "";
  if (o != want.substr(0, o.size())) c.fail("wrong-output", "what is left is not a prefix of the correct output: " + diffshow(o, want) + "\n" + c.what + p.tail());
  if (whole && (f.txt ? !o.empty() && o.back() != '\n' : o.size() % (f.hs + 4) != 0)) c.fail("torn-output", "what is left ends inside a record: " + std::to_string(o.size()) + " bytes\n" + c.what + p.tail());
}
