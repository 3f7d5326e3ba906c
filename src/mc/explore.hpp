// Exhaustive explorer: enumerates every sequence of answers to Ctx::choose() of a scenario, in parallel
// worker processes, optionally with per-class deviation budgets, one forked child per execution if asked.
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <unordered_set>
#include <vector>

namespace mc {

inline uint64_t fnv(const void* p, std::size_t n, uint64_t h = 1469598103934665603ULL) {
  auto* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i != n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL + (a << 6) + (a >> 2));
  x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 29;
  return x;
}

struct Violation { std::string key, msg; };
struct Infeasible {}; // the choice sequence does not describe a case
// C28: the scenarios of other properties are explored again on programs built with sanitizers; then only what those report counts
inline bool san() { static const bool b = getenv("MC_SAN") != nullptr; return b; }
inline const char* tooldir() { return san() ? "/ts/" : "/t/"; }
inline void san_env(std::vector<char*>& ev) {
  if (!san()) return;
  ev.push_back((char*)"ASAN_OPTIONS=detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:disable_coredump=1");
  ev.push_back((char*)"UBSAN_OPTIONS=halt_on_error=1:abort_on_error=1:print_stacktrace=1");
}
inline void san_report(const std::string& err, const std::string& what) { // what a program said before it died
  if (!san()) return;
  for (auto k: {"Sanitizer", "runtime error: ", "Assertion '"}) if (auto p = err.find(k); p != std::string::npos) throw Violation{"memory", what + ": " + err.substr(p > 40 ? p - 40 : 0, 1500)};
}

// one choice point as executed
struct Point {
  uint16_t n;      // number of alternatives offered
  uint16_t chosen;
};

constexpr std::size_t MAXPTS = 1u << 16;
constexpr int NCNT = 64;

struct Shared { // per worker, MAP_SHARED
  volatile uint32_t npts;
  volatile uint32_t status;     // 0 running, 1 ok, 2 violation, 3 infeasible, 4 done all, 5 harness error
  volatile uint64_t started_ms; // start of the current execution
  volatile uint32_t scenario;
  Point    pts[MAXPTS];
  char     key[512];
  char     msg[1 << 15];
  // per execution results written by the (possibly forked) body
  volatile uint64_t ex_evals, ex_distinct, ex_transitions, ex_keys_n;
  uint64_t ex_keys[4096];
  volatile uint64_t cnt[NCNT]; // accumulated named counters
  char     sample[4096];
  // totals
  volatile uint64_t execs, evals, distinct, transitions, infeasible;
  volatile uint32_t capped;
  volatile uint32_t maxpts;
};

inline uint64_t now_ms() {
  using namespace std::chrono;
  return (uint64_t)duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count();
}

struct Ctx {
  Shared*                      sh = nullptr;
  const std::vector<uint16_t>* prefix = nullptr;
  bool                         thorough = false;
  bool                         want_sample = false;
  bool                         verbose = false;
  int                          budget[4] = {0, 0, 0, 0};
  std::string                  scratch; // private directory of this worker
  std::string                  what;    // human readable description of the case

  // full branching
  int choose(int n) {
    if (n <= 1) return 0;
    uint32_t i = sh->npts;
    if (i >= MAXPTS) { std::fprintf(stderr, "harness: too many choice points\n"); _exit(97); }
    uint16_t c = 0;
    if (i < prefix->size()) {
      c = (*prefix)[i];
      if (c >= n) {
        std::fprintf(stderr, "harness: divergence while replaying a prefix (point %u: %u of %d)\n", i, c, n);
        _exit(98);
      }
    }
    sh->pts[i].n      = (uint16_t)n;
    sh->pts[i].chosen = c;
    sh->npts          = i + 1;
    return c;
  }
  bool flag() { return choose(2) == 1; }
  // any answer but the first costs one deviation of class cls; not offered when the budget is used up
  int deviate(int n, int cls) {
    if (n <= 1 || budget[cls] <= 0) return 0;
    int c = choose(n);
    if (c) --budget[cls];
    return c;
  }
  template <class V> auto& pick(V& v) { return v[(std::size_t)choose((int)v.size())]; }

  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation{key, msg}; }
  void check(bool ok, const std::string& key, const std::string& msg) { if (!ok) fail(key, msg); }
  void evals(uint64_t n, uint64_t distinct_nontrivial) { sh->ex_evals += n; sh->ex_distinct += distinct_nontrivial; }
  void nontrivial(uint64_t h) {
    if (sh->ex_keys_n < 4096) { sh->ex_keys[sh->ex_keys_n] = h; sh->ex_keys_n = sh->ex_keys_n + 1; }
  }
  void step(uint64_t n = 1) { sh->ex_transitions += n; }
  void count(int id, uint64_t n = 1) { sh->cnt[id] += n; }
  void sample(const std::string& s) { std::snprintf(sh->sample, sizeof sh->sample, "%s", s.c_str()); }
};

struct Scenario {
  std::string               prop, name;
  std::function<void(Ctx&)> body;
  bool                      forked = false;   // one process per execution
  bool                      thorough_only = false;
  int                       budget[4] = {0, 0, 0, 0};
  int                       tbudget[4] = {-1, -1, -1, -1};
  int                       splitk = 2;
  int                       exec_limit_s = 30; // an execution longer than this is re-run alone with 4x the limit
  int                       workers = 0;
  bool                      once = false;      // deterministic single execution (no re-partitioning)
};

inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { explicit Reg(Scenario s) { scenarios().push_back(std::move(s)); } };
inline std::vector<std::string>& counter_names() { static std::vector<std::string> v; return v; }
inline int counter(const std::string& n) { counter_names().push_back(n); return (int)counter_names().size() - 1; }

inline std::string jesc(const std::string& s) {
  std::string r;
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r;
}
inline std::string hex(const std::string& s) {
  std::string r; char b[4];
  for (unsigned char c: s) { std::snprintf(b, sizeof b, "%02x", c); r += b; }
  return r;
}

inline Shared* new_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); std::exit(99); }
  return (Shared*)p;
}

// hook: run after every execution in the process that ran the body (e.g. to clean the scratch directory)
inline void run_body(const Scenario& sc, Ctx& c) {
  Shared* sh = c.sh;
  try {
    sc.body(c);
    sh->status = 1;
  } catch (const Violation& v) {
    if (san() && v.key != "memory") { sh->status = 3; return; }
    std::snprintf(sh->key, sizeof sh->key, "%s", v.key.c_str());
    std::snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
    sh->status = 2;
  } catch (const Infeasible&) {
    sh->status = 3;
  } catch (const std::exception& e) {
    if (san()) { sh->status = 3; return; }
    std::snprintf(sh->key, sizeof sh->key, "exception");
    std::snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s [%s]", e.what(), c.what.c_str());
    sh->status = 2;
  }
}

// run one execution; returns status. Forked scenarios: a child that dies is a violation.
inline int one(const Scenario& sc, Ctx& proto, const std::vector<uint16_t>& prefix, bool thorough, int limit_s) {
  Shared* sh = proto.sh;
  sh->npts = 0; sh->status = 0; sh->key[0] = sh->msg[0] = 0;
  sh->ex_evals = sh->ex_distinct = sh->ex_transitions = sh->ex_keys_n = 0;
  sh->started_ms = now_ms();
  auto setup = [&](Ctx& c) {
    c.sh = sh; c.prefix = &prefix; c.thorough = thorough; c.want_sample = proto.want_sample;
    c.scratch = proto.scratch; c.verbose = proto.verbose;
    for (int i = 0; i != 4; ++i) c.budget[i] = (thorough && sc.tbudget[i] >= 0) ? sc.tbudget[i] : sc.budget[i];
  };
  if (!sc.forked) {
    Ctx c; setup(c);
    run_body(sc, c);
  } else {
    std::fflush(stdout); std::fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      Ctx c; setup(c);
      run_body(sc, c);
      _exit(0);
    }
    if (p < 0) { perror("fork"); _exit(99); }
    int st = 0;
    for (uint64_t t0 = now_ms();;) {
      pid_t r = waitpid(p, &st, limit_s ? WNOHANG : 0);
      if (r == p) break;
      if (limit_s && now_ms() - t0 > (uint64_t)limit_s * 1000) {
        kill(p, SIGKILL); waitpid(p, &st, 0);
        sh->status = 6; // timed out
        return 6;
      }
      uint64_t el = now_ms() - t0;
      usleep(el < 20 ? 100 : 2000);
    }
    if (sh->status == 0) {
      if (WIFEXITED(st) && WEXITSTATUS(st) >= 97 && WEXITSTATUS(st) <= 99) _exit(WEXITSTATUS(st));
      std::snprintf(sh->key, sizeof sh->key, "crash");
      if (WIFSIGNALED(st)) std::snprintf(sh->msg, sizeof sh->msg, "execution died from signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
      else std::snprintf(sh->msg, sizeof sh->msg, "execution ended the process with status %d", WEXITSTATUS(st));
      sh->status = 2;
    }
  }
  return (int)sh->status;
}

// DFS over the choice tree, this worker's part
inline void dfs(const Scenario& sc, Ctx& proto, bool thorough, int w, int W, uint64_t deadline_ms,
                std::unordered_set<uint64_t>& keys) {
  Shared*               sh = proto.sh;
  std::vector<uint16_t> prefix;
  const int             K = sc.splitk;
  auto sig_owner = [&](const std::vector<uint16_t>& p) { // first K non-zero answers decide the owner
    uint64_t h = 0x1234567; int k = 0;
    for (std::size_t i = 0; i != p.size() && k != K; ++i)
      if (p[i]) { h = mix(h, i * 65536ULL + p[i]); ++k; }
    return std::pair<int, int>{k, (int)(h % (uint64_t)W)};
  };
  while (true) {
    if (now_ms() > deadline_ms) { sh->capped = 1; return; }
    int st = one(sc, proto, prefix, thorough, sc.forked ? sc.exec_limit_s : 0);
    if (st == 6) { st = one(sc, proto, prefix, thorough, sc.exec_limit_s * 4);
      if (st == 6) {
        std::snprintf(sh->key, sizeof sh->key, "hang");
        std::snprintf(sh->msg, sizeof sh->msg, "execution did not end within %d s", sc.exec_limit_s * 4);
        sh->status = 2; st = 2;
      } }
    if (st == 2) return; // leave everything in shared memory for the parent
    uint32_t n = sh->npts;
    std::vector<uint16_t> full(n);
    for (uint32_t i = 0; i != n; ++i) full[i] = sh->pts[i].chosen;
    if (n > sh->maxpts) sh->maxpts = n;
    if (sig_owner(full).second == w) {
      if (st == 3) sh->infeasible = sh->infeasible + 1;
      else {
        sh->execs = sh->execs + 1;
        sh->evals = sh->evals + (sh->ex_evals ? sh->ex_evals : 1);
        sh->distinct = sh->distinct + sh->ex_distinct;
        sh->transitions = sh->transitions + sh->ex_transitions;
        for (uint64_t i = 0; i != sh->ex_keys_n; ++i) keys.insert(sh->ex_keys[i]);
      }
    }
    // next prefix: last point with an untried alternative that is ours
    std::vector<uint16_t> next;
    bool found = false;
    for (int64_t i = (int64_t)n - 1; i >= 0 && !found; --i) {
      for (uint16_t v = (uint16_t)(full[(std::size_t)i] + 1); v < sh->pts[i].n; ++v) {
        next.assign(full.begin(), full.begin() + i);
        next.push_back(v);
        auto [k, o] = sig_owner(next);
        if (k >= K && o != w) continue;
        found = true;
        break;
      }
    }
    if (!found) return;
    prefix.swap(next);
  }
}

inline void rm_rf(const std::string& d) {
  if (d.find("/.scratch/") == std::string::npos) return; // only ever our own scratch tree
  std::string cmd = "rm -rf -- '" + d + "'";
  if (std::system(cmd.c_str())) {}
}

struct Found { std::string scenario, key, msg; std::vector<uint16_t> choices; int w = 0, W = 1; };

// code under test that allocates without end must not bring the machine down
inline void bound_memory() { if (san()) return; struct rlimit l { (rlim_t)5 << 30, (rlim_t)5 << 30 }; setrlimit(RLIMIT_AS, &l); }
inline int main_(int argc, char** argv) {
  std::string prop, result = "result.json", replay, scratch, only, known_file;
  bool thorough = false, list = false; int W = (int)sysconf(_SC_NPROCESSORS_ONLN); uint64_t cap_s = 600;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = next();
    else if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--result") result = next();
    else if (a == "--replay") replay = next();
    else if (a == "--scratch") scratch = next();
    else if (a == "--workers") W = std::stoi(next());
    else if (a == "--cap") cap_s = (uint64_t)std::stoull(next());
    else if (a == "--only") only = next();
    else if (a == "--known") known_file = next();
    else if (a == "--list") list = true;
  }
  if (W > 8) W = 8;
  if (list) { for (auto& s: scenarios()) std::printf("%s %s\n", s.prop.c_str(), s.name.c_str()); return 0; }
  if (scratch.find("/.scratch/") == std::string::npos) { std::fprintf(stderr, "need --scratch under a .scratch directory\n"); return 99; }
  signal(SIGPIPE, SIG_IGN);

  if (!replay.empty()) { // file: scenario line, then choices
    std::ifstream f(replay);
    std::string   tier, name, line; std::vector<uint16_t> ch; int rw = 0, rW = 1;
    while (std::getline(f, line)) {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "scenario") { std::getline(is >> std::ws, name); }
      else if (k == "tier") is >> tier;
      else if (k == "worker") is >> rw >> rW;
      else if (k == "choices") { unsigned v; while (is >> v) ch.push_back((uint16_t)v); }
    }
    for (auto& s: scenarios()) if (s.name == name && (prop.empty() || s.prop == prop)) {
      Shared* sh = new_shared();
      Ctx c; c.sh = sh; c.scratch = scratch + "/replay"; c.want_sample = true; c.verbose = getenv("MC_VERBOSE");
      rm_rf(c.scratch); mkdir(c.scratch.c_str(), 0777); if (chdir(c.scratch.c_str())) return 99;
      Scenario t = s; t.forked = true;
      int st = one(t, c, ch, tier == "thorough", t.exec_limit_s * 4);
      if (chdir("/")) {}
      rm_rf(scratch + "/replay");
      if (st == 2) { std::printf("REPRODUCED %s: %s\n", sh->key, sh->msg); return 1; }
      if (st == 6) { std::printf("REPRODUCED hang\n"); return 1; }
      if (!s.forked) { // the failure may need the executions before it in the same process
        mkdir(scratch.c_str(), 0777); mkdir(c.scratch.c_str(), 0777); if (chdir(c.scratch.c_str())) return 99;
        std::fflush(stdout);
        sh->status = 0;
        pid_t p = fork();
        if (p == 0) {
          prctl(PR_SET_PDEATHSIG, SIGKILL); bound_memory();
          std::unordered_set<uint64_t> keys;
          dfs(s, c, tier == "thorough", rw, rW, now_ms() + cap_s * 1000, keys);
          if (sh->status != 2) sh->status = 4;
          _exit(0);
        }
        int ws; waitpid(p, &ws, 0);
        if (chdir("/")) {}
        rm_rf(scratch + "/replay");
        if (sh->status != 4) { std::printf("REPRODUCED after the executions before it: %s: %s\n", sh->key, sh->msg); return 1; }
      }
      std::printf("not reproduced (status %d)\n", st); return 0;
    }
    std::fprintf(stderr, "unknown scenario %s\n", name.c_str()); return 99;
  }

  uint64_t t0 = now_ms();
  std::vector<Found> found;
  std::ostringstream js_sc;
  uint64_t T_ex = 0, T_ev = 0, T_dis = 0, T_tr = 0, T_inf = 0; bool exhaustive = true;
  std::vector<std::string> samples;
  std::vector<uint64_t> cnts(NCNT, 0);
  std::unordered_set<uint64_t> allkeys;
  bool first_sc = true; uint64_t T_keys = 0;
  uint32_t scidx = 0;
  for (auto& sc: scenarios()) {
    if (sc.prop != prop) continue;
    if (!only.empty() && ("|" + only + "|").find("|" + sc.name + "|") == std::string::npos) continue;
    if (sc.thorough_only && !thorough) continue;
    if (!found.empty()) break;
    ++scidx;
    uint64_t s0 = now_ms();
    int w_n = sc.once ? 1 : (sc.workers ? std::min(sc.workers, W) : W);
    std::vector<Shared*> sh; std::vector<pid_t> pid;
    std::string base = scratch + "/" + prop + "." + std::to_string(getpid());
    mkdir(base.c_str(), 0777);
    std::fflush(stdout); std::fflush(stderr);
    for (int w = 0; w != w_n; ++w) {
      sh.push_back(new_shared());
      std::string dir = base + "/w" + std::to_string(w);
      mkdir(dir.c_str(), 0777);
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL); bound_memory();
        if (chdir(dir.c_str())) _exit(99);
        Ctx c; c.sh = sh[(std::size_t)w]; c.scratch = dir; c.want_sample = true;
        std::unordered_set<uint64_t> keys;
        dfs(sc, c, thorough, w, w_n, t0 + cap_s * 1000, keys);
        std::ofstream kf(base + "/keys" + std::to_string(w), std::ios::binary);
        for (uint64_t k: keys) kf.write((char*)&k, 8);
        kf.close();
        if (c.sh->status != 2) c.sh->status = 4;
        _exit(0);
      }
      pid.push_back(p);
    }
    std::vector<bool> done((std::size_t)w_n, false);
    auto take = [&](std::size_t w, const std::string& key, const std::string& msg) {
      Found f; f.scenario = sc.name; f.key = key; f.msg = msg; f.w = (int)w; f.W = w_n;
      for (uint32_t i = 0; i != sh[w]->npts; ++i) f.choices.push_back(sh[w]->pts[i].chosen);
      found.push_back(f);
    };
    int left = w_n;
    while (left) {
      int st; bool any = false;
      for (std::size_t w = 0; w != (std::size_t)w_n; ++w) {
        if (done[w]) continue;
        if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
          any = true; done[w] = true; --left;
          if (WIFEXITED(st) && WEXITSTATUS(st) >= 97 && WEXITSTATUS(st) <= 99) {
            for (std::size_t x = 0; x != (std::size_t)w_n; ++x) if (!done[x]) { kill(pid[x], SIGKILL); waitpid(pid[x], &st, 0); }
            std::fprintf(stderr, "harness error in scenario %s\n", sc.name.c_str());
            if (chdir("/")) {}
            rm_rf(base);
            return 97;
          }
          if (sh[w]->status == 2) take(w, sh[w]->key, sh[w]->msg);
          else if (sh[w]->status != 4) {
            std::string m = WIFSIGNALED(st) ? "died from signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"
                                            : "ended the process with status " + std::to_string(WEXITSTATUS(st));
            take(w, "crash", "the code under test " + m);
          }
        } else if (!sc.forked && sh[w]->status == 0 && sh[w]->started_ms && (int64_t)(now_ms() - sh[w]->started_ms) > (int64_t)sc.exec_limit_s * 4000) {
          kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); done[w] = true; --left; any = true;
          take(w, "hang", "execution did not end within " + std::to_string(sc.exec_limit_s * 4) + " s");
        }
      }
      if (!found.empty()) {
        for (std::size_t w = 0; w != (std::size_t)w_n; ++w) if (!done[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); done[w] = true; --left; }
        break;
      }
      if (!any) usleep(3000);
    }
    uint64_t ex = 0, ev = 0, dis = 0, tr = 0, inf = 0; bool capped = false; uint32_t mp = 0;
    std::unordered_set<uint64_t> keys;
    for (std::size_t w = 0; w != (std::size_t)w_n; ++w) {
      ex += sh[w]->execs; ev += sh[w]->evals; dis += sh[w]->distinct; tr += sh[w]->transitions; inf += sh[w]->infeasible;
      capped |= sh[w]->capped != 0; mp = std::max(mp, (uint32_t)sh[w]->maxpts);
      for (int i = 0; i != NCNT; ++i) cnts[(std::size_t)i] += sh[w]->cnt[i];
      if (sh[w]->sample[0] && samples.size() < 12) samples.push_back(sc.name + ": " + sh[w]->sample);
      std::ifstream kf(base + "/keys" + std::to_string(w), std::ios::binary);
      uint64_t k; while (kf.read((char*)&k, 8)) keys.insert(mix(k, scidx));
    }
    for (auto k: keys) allkeys.insert(k);
    T_ex += ex; T_ev += ev; T_dis += dis; T_tr += tr; T_inf += inf; if (capped) exhaustive = false;
    js_sc << (first_sc ? "" : ",") << "\"" << jesc(sc.name) << "\":{\"executions\":" << ex << ",\"evaluations\":" << ev
          << ",\"distinct_nontrivial\":" << dis + keys.size() << ",\"steps\":" << tr << ",\"pruned\":" << inf << ",\"max_choice_points\":" << mp
          << ",\"capped\":" << (capped ? "true" : "false") << ",\"wall_s\":" << (double)(now_ms() - s0) / 1000.0 << "}";
    first_sc = false;
    for (auto* s: sh) munmap(s, sizeof(Shared));
    rm_rf(base);
  }
  T_keys = allkeys.size();
  std::ofstream o(result);
  o << "{\"executions\":" << T_ex << ",\"evaluations\":" << T_ev << ",\"distinct_nontrivial\":" << T_dis + T_keys << ",\"steps\":" << T_tr
    << ",\"pruned\":" << T_inf << ",\"exhaustive\":" << (exhaustive && found.empty() ? "true" : "false") << ",\"scenarios\":{" << js_sc.str() << "},\"counters\":{";
  bool f1 = true;
  for (std::size_t i = 0; i != counter_names().size(); ++i) if (cnts[i]) { o << (f1 ? "" : ",") << "\"" << counter_names()[i] << "\":" << cnts[i]; f1 = false; }
  o << "},\"samples\":[";
  for (std::size_t i = 0; i != samples.size(); ++i) o << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
  o << "],\"violations\":[";
  for (std::size_t i = 0; i != found.size(); ++i) {
    auto& f = found[i];
    o << (i ? "," : "") << "{\"scenario\":\"" << jesc(f.scenario) << "\",\"key\":\"" << jesc(f.key) << "\",\"msg\":\"" << jesc(f.msg) << "\",\"worker\":[" << f.w << "," << f.W << "],\"choices\":[";
    for (std::size_t j = 0; j != f.choices.size(); ++j) o << (j ? "," : "") << f.choices[j];
    o << "]}";
  }
  o << "],\"wall_s\":" << (double)(now_ms() - t0) / 1000.0 << "}\n";
  o.close();
  return found.empty() ? 0 : 1;
}

} // namespace mc
