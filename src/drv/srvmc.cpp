// C18: the server's request handler called from several threads under the controlled scheduler.
#include <restinio/http_server_run.hpp>
#include "dnl/sched.hpp"
#include "drv/toolkit.hpp"
#include <sched.h>
#include <thread>
int srv_main(int, char**);

void SrvConn::write_response_parts(restinio::request_id_t, restinio::response_output_flags_t, restinio::write_group_t wg) {
  for (auto& it: wg.items()) if (it.write_type() == restinio::writable_item_type_t::trivial_write_operation) { auto b = it.buf(); out->append((const char*)b.data(), b.size()); }
}
constexpr int MT = 4, MR = 3;
struct Slot { volatile int done, accepted; uint32_t len; char resp[1024]; };
struct Blk { sched::Report rep; Slot s[MT][MR]; volatile int served, returned, code; };
static std::vector<std::vector<std::string>> todo; // per thread: request targets
static Blk* B;
static bool with_races = true;
void srv_run(std::size_t, const srv_one& one) {
  B->served = B->served + 1;
  std::vector<std::thread> th;
  for (std::size_t t = 0; t != todo.size(); ++t) th.emplace_back([&one, t] {
    for (std::size_t i = 0; i != todo[t].size(); ++i) {
      std::string r; Slot& s = B->s[t][i]; s.accepted = one((int)t, todo[t][i], &r); s.len = (uint32_t)std::min(r.size(), sizeof s.resp); memcpy(s.resp, r.data(), s.len); s.done = 1;
    }
  });
  for (auto& t: th) t.join();
}
static Blk* blk() { static Blk* b = nullptr; static pid_t owner = 0; if (owner != getpid()) { b = (Blk*)mmap(nullptr, sizeof(Blk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (b == MAP_FAILED) _exit(99); owner = getpid(); } return b; }
static int capf() { static int f = -1; static pid_t owner = 0; if (owner != getpid()) { f = memfd_create("cap", MFD_CLOEXEC); owner = getpid(); } return f; }
static int n_points = counter("scheduling_points"), n_pre = counter("preemptions"), n_races = counter("accesses_checked_for_races"), n_req = counter("requests_answered");

struct Q { std::string name, target; int status; std::string body; }; // what the request is answered with when it is alone
static void serve(Ctx& c, std::vector<std::string> args, const std::vector<std::vector<Q>>& qs) {
  Blk* b = blk(); memset(b, 0, sizeof *b); int f = capf(); if (ftruncate(f, 0)) _exit(99); lseek(f, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int z = open("/dev/null", O_RDWR); dup2(z, 0); dup2(z, 1); dup2(f, 2); close(z);
    struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
    if (long nc = sysconf(_SC_NPROCESSORS_ONLN); nc > 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(c.scratch.c_str() + c.scratch.rfind('w') + 1) % (int)nc, &s); sched_setaffinity(0, sizeof s, &s); }
    std::vector<char*> av; for (auto& a: args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    todo.clear(); for (auto& t: qs) { todo.emplace_back(); for (auto& q: t) todo.back().push_back(q.target); }
    B = b; sched::no_race_check = !with_races; sched::max_points = 400000; alarm(30);
    sched::start(c, &b->rep); shim_hook = sched::io_point;
    int r = srv_main((int)args.size(), av.data());
    shim_hook = nullptr; sched::stop(); b->code = r; b->returned = 1; _exit(r & 127);
  }
  if (pid < 0) { perror("fork"); _exit(99); }
  int st; while (waitpid(pid, &st, 0) != pid) {}
  c.count(n_points, b->rep.points); c.count(n_pre, b->rep.preemptions); c.count(n_races, b->rep.races_checked); c.step(b->rep.points);
  std::string err = slurp_fd(f);
  if (WIFEXITED(st) && WEXITSTATUS(st) >= 97 && WEXITSTATUS(st) <= 99) { fprintf(stderr, "%s\n", err.c_str()); _exit(WEXITSTATUS(st)); }
  if (b->rep.infeasible) throw Infeasible{};
  std::string show = c.what + "\n"; for (auto& a: args) show += a + " ";
  for (std::size_t t = 0; t != qs.size(); ++t) { show += "\nthread " + std::to_string(t) + ":"; for (auto& q: qs[t]) show += " GET " + q.target + ";"; }
  show += "\n" + std::to_string(b->rep.preemptions) + " preemptions\nstderr: " + err.substr(0, 400);
  if (b->rep.key[0]) c.fail(b->rep.key, std::string(b->rep.msg) + "\n" + show);
  if (WIFSIGNALED(st)) c.fail(WTERMSIG(st) == SIGALRM ? "hang" : "crash", std::string("the server ") + (WTERMSIG(st) == SIGALRM ? "does not go on" : strsignal(WTERMSIG(st))) + "\n" + show);
  if (!b->served) { if (b->returned) c.fail("no-start", "the server does not start: exit status " + std::to_string(b->code) + "\n" + show); c.fail("crash", "the server ends before serving\n" + show); }
  if (!b->returned) c.fail("crash", "the server ends while serving\n" + show);
  for (std::size_t t = 0; t != qs.size(); ++t) for (std::size_t i = 0; i != qs[t].size(); ++i) {
    Slot& s = b->s[t][i]; const Q& q = qs[t][i]; std::string r(s.resp, s.len); int code = r.size() > 12 ? atoi(r.c_str() + 9) : 0; auto e = r.find("\r\n\r\n"); std::string body = e == std::string::npos ? "" : r.substr(e + 4);
    bool good = s.done && s.accepted && (q.status == 200 ? code == 200 && body == q.body : code >= 400);
    if (!good) c.fail("answer", "GET " + q.target + " alone is answered with " + std::to_string(q.status) + " " + q.body + ", here with " + std::to_string(code) + " " + body + (s.done ? "" : " (not answered)") + "\n" + show);
    c.count(n_req);
  }
  for (int i = 0; i != 4; ++i) c.budget[i] = b->rep.budget_left[i];
}
// databases of R records, in all prefixes of 15 bits up to R/8, and some passwords
static const std::vector<std::string> PWS{"alpha", "beta 2", "gamma"};
static ref::DB make(const Ty& t, unsigned R) {
  ref::DB d; for (unsigned i = 0; i != R; ++i) { ref::R r; uint32_t p = i / 8; std::string h(t.hs, '\0'); h[0] = (char)(p >> 7); h[1] = (char)(p << 1); h[t.hs - 1] = (char)(i % 8 * 2 + 1); r.h = h; r.c = (int32_t)(i * 3 + 1 + t.hs * 10000); d.push_back(r); }
  for (auto& w: PWS) { std::string h = t.hs == 16 ? ref::ntlm(w) : ref::sha1(w).substr(0, t.hs); d.push_back({h, (int32_t)(w.size() * 1000 + t.hs)}); }
  std::sort(d.begin(), d.end(), ref::byhash); return d;
}
static const unsigned R = 1200;
static void files(bool) { if (!exists("s.bin")) { put("s.bin", ref::bin(make(SHA, R))); put("n.bin", ref::bin(make(NT, R))); put("t.bin", ref::bin(make(T64, R))); } }
static void tocfiles() { // dense: no password records
  if (exists("sd.bin")) return;
  auto dense = [](const Ty& t) { ref::DB d = make(t, R), o; for (auto& r: d) { uint32_t p = (unsigned char)r.h[0] << 7 | (unsigned char)r.h[1] >> 1; if (p < R / 8) o.push_back(r); } return ref::bin(o); };
  put("sd.bin", dense(SHA)); put("nd.bin", dense(NT)); put("td.bin", dense(T64));
}
static Q look(const Ty& t, unsigned i, bool present, const std::string& nm, bool json) {
  ref::DB d; static std::map<std::size_t, ref::DB> all; if (!all.count(t.hs)) all[t.hs] = make(t, R);
  std::string h; int32_t cnt = -1; ref::R r; uint32_t p = i / 8; h.assign(t.hs, '\0'); h[0] = (char)(p >> 7); h[1] = (char)(p << 1); h[t.hs - 1] = (char)(i % 8 * 2 + (present ? 1 : 2));
  for (auto& x: all[t.hs]) if (x.h == h) cnt = x.c;
  return {nm, std::string("/check/") + t.name + "/" + ref::hexup(h), 200, json ? "{count:" + std::to_string(cnt) + "}\n" : std::to_string(cnt) + "\n"};
}
static std::vector<Q> alphabet(bool toc, bool json, int size) {
  std::vector<Q> v{look(SHA, 3, true, "sha1 low", json), look(SHA, R - 5, true, "sha1 high", json)};
  if (size > 2) { v.push_back(look(NT, 700, true, "ntlm", json)); v.push_back(look(SHA, 600, false, "sha1 absent", json)); }
  if (size > 4) { v.push_back(look(T64, 900, true, "sha1t64", json)); v.push_back(toc ? look(NT, 20, false, "ntlm absent", json) : Q{"plain", "/check/plain/beta%202", 200, json ? "{count:6020}\n" : "6020\n"}); }
  if (size > 6) { v.push_back(look(T64, 10, true, "sha1t64 low", json)); v.push_back({"malformed", "/check/sha1/123", 400, ""}); v.push_back({"unknown", "/check/md5/123", 404, ""}); v.push_back(look(NT, 5, true, "ntlm low", json)); }
  return v;
}
static std::vector<std::string> cmd(bool toc, bool json) {
  std::vector<std::string> a{"hibp-server"}; std::string d = toc ? "d" : "";
  for (auto [o, f]: std::vector<std::pair<const char*, const char*>>{{"--sha1-db", "s"}, {"--ntlm-db", "n"}, {"--sha1t64-db", "t"}}) { a.push_back(o); a.push_back(f + d + ".bin"); }
  if (toc) { a.push_back("--toc"); a.push_back("--toc-bits"); a.push_back("15"); }
  if (json) a.push_back("--json");
  return a;
}
static void conc(Ctx& c, int threads, int each, int size, int tsize) {
  bool toc = c.flag(), json = c.thorough && c.flag(); auto al = alphabet(toc, json, c.thorough ? tsize : size); std::vector<std::vector<Q>> qs;
  if (toc) tocfiles(); else files(false);
  for (int t = 0; t != threads; ++t) { qs.emplace_back(); for (int i = 0; i != each; ++i) qs.back().push_back(c.pick(al)); }
  c.what = std::string(toc ? "with" : "without") + " table of contents:"; for (auto& t: qs) { c.what += " ["; for (auto& q: t) c.what += (q.name.c_str()) + std::string(&q == &t.back() ? "]" : ", "); }
  uint64_t p0 = c.sh->cnt[n_points]; serve(c, cmd(toc, json), qs); c.evals((uint64_t)(threads * each), 0); c.nontrivial(mix(fnv(c.what), c.sh->npts * 977 + (c.sh->cnt[n_points] - p0)));
  c.sample(c.what + ": " + std::to_string(c.sh->cnt[n_points] - p0) + " scheduling points");
}
static Reg r0({.prop = "C18", .name = "two requests", .body = [](Ctx& c) { conc(c, 2, 1, 6, 10); }, .budget = {1, 0, 0, 0}, .tbudget = {2, 0, 0, 0}, .splitk = 4});
static Reg r1({.prop = "C18", .name = "two requests, closely", .body = [](Ctx& c) { conc(c, 2, 1, 2, 4); }, .budget = {2, 0, 0, 0}, .tbudget = {3, 0, 0, 0}, .splitk = 4});
static Reg r2({.prop = "C18", .name = "two requests each", .body = [](Ctx& c) { conc(c, 2, 2, 2, 4); }, .budget = {1, 0, 0, 0}, .tbudget = {1, 0, 0, 0}, .splitk = 5});
static Reg r3({.prop = "C18", .name = "three requests", .body = [](Ctx& c) { conc(c, 3, 1, 2, 6); }, .budget = {1, 0, 0, 0}, .tbudget = {1, 0, 0, 0}, .splitk = 5});
int main(int argc, char** argv) { return mc::main_(argc, argv); }
