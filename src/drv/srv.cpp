// C17 and the server's part of C24: the real server, asked over a loopback connection.
#include "drv/toolkit.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <sys/socket.h>
#include <thread>

static int n_req = counter("requests_answered"), n_conn = counter("connections"), n_srv = counter("servers_started"), n_faults = counter("reads_failed");
struct Resp { int status = 0; std::string body, raw; };
struct Srv {
  Ctx& c; std::vector<std::string> args; pid_t pid = -1; int fd = -1; int port = 0; std::string what; ShimCtl* ctl = nullptr; std::string trace; int errfd = -1;
  Srv(Ctx& c, std::vector<std::string> a, bool shim = false) : c(c), args(std::move(a)) { for (auto& x: args) what += (what.empty() ? "" : " ") + x; start(shim); }
  ~Srv() { stop(); }
  std::string stderr_() { return errfd >= 0 ? slurp_fd(errfd) : ""; }
  void stop() { if (fd >= 0) close(fd); fd = -1; if (pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); } pid = -1; if (errfd >= 0) close(errfd); errfd = -1; }
  bool alive() { int st; if (pid > 0 && waitpid(pid, &st, WNOHANG) == pid) { pid = -1; return false; } return pid > 0; }
  static bool free_port(int p) { int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)p); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); bool ok = bind(s, (sockaddr*)&a, sizeof a) == 0 && listen(s, 1) == 0; close(s); return ok; }
  bool dial() {
    if (fd >= 0) close(fd);
    fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons((uint16_t)port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    struct linger lg{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &lg, sizeof lg); // no ports left waiting
    if (connect(fd, (sockaddr*)&a, sizeof a) == 0) { c.count(n_conn); return true; }
    close(fd); fd = -1; return false;
  }
  void start(bool shim) {
    static int next = 0; int w = atoi(c.scratch.c_str() + c.scratch.rfind('w') + 1); std::string err;
    for (int tries = 0; tries != 200; ++tries) {
      port = 20000 + (w % 16) * 700 + (next + (int)getpid()) % 700; next++; if (!free_port(port)) continue;
      if (errfd >= 0) close(errfd);
      errfd = memfd_create("err", MFD_CLOEXEC); int sfd = -1; if (shim) { ctl = ctl_map(sfd); memset(ctl, 0, sizeof *ctl); }
      std::vector<std::string> av{args}; av.push_back("--bind-address"); av.push_back("127.0.0.1"); av.push_back("--port"); av.push_back(std::to_string(port));
      std::vector<char*> v; for (auto& x: av) v.push_back((char*)x.c_str()); v.push_back(nullptr);
      std::string exe = std::string(getenv("BUILD") ? getenv("BUILD") : "/verif/.build") + tooldir() + "hibp-server", senv = "HIBP_SHIM_FD=" + std::to_string(sfd);
      std::vector<char*> ev{(char*)"LC_ALL=C", (char*)"PATH=/usr/bin:/bin"}; if (shim) ev.push_back((char*)senv.c_str()); san_env(ev); ev.push_back(nullptr);
      pid = fork();
      if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); int z = open("/dev/null", O_RDWR); dup2(z, 0); dup2(z, 1); dup2(errfd, 2); signal(SIGPIPE, SIG_DFL); struct rlimit big{512 << 20, 512 << 20}; setrlimit(RLIMIT_FSIZE, &big); struct rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core); execve(exe.c_str(), v.data(), ev.data()); _exit(127); }
      for (uint64_t t0 = now_ms(); now_ms() - t0 < 30000;) { if (!alive()) break; if (dial()) { usleep(200); if (alive()) { c.count(n_srv); return; } break; } usleep(300); }
      err = stderr_(); san_report(err, "hibp-server " + what);
      if (alive()) { stop(); c.fail("no-start", "the server does not answer\n" + what + "\nstderr: " + err); }
      if (err.find("already in use") == std::string::npos && err.find("bind") == std::string::npos) { pid = -1; c.fail("no-start", "the server ends instead of serving\n" + what + "\nstderr: " + err); }
    }
    std::fprintf(stderr, "no free port: %s\n", err.c_str()); _exit(97);
  }
  Resp once(const std::string& target, bool& closed, const char* method) {
    Resp r; closed = false; std::string q = std::string(method) + " " + target + " HTTP/1.1\r\nHost: localhost\r\n\r\n"; if (fd < 0 && !dial()) { closed = true; return r; }
    if (send(fd, q.data(), q.size(), MSG_NOSIGNAL) != (ssize_t)q.size()) { closed = true; return r; }
    std::string& b = r.raw; char buf[8192]; std::size_t hdr = std::string::npos, need = 0; bool close_after = false;
    for (uint64_t t0 = now_ms();;) {
      if (hdr != std::string::npos && b.size() >= hdr + need) break;
      pollfd pf{fd, POLLIN, 0}; if (poll(&pf, 1, 10000) <= 0) { if (now_ms() - t0 > 60000) break; if (!alive()) { closed = true; break; } continue; }
      ssize_t k = recv(fd, buf, sizeof buf, 0); if (k <= 0) { closed = true; break; } b.append(buf, (std::size_t)k);
      if (hdr == std::string::npos && (hdr = b.find("\r\n\r\n")) != std::string::npos) {
        hdr += 4; std::string h = b.substr(0, hdr); for (auto& x: h) x = (char)tolower(x); auto p = h.find("content-length:"); if (p != std::string::npos) need = (std::size_t)atol(h.c_str() + p + 15); close_after = h.find("connection: close") != std::string::npos; if (b.size() > 12) r.status = atoi(b.c_str() + 9);
      }
    }
    if (hdr != std::string::npos) r.body = b.substr(hdr, need); if (close_after || closed) { close(fd); fd = -1; }
    return r;
  }
  Resp get(const std::string& target, const char* method = "GET") {
    bool closed; Resp r = once(target, closed, method);
    if (!r.status && closed && alive()) r = once(target, closed, method); // the server had closed the connection
    if (trace.size() > 3000) trace.erase(0, 1500); trace += target.substr(0, 200) + " -> " + std::to_string(r.status) + " " + r.body + (r.body.empty() || r.body.back() != '\n' ? "\n" : "");
    if (!alive()) san_report(stderr_(), "hibp-server, GET " + target + "\n" + what);
    if (!alive()) c.fail("crash", "the server dies: " + target + "\n" + what + "\nbefore:\n" + trace + "\nstderr: " + stderr_());
    c.count(n_req); c.step(); return r;
  }
};
struct Q { std::string target; int status; std::string body; std::string alt; }; // status 0: any answer will do (the network library rejects what is not UTF-8 by itself, closing the connection); 400: any error status
static std::string trim(std::string s) { while (s.size() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
static void ask(Srv& s, const Q& q) {
  Resp r = s.get(q.target);
  bool good = q.status == 0 ? true : q.status == 400 ? r.status >= 400 && r.status < 600 : (r.status == 200 && trim(r.body) == q.body) || (q.status == 201 && r.status >= 400); // 201: the answer or an error
  if (!good) s.c.fail("answer", "GET " + q.target + " -> " + std::to_string(r.status) + " '" + trim(r.body) + "', expected " + (q.status == 400 ? "an error status" : "'" + q.body + "'") + "\n" + s.what + "\nbefore:\n" + s.trace + "stderr: " + s.stderr_());
}
static std::string enc(const std::string& pw, bool lower = false) { std::string o; char b[4]; for (unsigned char ch: pw) if (isalnum(ch) || ch == '-' || ch == '_' || ch == '.' || ch == '~') o += (char)ch; else { snprintf(b, sizeof b, lower ? "%%%02x" : "%%%02X", ch); o += b; } return o; }
static std::string val(int n, bool json) { return json ? "{count:" + std::to_string(n) + "}" : std::to_string(n); }
static int cpus() { static int n = (int)std::thread::hardware_concurrency(); return n; }

struct Db { const Ty* t; std::string file; std::map<std::string, int> m; };
static std::string ph(const Ty& t, const std::string& pw) { return t.hs == 16 ? ref::ntlm(pw) : ref::sha1(pw).substr(0, t.hs); }
static const std::vector<std::string> PWS{"password123", "beta 2", "a/b", "50%", "a+b", "p\xC3\xA4ss", "\xF0\x9F\x98\x80", "x?y#z", "count:1", "%41"};
// R records; dense: one for each prefix of 15 bits besides
static Db make(const Ty& t, unsigned R, bool dense, const std::vector<std::string>& pws) {
  Db d{&t, std::string(t.name) + (dense ? "d" : "") + std::to_string(R) + "_" + std::to_string(pws.size()) + ".bin", {}};
  for (unsigned i = 0; i != R; ++i) { std::string h(t.hs, '\0'); h[0] = (char)(i * 37 >> 4); h[1] = (char)(i * 29); h[2] = (char)(i >> 8); h[3] = (char)i; h[t.hs - 1] = (char)(i * 2 + 1); d.m[h] = (int)(i * 5 + t.hs * 100000); }
  if (dense) for (unsigned p = 0; p != 32768; ++p) { std::string h(t.hs, '\0'); h[0] = (char)(p >> 7); h[1] = (char)(p << 1); h[2] = 7; d.m[h] = (int)p; }
  int k = 0; for (auto& w: pws) d.m[ph(t, w)] = (int)(t.hs * 1000 + (unsigned)k++);
  if (!exists(d.file)) { std::string s; for (auto& [h, n]: d.m) s += ref::bin(ref::R{h, n}); put(d.file, s); }
  return d;
}
struct Conf { std::vector<Db> dbs; bool json, toc; int threads; std::vector<std::string> args() const { std::vector<std::string> a{"hibp-server"}; for (auto& d: dbs) { a.push_back(std::string("--") + d.t->name + "-db"); a.push_back(d.file); } if (json) a.push_back("--json"); if (toc) { a.push_back("--toc"); a.push_back("--toc-bits"); a.push_back("15"); } a.push_back("--threads"); a.push_back(std::to_string(threads)); return a; }
  const Db* has(const Ty& t) const { for (auto& d: dbs) if (d.t == &t) return &d; return nullptr; }
  const Db* plain() const { for (auto* t: {&SHA, &NT, &T64}) if (auto* d = has(*t)) return d; return nullptr; } };
static const Ty* TYS[] = {&SHA, &NT, &T64};
static Q by_hash(const Conf& f, const Ty& t, const std::string& h) { auto* d = f.has(t); std::string u = std::string("/check/") + t.name + "/" + ref::hexup(h); if (!d) return {u, 400, "", ""}; auto i = d->m.find(h); return {u, 200, val(i == d->m.end() ? -1 : i->second, f.json), ""}; }
static Q by_pw(const Conf& f, const std::string& pw, bool lower = false) {
  std::string u = "/check/plain/" + enc(pw, lower); auto* d = f.plain(); if (!d) return {u, 400, "", ""};
  if (!ref::utf16le(pw)) return {u, 0, "", ""};
  auto i = d->m.find(ph(*d->t, pw)); return {u, 200, val(i == d->m.end() ? -1 : i->second, f.json), ""};
}
static Conf conf(Ctx& c, unsigned R, const std::vector<std::string>& pws) {
  Conf f; int mask = c.choose(7) + 1; f.json = c.flag(); f.toc = c.flag(); f.threads = c.flag() ? std::min(2, cpus()) : 1;
  for (int i = 0; i != 3; ++i) if (mask >> i & 1) f.dbs.push_back(make(*TYS[i], R, f.toc, pws));
  return f;
}
static std::vector<Q> alphabet(const Conf& f, bool small) {
  std::vector<Q> v;
  for (auto* t: TYS) { Db tmp; const Db* d = f.has(*t); if (!d) { tmp.m[std::string(t->hs, 'A')] = 1; d = &tmp; v.push_back(by_hash(f, *t, std::string(t->hs, 'A'))); }
    else { auto mid = std::next(d->m.begin(), (long)d->m.size() / 2); std::string ab = mid->first; ab[t->hs - 1] ^= 0x40; v.push_back(by_hash(f, *t, d->m.begin()->first)); v.push_back(by_hash(f, *t, ab)); if (!small) { v.push_back(by_hash(f, *t, mid->first)); v.push_back(by_hash(f, *t, d->m.rbegin()->first)); v.push_back(by_hash(f, *t, std::string(t->hs, '\xff'))); } v.push_back({std::string("/check/") + t->name + "/" + ref::hexup(mid->first).substr(1), 400, "", ""}); }
    if (!small) { v.push_back({std::string("/check/") + t->name + "/" + std::string(t->hs * 2, 'G'), 400, "", ""}); } }
  v.push_back(by_pw(f, PWS[0])); v.push_back(by_pw(f, "no such")); v.push_back({"/check/md5/00", 400, "", ""}); v.push_back({"/", 400, "", ""});
  if (!small) { v.push_back(by_pw(f, PWS[1])); v.push_back(by_pw(f, PWS[5])); v.push_back({"/check/plain", 400, "", ""}); v.push_back({"/check/sha1/", 400, "", ""}); }
  return v;
}
// a cyclic sequence of k symbols that contains every sequence of n of them
static std::vector<int> de_bruijn(int k, int n) { std::vector<int> a((std::size_t)(k * n + 1)), s; std::function<void(int, int)> db = [&](int t, int p) { if (t > n) { if (n % p == 0) for (int j = 1; j <= p; ++j) s.push_back(a[(std::size_t)j]); } else { a[(std::size_t)t] = a[(std::size_t)(t - p)]; db(t + 1, p); for (int j = a[(std::size_t)(t - p)] + 1; j < k; ++j) { a[(std::size_t)t] = j; db(t + 1, t); } } }; db(1, 1); for (int i = 0; i + 1 < n; ++i) s.push_back(s[(std::size_t)i]); return s; }

static void histories(Ctx& c) { // every sequence of two requests (small alphabet: three)
  Conf f = conf(c, 700, PWS); bool three = c.flag(); auto al = alphabet(f, three); Srv s(c, f.args());
  auto seq = de_bruijn((int)al.size(), three ? (c.thorough ? 4 : 3) : (c.thorough ? 3 : 2)); if (seq.size() > 60000) seq.resize(60000);
  for (int i: seq) ask(s, al[(std::size_t)i]);
  c.evals(seq.size(), seq.size()); c.sample(s.what + ": " + std::to_string(seq.size()) + " requests, every sequence of " + (three ? "three" : "two"));
}
static void plain(Ctx& c) { // every byte in a password, percent-encoded
  static std::vector<std::string> all = [] { std::vector<std::string> v(PWS); for (int b = 0; b != 256; ++b) for (int k = 0; k != 4; ++k) { std::string s = k == 0 ? "" : k == 1 ? "ab" : k == 2 ? "" : "x"; s += (char)b; if (k > 1) s += "c9"; if (ref::utf16le(s)) v.push_back(s); } for (uint32_t cp: {0x80u, 0x7FFu, 0x800u, 0xFFFDu, 0x10000u, 0x10FFFFu, 0x20ACu}) v.push_back("a" + ref::utf8(cp) + "b"); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }();
  static std::vector<std::string> some = [] { std::vector<std::string> v; for (std::size_t i = 0; i < all.size(); i += 1) if (i % 3) v.push_back(all[i]); return v; }();
  Conf f = conf(c, 50, some); Srv s(c, f.args()); uint64_t n = 0;
  for (auto& w: all) { ask(s, by_pw(f, w)); ask(s, by_pw(f, w, true)); n += 2; }
  for (int b = 0; b != 256; ++b) { std::string w = "ab"; w += (char)b; ask(s, by_pw(f, w)); ++n; } // not UTF-8, too
  for (unsigned char b = 33; b != 127; ++b) if (!strchr("/?#%", b)) { std::string w; w += (char)b; w += "c9"; Q q = by_pw(f, w); q.target = "/check/plain/" + w; ask(s, q); ++n; } // unencoded
  for (auto* w: {"%", "a%", "a%4", "%zz", "%4g", "%%41", "%u0041", "%C3"}) { ask(s, {std::string("/check/plain/") + w, 0, "", ""}); ask(s, by_pw(f, PWS[0])); n += 2; }
  c.evals(n, n); c.sample(s.what + ": " + std::to_string(n) + " plain requests");
}
static void hashes(Ctx& c) { // every record, its neighbours, every way to be malformed
  static const unsigned SZ[] = {0, 1, 2, 3, 5, 169, 170, 171, 203, 204, 205, 206, 340, 341, 342, 343, 682, 1023}; unsigned R = SZ[c.choose(18)]; int m = c.choose(3); bool json = c.flag(), toc = c.flag();
  Conf f; f.json = json; f.toc = toc; f.threads = 1; f.dbs.push_back(make(*TYS[m], R, toc, {})); const Ty& t = *TYS[m]; Srv s(c, f.args()); uint64_t n = 0; auto& d = f.dbs[0];
  unsigned step = (unsigned)(toc ? 61 : 1), i = 0;
  for (auto& [h, k]: d.m) { if (++i % step && i > 3 && i + 3 < d.m.size()) continue; ask(s, by_hash(f, t, h)); for (int o: {-1, 1}) { std::string x = h; for (std::size_t b = t.hs; b-- > 0;) { x[b] = (char)(x[b] + o); if (o == 1 ? x[b] != 0 : x[b] != '\xff') break; } ask(s, by_hash(f, t, x)); } n += 3; }
  std::string good = d.m.empty() ? std::string(2 * t.hs, '7') : ref::hexup(std::next(d.m.begin(), (long)d.m.size() / 2)->first), base = std::string("/check/") + t.name + "/";
  for (std::size_t l = 0; l != 2 * t.hs + 6; ++l) if (l != good.size()) { std::string x = (good + good).substr(0, l); ask(s, {base + x, 400, "", ""}); ++n; }
  for (std::size_t p = 0; p != good.size(); ++p) for (auto* bad: {"G", "%20", "-", ":", "@", "`", "g", "x", "%00", "%0A", "/"}) { std::string x = good; x.replace(p, 1, bad); ask(s, {base + x, std::string(bad) == "/" && p + 1 == good.size() ? 0 : 400, "", ""}); ++n; }
  std::string low = good; for (auto& ch: low) ch = (char)tolower(ch); if (low != good) { Q q = by_hash(f, t, ref::unhex(good)); q.target = base + low; q.status = 201; ask(s, q); ++n; }
  for (auto* o: TYS) if (o != &t) { ask(s, by_hash(f, *o, std::string(o->hs, '\x11'))); ++n; }
  for (auto* u: {"/check", "/check/", "/check/plain", "/check/plain/", "/checks/plain/a", "/check/sha256/00", "/check/SHA2/00", "/x", "/check/plain/a/b", "/check//a"}) { ask(s, {u, 400, "", ""}); ++n; }
  for (auto* me: {"POST", "PUT", "DELETE"}) { Resp r = s.get(base + good, me); if (r.status < 400) c.fail("method", std::string(me) + " is answered with " + std::to_string(r.status) + "\n" + s.what); ask(s, by_hash(f, t, ref::unhex(good))); ++n; }
  c.evals(n, n); c.sample(s.what + ": " + std::to_string(n) + " hash requests");
}
static void huge(Ctx& c) { // databases as large as the real ones
  const Ty& t = *TYS[c.choose(3)]; static const int SH[] = {31, 32, 33, 35}; int sh = SH[c.choose(4)]; uint64_t nr; ref::DB d; Conf f; f.json = false; f.toc = false; f.threads = 1; Db b{&t, "huge.bin", {}};
  if (!huge_db(t, "huge.bin", sh, nr, d)) throw Infeasible{}; b.m[std::string(t.hs, '\0')] = 0; for (auto& r: d) b.m[r.h] = r.c; f.dbs.push_back(b); Srv s(c, f.args()); uint64_t n = 0;
  for (unsigned i = 0; i <= 2 * d.size(); ++i) { ask(s, by_hash(f, t, i ? mk(t, i, 0).h : std::string(t.hs, '\0'))); ++n; }
  c.evals(n, n); c.sample(s.what + " with " + std::to_string(nr) + " records: " + std::to_string(n) + " requests"); unlink("huge.bin");
}
static Reg rh({.prop = "C17", .name = "huge", .body = huge, .exec_limit_s = 120});
static Reg r0({.prop = "C17", .name = "histories", .body = histories, .exec_limit_s = 120}); static Reg r1({.prop = "C17", .name = "plain", .body = plain, .exec_limit_s = 120}); static Reg r2({.prop = "C17", .name = "hashes", .body = hashes, .exec_limit_s = 120});

static void faults(Ctx& c) { // every read and seek of a request fails once
  Conf f = conf(c, 900, PWS); if (f.threads == 2) throw Infeasible{}; auto al = alphabet(f, false); int kind = c.choose(4); Srv s(c, f.args(), true); uint64_t n = 0;
  strcpy(s.ctl->path, ".bin"); auto clear = [&] { s.ctl->fail_read_at = s.ctl->fail_seek_at = s.ctl->short_at = 0; s.ctl->fail_sticky = 0; };
  for (auto& q: al) for (int64_t k = 1;; ++k) {
    for (auto& o: al) if (&o != &q && o.status == 200) { ask(s, o); break; } // somewhere else first
    int64_t r0 = s.ctl->reads, k0 = s.ctl->seeks;
    if (kind == 0) { s.ctl->fail_errno = EIO; s.ctl->fail_read_at = r0 + k; } else if (kind == 1) { s.ctl->fail_errno = 0; s.ctl->fail_read_at = r0 + k; } else if (kind == 2) s.ctl->fail_seek_at = k0 + k; else s.ctl->short_at = r0 + k;
    Resp r = s.get(q.target); bool hit = kind == 2 ? s.ctl->seeks - k0 >= k : s.ctl->reads - r0 >= k; clear();
    bool right = q.status == 400 ? r.status >= 400 : r.status == 200 && trim(r.body) == q.body;
    if (!right && (kind == 3 || !hit || r.status < 400)) c.fail("fault-answer", "GET " + q.target + " while " + (kind == 0 ? "a read fails" : kind == 1 ? "the file ends early" : kind == 2 ? "a seek fails" : "a read is short") + " (the " + std::to_string(k) + ". one) -> " + std::to_string(r.status) + " '" + trim(r.body) + "'\n" + s.what + "\nstderr: " + s.stderr_());
    ask(s, q); ++n; if (hit) c.count(n_faults);
    if (!hit || k > 60) break;
  }
  c.evals(n, n); c.sample(s.what + ": " + std::to_string(n) + " requests with a fault");
}
static Reg r3({.prop = "C24", .name = "server", .body = faults, .exec_limit_s = 120});
int main(int argc, char** argv) { return mc::main_(argc, argv); }
