// The same program with the real libcurl and libevent against a scripted server on the loopback interface
// (port 8090, where --testing looks for it): binds the stand-in network to the real one.
#pragma once
#include "dnl/prog.hpp"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
static int conf_traces = counter("conformance_traces"), conf_skipped = counter("conformance_skipped_port_in_use");
struct RealNet {
  struct Conn { int fd; std::string in; bool busy = false; std::size_t idx = 0; bool ntlm = false, known = false; };
  static int listener() {
    int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(8090); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); int one = 1; setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    for (int i = 0; i != 50; ++i) { if (bind(s, (sockaddr*)&a, sizeof a) == 0 && listen(s, 64) == 0) return s; usleep(100000); }
    close(s); return -1;
  }
  static bool parse(Conn& k, bool ntlm_expected, std::string& why) {
    (void)ntlm_expected; auto e = k.in.find("\r\n\r\n"); if (e == std::string::npos) return false; std::string l = k.in.substr(0, k.in.find("\r\n")); k.in.erase(0, e + 4); k.busy = true; k.known = false; k.ntlm = false;
    if (l.rfind("GET /", 0) || l.size() < 14) { why = l; return true; } std::string u = l.substr(5, l.rfind(' ') - 5); if (u.size() > 10 && u.substr(u.size() - 10) == "?mode=ntlm") { k.ntlm = true; u.resize(u.size() - 10); }
    if (u.size() == 5 && u.find_first_not_of("0123456789ABCDEF") == std::string::npos) { k.idx = std::stoul(u, nullptr, 16); k.known = true; } else why = l; return true;
  }
  static void push(int fd, const std::string& s, const std::vector<std::size_t>& cuts) { std::size_t p = 0; std::vector<std::size_t> c(cuts); c.push_back(s.size()); for (auto x: c) while (p < x && p < s.size()) { ssize_t n = send(fd, s.data() + p, std::min(x, s.size()) - p, MSG_NOSIGNAL); if (n <= 0) { pollfd f{fd, POLLOUT, 0}; if (n < 0 && errno == EAGAIN && poll(&f, 1, 5000) > 0) continue; return; } p += (std::size_t)n; } }
  // false: the port cannot be had
  static bool run(Ctx& c, Prog& p) {
    static bool taken = false; int ls = taken ? -1 : listener(); if (ls < 0) { taken = true; c.count(conf_skipped); return false; }
    for (int i = 0; i != 2; ++i) { if (ftruncate(capf(i), 0)) _exit(99); lseek(capf(i), 0, SEEK_SET); }
    int f0 = capf(0), f1 = capf(1); std::string exe = std::string(getenv("BUILD") ? getenv("BUILD") : "/verif/.build") + tooldir() + "hibp-download"; std::vector<char*> av; for (auto& a: p.args) av.push_back((char*)a.c_str()); av.push_back(nullptr); std::vector<char*> ev{(char*)"LC_ALL=C", (char*)"PATH=/usr/bin:/bin"}; san_env(ev); ev.push_back(nullptr);
    pid_t pid = fork(); if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(f0, 1); dup2(f1, 2); int z = open("/dev/null", O_RDONLY); dup2(z, 0); signal(SIGPIPE, SIG_DFL); execve(exe.c_str(), av.data(), ev.data()); _exit(127); }
    std::vector<Conn> cs; int st = 0; bool ended = false, hung = false; p.log = net::Log{}; std::map<std::size_t, int> tries; std::size_t done = 0; uint64_t last = now_ms(), begin = last; std::string why; bool answered = false; bool sync_done = p.env.start == 0;
    while (!ended) {
      std::vector<pollfd> pf; pf.push_back({ls, POLLIN, 0}); for (auto& k: cs) pf.push_back({k.fd, POLLIN, 0});
      int n = poll(pf.data(), pf.size(), 1); if (waitpid(pid, &st, WNOHANG) == pid) { ended = true; break; }
      if (now_ms() - begin > 30000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
      if (n > 0) {
        for (std::size_t i = 1; i != pf.size(); ++i) if (pf[i].revents) { char b[4096]; auto& k = cs[i - 1]; ssize_t r = recv(k.fd, b, sizeof b, MSG_DONTWAIT); if (r > 0) { k.in.append(b, (std::size_t)r); last = now_ms(); } else if (r == 0 || errno != EAGAIN) { close(k.fd); k.fd = -1; } }
        if (pf[0].revents) { int s = accept4(ls, nullptr, nullptr, SOCK_CLOEXEC); if (s >= 0) { int one = 1; setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); cs.push_back({s, ""}); last = now_ms(); } }
        cs.erase(std::remove_if(cs.begin(), cs.end(), [](auto& k) { return k.fd < 0; }), cs.end());
        for (auto& k: cs) if (!k.busy && parse(k, p.env.ntlm, why)) { if (!sync_done) { auto o = p.env.sync(k.idx, k.ntlm); p.log.sync_requests++; sync_done = true; answer(k, o); continue; } p.log.requests++; if (k.known && k.idx < 64) p.log.attempts[k.idx]++; if (!k.known || k.ntlm != p.env.ntlm || k.idx < p.env.start || k.idx >= p.env.limit) { if (why.empty()) why = "range " + std::to_string(k.idx) + (k.ntlm ? " ntlm" : ""); } }
        cs.erase(std::remove_if(cs.begin(), cs.end(), [](auto& k) { return k.fd < 0; }), cs.end());
      }
      std::vector<std::size_t> w; for (std::size_t i = 0; i != cs.size(); ++i) if (cs[i].busy) w.push_back(i);
      if (w.size() > p.log.max_in_flight) p.log.max_in_flight = w.size();
      std::size_t want = !answered ? 1 : std::min(p.env.parallel, p.env.limit - p.env.start - std::min(done, p.env.limit - p.env.start));
      if (w.empty() || (w.size() < want && now_ms() - last < 60)) continue;
      if (p.env.batch == 2) { if (p.env.order == 2) std::reverse(w.begin(), w.end()); } else w = {p.env.order == 2 ? w.back() : w.front()};
      answered = true; // (curl waits for the first answer before it opens further connections)
      for (auto i: w) { auto& k = cs[i]; net::Outcome o; if (k.known) o = p.env.outcome(k.idx, tries[k.idx]++, k.ntlm); else o.http = 404; if (o.http == 200 && !o.code) ++done; answer(k, o); }
      cs.erase(std::remove_if(cs.begin(), cs.end(), [](auto& k) { return k.fd < 0; }), cs.end()); last = now_ms();
    }
    for (auto& k: cs) close(k.fd); close(ls);
    p.signaled = WIFSIGNALED(st); p.status = p.signaled ? WTERMSIG(st) : WEXITSTATUS(st); p.out = slurp_fd(capf(0)); p.err = slurp_fd(capf(1));
    c.what += " (with the real network libraries)"; san_report(p.err, c.what);
    if (hung) c.fail("hang", "the program does not end\n" + c.what + p.tail());
    if (p.signaled) c.fail("crash", "the program is " + p.how() + "\n" + c.what + p.tail());
    if (!why.empty()) c.fail("wrong-url", "requested: " + why + "\n" + c.what + p.tail());
    if (p.log.max_in_flight > p.env.parallel) c.fail("in-flight", std::to_string(p.log.max_in_flight) + " requests in flight, --parallel-max " + std::to_string(p.env.parallel) + "\n" + c.what + p.tail());
    return true;
  }
  static void answer(Conn& k, const net::Outcome& o) {
    std::size_t len = o.body.size() + (o.code ? 5 : 0); bool none = o.http == 204;
    std::string h = "HTTP/1.1 " + std::to_string(o.http ? o.http : 200) + " X\r\nContent-Type: text/plain\r\n" + (none ? "" : "Content-Length: " + std::to_string(len) + "\r\n") + "\r\n"; push(k.fd, h, {}); if (!none) push(k.fd, o.body, o.cuts);
    k.busy = false; if (o.code) { shutdown(k.fd, SHUT_RDWR); close(k.fd); k.fd = -1; }
  }
};
