// Runs one of the real command line tools on files of the current scratch directory.
#pragma once
#include <map>
#include "mc/explore.hpp"
#include "mc/shim.hpp"
#include <sys/resource.h>
#include <sys/time.h>

namespace mc {

inline void put(const std::string& p, const std::string& d) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) { perror(p.c_str()); _exit(99); }
  std::size_t o = 0;
  while (o < d.size()) { ssize_t r = write(fd, d.data() + o, d.size() - o); if (r <= 0) { perror("put"); _exit(99); } o += (std::size_t)r; }
  close(fd);
}
inline bool exists(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
inline std::string slurp_fd(int fd) {
  std::string s; char b[65536]; ssize_t r; lseek(fd, 0, SEEK_SET);
  while ((r = read(fd, b, sizeof b)) > 0) s.append(b, (std::size_t)r);
  return s;
}
inline std::string slurp(const std::string& p) {
  int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return "<missing>";
  std::string s = slurp_fd(fd); close(fd); return s;
}
std::vector<std::string> inline ls(const std::string& d = ".");

struct Run {
  std::vector<std::string> argv;     // argv[0]: tool name (hibp-convert ...)
  std::string  in;                   // standard input (file content); empty: /dev/null
  std::string  out_path;             // stdout goes to this file instead of being captured
  int          out_mode = 0;         // 1: a pipe nobody reads, SIGPIPE ignored; 2: the same with SIGPIPE at its default; 3: closed
  int64_t      fsize = -1;           // RLIMIT_FSIZE
  bool         fsize_kills = false;  // SIGXFSZ at its default: die torn at that byte
  bool         shim = false;
  ShimCtl      ctl{};
  int          timeout_s = 20;
  rlim_t       as_limit = 0;
  // result
  int          status = -1; bool signaled = false, timed_out = false;
  std::string  out, err;
  bool ok() const { return !signaled && !timed_out && status == 0; }
  // ended by itself with a failure status (not by a signal)
  bool failed() const { return !signaled && !timed_out && status != 0; }
  std::string how() const {
    if (timed_out) return "did not end";
    if (signaled) return "died from signal " + std::to_string(status) + " (" + strsignal(status) + ")";
    return "exit status " + std::to_string(status);
  }
  std::string cmd() const { std::string s; for (auto& a: argv) s += (s.empty() ? "" : " ") + a; return s; }
};

inline int cap_fd(int which) { // per process capture files
  static int fd[3] = {-1, -1, -1};
  static pid_t owner = 0;
  if (owner != getpid()) { for (auto& f: fd) f = -1; owner = getpid(); }
  if (fd[which] < 0) fd[which] = memfd_create("cap", 0);
  return fd[which];
}
inline ShimCtl* ctl_map(int& fd) {
  static int f = -1; static ShimCtl* p = nullptr; static pid_t owner = 0;
  if (owner != getpid()) {
    f = memfd_create("shim", 0);
    if (ftruncate(f, sizeof(ShimCtl))) _exit(99);
    p = (ShimCtl*)mmap(nullptr, sizeof(ShimCtl), PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
    owner = getpid();
  }
  fd = f; return p;
}

// a database of n records, zeros but for some: as large as the real ones, without taking the space
inline bool sparse(const std::string& name, uint64_t n, std::size_t rs, const std::map<uint64_t, std::string>& at) {
  int fd = open(name.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (fd < 0) _exit(99);
  bool ok = ftruncate64(fd, (off64_t)(n * rs)) == 0;
  for (auto& [p, r]: at) if (ok && pwrite64(fd, r.data(), r.size(), (off64_t)(p * rs)) != (ssize_t)r.size()) ok = false;
  close(fd); if (!ok) unlink(name.c_str()); return ok;
}
inline std::string slurp_tail(const std::string& name, uint64_t from) {
  int fd = open(name.c_str(), O_RDONLY | O_CLOEXEC); std::string s; if (fd < 0) return s; char b[65536]; ssize_t k; uint64_t o = from; while ((k = pread64(fd, b, sizeof b, (off64_t)o)) > 0) { s.append(b, (std::size_t)k); o += (uint64_t)k; } close(fd); return s;
}

inline void run(Run& r) {
  static const std::string build = getenv("BUILD") ? getenv("BUILD") : "/verif/.build";
  std::string exe = r.argv[0].find('/') == std::string::npos ? build + tooldir() + r.argv[0] : r.argv[0];
  int fo = cap_fd(0), fi = cap_fd(1);
  if (ftruncate(fo, 0)) _exit(99);
  int pe[2]; if (pipe2(pe, O_CLOEXEC)) _exit(99);
  fcntl(pe[0], F_SETFL, O_NONBLOCK); fcntl(pe[1], F_SETFL, O_NONBLOCK); fcntl(pe[1], F_SETPIPE_SZ, 1 << 18);
  int fin;
  if (r.in.empty()) fin = open("/dev/null", O_RDONLY);
  else {
    if (ftruncate(fi, 0)) _exit(99);
    lseek(fi, 0, SEEK_SET);
    for (std::size_t o = 0; o < r.in.size();) { ssize_t k = write(fi, r.in.data() + o, r.in.size() - o); if (k <= 0) _exit(99); o += (std::size_t)k; }
    lseek(fi, 0, SEEK_SET); fin = fi;
  }
  int fout = fo; lseek(fo, 0, SEEK_SET);
  if (!r.out_path.empty()) { fout = open(r.out_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (fout < 0) { perror(r.out_path.c_str()); _exit(99); } }
  int bp[2] = {-1, -1};
  if (r.out_mode == 1 || r.out_mode == 2) { if (pipe2(bp, O_CLOEXEC)) _exit(99); close(bp[0]); fout = bp[1]; }
  int sfd = -1; ShimCtl* ctl = nullptr;
  if (r.shim) { ctl = ctl_map(sfd); *ctl = r.ctl; }
  std::vector<char*> av; for (auto& a: r.argv) av.push_back((char*)a.c_str()); av.push_back(nullptr);
  std::string senv = "HIBP_SHIM_FD=" + std::to_string(sfd);
  std::vector<char*> ev; ev.push_back((char*)"LC_ALL=C"); ev.push_back((char*)"TZ=UTC"); ev.push_back((char*)"PATH=/usr/bin:/bin");
  if (r.shim) ev.push_back((char*)senv.c_str());
  san_env(ev); ev.push_back(nullptr);
  struct rlimit fs{}, as{}; bool lim = r.fsize >= 0;
  fs.rlim_cur = fs.rlim_max = (rlim_t)(lim ? r.fsize : 256 << 20); // a tool that writes without end is stopped
  as.rlim_cur = as.rlim_max = r.as_limit ? r.as_limit : (rlim_t)3 << 30;
  struct rlimit core{0, 0};
  pid_t p = vfork();
  if (p == 0) {
    dup2(fin, 0); dup2(fout, 1); dup2(pe[1], 2);
    if (r.out_mode == 3) close(1);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGXFSZ, r.fsize_kills || !lim ? SIG_DFL : SIG_IGN); signal(SIGPIPE, r.out_mode == 1 ? SIG_IGN : SIG_DFL);
    setrlimit(RLIMIT_CORE, &core);
    setrlimit(RLIMIT_FSIZE, &fs); if (!san()) setrlimit(RLIMIT_AS, &as);
    execve(exe.c_str(), av.data(), ev.data());
    _exit(127);
  }
  if (p < 0) { perror("vfork"); _exit(99); }
  close(pe[1]); if (bp[1] >= 0) close(bp[1]);
  int st = 0; uint64_t t0 = now_ms(); r.timed_out = false; r.err.clear();
  char b[65536]; ssize_t k;
  // no tool runs long: poll, draining stderr
  for (unsigned spin = 0;; ++spin) {
    pid_t w = waitpid(p, &st, spin < 2 ? WNOHANG : WNOHANG);
    if (w == p) break;
    while ((k = read(pe[0], b, sizeof b)) > 0) if (r.err.size() < 1 << 20) r.err.append(b, (std::size_t)k);
    uint64_t el = now_ms() - t0;
    if (el > (uint64_t)r.timeout_s * 1000) { kill(p, SIGKILL); waitpid(p, &st, 0); r.timed_out = true; break; }
    usleep(el < 5 ? 60 : 1000);
  }
  while ((k = read(pe[0], b, sizeof b)) > 0) if (r.err.size() < 1 << 20) r.err.append(b, (std::size_t)k);
  close(pe[0]);
  if (r.in.empty()) close(fin);
  r.signaled = WIFSIGNALED(st); r.status = r.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
  if (!r.signaled && r.status == 127) { std::fprintf(stderr, "cannot run %s\n", exe.c_str()); _exit(99); }
  if (r.out_path.empty()) r.out = slurp_fd(fo); else close(fout);
  if (r.shim) r.ctl = *ctl;
  san_report(r.err, r.cmd());
}
// a tool that does not end is run once more, alone, with a longer limit
inline void run_checked(Run& r) {
  Run c = r; run(r);
  if (r.timed_out) { c.timeout_s *= 4; run(c); r = c; }
}

} // namespace mc

#include <dirent.h>
namespace mc {
inline std::vector<std::string> ls(const std::string& d) {
  std::vector<std::string> v; DIR* D = opendir(d.c_str()); if (!D) return v;
  while (auto* e = readdir(D)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(D); std::sort(v.begin(), v.end()); return v;
}
inline void clean() { for (auto& n: ls()) { if (::unlink(n.c_str()) && errno == EISDIR) rm_rf(std::string(getcwd(nullptr, 0)) + "/" + n); } }
} // namespace mc
