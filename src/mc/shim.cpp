// Interposes read/lseek/write/rename/... in front of libc for the code under test.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc/shim.hpp"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static ShimCtl* g = nullptr;
static ShimCtl* local_ = nullptr;
extern "C" ShimCtl* shim_ctl() { return g; }
extern "C" void shim_set(ShimCtl* p) { g = p; }

__attribute__((constructor(101))) static void shim_init() {
  const char* e = getenv("HIBP_SHIM_FD");
  if (!e) return;
  void* p = (void*)syscall(SYS_mmap, nullptr, sizeof(ShimCtl), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(e), 0);
  if (p != MAP_FAILED) g = (ShimCtl*)p;
}

#ifndef SHIM_OFF
extern "C" { void (*shim_hook)() = nullptr; } // called before reads and seeks of files
static bool match(int fd) {
  if (fd == 0) return g->read_stdin;
  if (!g->path[0]) return fd > 2;
  char lnk[64], buf[512];
  snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
  long n = syscall(SYS_readlink, lnk, buf, sizeof buf - 1);
  if (n <= 0) return false;
  buf[n] = 0;
  return strstr(buf, g->path) != nullptr;
}

static void op() { if (g->stop_at && __sync_add_and_fetch(&g->ops, 1) == g->stop_at) syscall(SYS_kill, syscall(SYS_getpid), 19); }
static long fail(int e) { errno = e; return -1; }
static long ret(long r) { return r; }

extern "C" ssize_t read(int fd, void* buf, size_t n) {
  if (shim_hook && fd > 2) shim_hook();
  if (g && match(fd)) {
    op();
    int64_t k = __sync_add_and_fetch(&g->reads, 1);
    if (g->fail_read_at && (k == g->fail_read_at || (g->fail_sticky && k > g->fail_read_at)))
      return g->fail_errno ? fail(g->fail_errno) : 0;
    if (g->max_read > 0 && (int64_t)n > g->max_read) n = (size_t)g->max_read;
    if (g->short_at && k == g->short_at && n > 1) n = 1;
  }
  return ret(syscall(SYS_read, fd, buf, n));
}
extern "C" off64_t lseek64(int fd, off64_t o, int w) {
  if (shim_hook && fd > 2) shim_hook();
  if (g && match(fd)) {
    op();
    int64_t k = __sync_add_and_fetch(&g->seeks, 1);
    if (g->fail_seek_at && k == g->fail_seek_at) return fail(EIO);
  }
  return ret(syscall(SYS_lseek, fd, o, w));
}

// mutating calls: returns 0 to go on, -1 to fail
static int mut(int fd, int64_t* torn) {
  *torn = -1;
  if (!g || (fd >= 0 && fd < 31 && (g->mut_skip >> fd & 1))) return 0;
  op();
  int64_t k = __sync_add_and_fetch(&g->muts, 1);
  if (g->fail_mut_at && k == g->fail_mut_at) { errno = g->fail_mut_errno; return -1; }
  if (g->crash_at && k == g->crash_at) {
    if (g->crash_torn >= 0 && fd >= 0) *torn = g->crash_torn;
    else syscall(SYS_exit_group, 137);
  }
  return 0;
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
  int64_t t;
  if (mut(fd, &t)) return -1;
  if (t >= 0) { if (t) syscall(SYS_write, fd, b, (size_t)t < n ? (size_t)t : n); syscall(SYS_exit_group, 137); }
  return ret(syscall(SYS_write, fd, b, n));
}
#ifdef SHIM_STATIC // stdio of the static libc calls these names
extern "C" ssize_t __write(int fd, const void* b, size_t n) { return write(fd, b, n); }
extern "C" ssize_t __read(int fd, void* b, size_t n) { return read(fd, b, n); }
#endif
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  int64_t t;
  if (mut(fd, &t)) return -1;
  if (t >= 0) {
    for (int i = 0; i < c && t > 0; ++i) { size_t l = (size_t)t < v[i].iov_len ? (size_t)t : v[i].iov_len; syscall(SYS_write, fd, v[i].iov_base, l); t -= (int64_t)l; }
    syscall(SYS_exit_group, 137);
  }
  return ret(syscall(SYS_writev, fd, v, c));
}
extern "C" int rename(const char* a, const char* b) noexcept { int64_t t; if (mut(-1, &t)) return -1; return (int)ret(syscall(SYS_rename, a, b)); }
extern "C" int unlink(const char* a) noexcept { int64_t t; if (mut(-1, &t)) return -1; return (int)ret(syscall(SYS_unlink, a)); }
extern "C" int remove(const char* a) noexcept {
  int64_t t; if (mut(-1, &t)) return -1;
  int r = (int)syscall(SYS_unlink, a);
  if (r < 0 && errno == EISDIR) r = (int)syscall(SYS_rmdir, a);
  return r;
}
extern "C" int ftruncate64(int fd, off64_t o) noexcept { int64_t t; if (mut(fd, &t)) return -1; return (int)ret(syscall(SYS_ftruncate, fd, o)); }
extern "C" int truncate64(const char* p, off64_t o) noexcept { int64_t t; if (mut(-1, &t)) return -1; return (int)ret(syscall(SYS_truncate, p, o)); }
extern "C" int ftruncate(int fd, off_t o) noexcept { return ftruncate64(fd, o); }
extern "C" int truncate(const char* p, off_t o) noexcept { return truncate64(p, o); }
#endif
