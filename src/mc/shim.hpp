// Control block of the libc shim (shim.cpp): read faults, crash points and gates at system call level.
#pragma once
#include <cstdint>
#include <string.h>
struct ShimCtl {
  uint32_t magic;
  char     path[128];      // reads are only touched on files whose path contains this
  int64_t  fail_read_at;   // k-th (1-based) matching read fails; 0: none
  int32_t  fail_errno;     // errno of the failing read; 0: the read returns end of file
  int32_t  fail_sticky;    // every later matching read fails, too
  int64_t  max_read;       // >0: no matching read returns more than this many bytes
  int64_t  short_at;       // k-th matching read returns only one byte
  int64_t  fail_seek_at;   // k-th matching seek fails
  int64_t  crash_at;       // k-th mutating call (write, writev, rename, unlink, truncate) ends the process before it acts; 0: none
  int64_t  crash_torn;     // >=0: ... after letting this many bytes of it through (writes)
  int64_t  fail_mut_at;    // k-th mutating call fails with fail_mut_errno
  int32_t  fail_mut_errno;
  int32_t  mut_skip;       // bit n: ignore mutating calls on descriptor n (0..30)
  int32_t  read_stdin;     // reads of descriptor 0 are matching reads (path is ignored for it)
  int64_t  stop_at;        // before the k-th call of any of these kinds the process stops itself (SIGSTOP) until it is continued
  volatile int64_t reads, seeks, muts, ops; // counters
};
extern "C" ShimCtl* shim_ctl(); // nullptr when inactive
extern "C" void shim_set(ShimCtl*);
extern "C" void (*shim_hook)();
