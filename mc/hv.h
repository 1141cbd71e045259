// hv.h - explicit enumeration of executions of the real library code.
//
// A check enumerates a finite space of executions ("cases"); every case runs the
// library built from /repo and compares what it observes with a reference model.
// The cases are split over forked workers, so a crash or a hang of the library
// stops one worker only; the parent turns it into a violation after replaying it.
#ifndef HV_H
#define HV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <float.h>
#include <limits.h>
#include <setjmp.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <time.h>
#include <assert.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <emmintrin.h>
#include <algorithm>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <set>
#include <iostream>
#include <fstream>
#include <sstream>

typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned int u32;
typedef unsigned long long u64;
typedef std::vector<u8> Bytes;

// ---- seams between the library and its environment (seams.cpp) ----
extern "C" {
void *hv_malloc(size_t);
void *hv_calloc(size_t, size_t);
void *hv_realloc(void *, size_t);
void hv_free(void *);
char *hv_strdup(const char *);
__attribute__((noreturn)) void hv_exit(int);
int hv_rand(void);
void hv_srand(unsigned);
time_t hv_time(time_t *);
}
struct HvEnv {
  int fill;            // byte that fresh memory holds
  int residue;         // -1: varies with the allocation; else (address mod 64)/16
  size_t limit;        // requests beyond this are refused (NULL)
  long fail_at;        // refuse the n-th allocation from now on (0: none)
  size_t biggest;      // biggest request seen since reset
  long live;           // blocks not yet freed
  long total;          // allocations so far
  std::vector<int> rnd;  // answers of rand(), repeated cyclically
  size_t rnd_pos;
  int cat_mode;        // placement: 0 default
  long asked;          // allocations that could have been refused so far
  bool fail_on;        // once refused, refuse all later ones
};
extern HvEnv hv_env;
extern long hv_damaged;  // blocks whose surroundings were written (builds without the sanitizer)
bool hv_owns(const void *p);        // a live block starts at p
size_t hv_block_size(const void *p);
// makes every byte of the block p lies at that no span covers inaccessible until the block is freed
struct HvSpan { const void *p; size_t n; };
void hv_seal(const void *p, const HvSpan *s, int n);

// ---- the explorer ----
extern jmp_buf hv_case_jmp;
struct HV {
  const char *prop = "";
  int w = 0, W = 1;
  bool thorough = false;
  u64 idx = 0;
  std::string tmp;  // scratch directory of this worker
  bool mine();
  void describe(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void done();
  // one execution: body runs if this worker owns it
  template <class F, class... A> void run(F &&f, const char *fmt, A... a) {
    if (!mine()) return;
    describe(fmt, a...);
    body(f);
  }
  template <class F> __attribute__((noinline)) void body(F &f) {
    if (setjmp(hv_case_jmp) == 0) f();
    done();
  }
  void step(u64 n = 1);
  void state(u64 hash);
  void state(const void *p, size_t n) ;
  void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4), noreturn));
  bool expired();
  void note_cap(const char *why);
};
extern HV *hv;
int hv_main(int argc, char **argv, const char *prop, void (*explore)(HV &));

// library call: counts one transition
#define L(...) (hv->step(), __VA_ARGS__)
#define CHECK(cond, key, ...) do { if (!(cond)) hv->fail(key, __VA_ARGS__); } while (0)

extern jmp_buf *hv_catch;
extern int hv_status;
extern long hv_stdout_bytes(void);
void hv_after_exit(long serial);
void hv_fd_baseline();
// runs f; 0 when it returned, 1 when the library ended the program (hv_status holds the status)
template <class F> __attribute__((noinline)) int hv_call(F &&f) {
  jmp_buf b;
  jmp_buf *old = hv_catch;
  hv_catch = &b;
  volatile int r = 0;
  volatile long serial = hv_env.total;
  if (setjmp(b) == 0) f();
  else { r = 1; hv_after_exit(serial); }
  hv_catch = old;
  return r;
}

// memory of the harness itself, never refused
static inline void *hv_sure_malloc(size_t n) { long f = hv_env.fail_at, a = hv_env.asked; hv_env.fail_at = 0; void *p = hv_malloc(n); hv_env.fail_at = f; hv_env.asked = a; return p; }
static inline u64 hv_hash(const void *p, size_t n, u64 h = 1469598103934665603ull) {
  const u8 *c = (const u8 *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h ^ (h >> 29);
}
static inline u64 hv_mix(u64 a, u64 b) { u64 h = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2)); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 33); }
int hv_open_fds();
// write faults: with fault_write = k the k-th write of the program's files from now on fails once (from 0);
// with fault_close = k the k-th file that is closed loses its content and says so
struct HvFault { long fault_write = -1, fault_close = -1; long writes = 0, closes = 0; bool on = false; };
extern HvFault hv_fault;
// reading: at most `chunk` bytes per read, and an input/output error at byte `fault_at` of the files that end in `which`
struct HvReadFault { bool on = false, once = false; std::string which; long fault_at = -1, chunk = 0, reads = 0, faults = 0; };
extern HvReadFault hv_rfault;
ssize_t hv_faulty_read(int fd, void *b, size_t n, const std::string &path);
void hv_huge(int gb = 24);  // this execution needs that many gigabytes: wait until there is room
// a file of any size that is not on the disk: f delivers (read) or receives (written) the bytes at an offset
struct HvVirtual { std::string path; u64 size = 0, pos = 0; std::function<void(u64, char *, size_t)> f; };
extern HvVirtual hv_virtual;
void hv_write_file(const std::string &path, const void *p, size_t n);
bool hv_read_file(const std::string &path, Bytes &out);
#endif
