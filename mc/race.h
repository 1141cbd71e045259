// race.h - two threads of the library under a scheduler that lets exactly one run at a time and switches only where
// a schedule says so. The library's objects are compiled with -fsanitize=thread, whose callbacks (defined here instead of
// the sanitizer's runtime) show every memory access; allocator, file and string calls are seams.
#ifndef HV_RACE_H
#define HV_RACE_H
#define HV_RACE
#include "ops.h"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>

struct Race {
  static const size_t STK = 96u << 20;
  bool on = false;                       // accesses are being watched
  int cur = -1;                          // the thread that runs
  std::function<void()> body[2];
  bool done[2];
  char *stk[2] = {NULL, NULL};
  sem_t go[2], back;
  // who touched what: granule of 8 bytes -> bit 0/1 read, 2/3 written by thread 0/1
  std::unordered_map<uintptr_t, u8> seen;
  std::unordered_map<uintptr_t, u8> *conflict = NULL;  // granules that are scheduling points
  std::map<uintptr_t, std::pair<size_t, int>> heap;    // block -> size, owner
  long points[2];                                      // scheduling points passed
  std::vector<long> plan; size_t at;                   // switch when the running thread has passed plan[at] points
  // what a thread has of the explorer's globals
  jmp_buf *catch_[2]; std::vector<int> rnd[2]; size_t rpos[2]; int died[2];
  bool blocked[2];
};
static Race R;
static void race_switch(int me) {  // hands over to the other thread and waits for its own turn
  int o = 1 - me;
  if (R.done[o]) return;
  R.catch_[me] = hv_catch; R.rnd[me] = hv_env.rnd; R.rpos[me] = hv_env.rnd_pos;
  R.cur = o;
  sem_post(&R.go[o]);
  while (sem_wait(&R.go[me])) {}
  hv_catch = R.catch_[me]; hv_env.rnd = R.rnd[me]; hv_env.rnd_pos = R.rpos[me];
}
static void race_point() {
  if (!R.on || R.cur < 0) return;
  int me = R.cur;
  long n = R.points[me]++;
  if (R.at < R.plan.size() && n == R.plan[R.at]) { R.at++; race_switch(me); }
}
static inline bool race_private(uintptr_t a, int me) {
  uintptr_t s = (uintptr_t)R.stk[me];
  if (a >= s && a < s + Race::STK) return true;
  auto it = R.heap.upper_bound(a);
  if (it == R.heap.begin()) return false;
  --it;
  return a < it->first + it->second.first && it->second.second == me;
}
static void race_access(const void *p, size_t n, bool w) {
  if (!R.on || R.cur < 0 || n == 0) return;
  int me = R.cur;
  uintptr_t a = (uintptr_t)p;
  if (race_private(a, me)) return;
  bool pt = false;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    R.seen[g] |= (w ? 4 : 1) << me;
    if (R.conflict && R.conflict->count(g)) pt = true;
  }
  if (pt) race_point();
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void *p) { race_access(p, n, false); } void __tsan_write##n(void *p) { race_access(p, n, true); } void __tsan_unaligned_read##n(void *p) { race_access(p, n, false); } void __tsan_unaligned_write##n(void *p) { race_access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { race_access(p, n, false); } void __tsan_volatile_write##n(void *p) { race_access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, long n) { race_access(p, n, false); }
void __tsan_write_range(void *p, long n) { race_access(p, n, true); }
#define ATM(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { race_access((void *)p, sizeof(T), false); return *p; } void __tsan_atomic##b##_store(volatile T *p, T v, int) { race_access((void *)p, sizeof(T), true); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { race_access((void *)p, sizeof(T), true); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { race_access((void *)p, sizeof(T), true); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { race_access((void *)p, sizeof(T), true); T o = *p; *p = o - v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { race_access((void *)p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { race_access((void *)p, sizeof(T), true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
ATM(8, char) ATM(16, short) ATM(32, int) ATM(64, long)
void __tsan_atomic_thread_fence(int) {}
// seams into libc: accesses the compiler does not show
void *hv_memcpy(void *d, const void *s, size_t n) { race_access(s, n, false); race_access(d, n, true); return memcpy(d, s, n); }
void *hv_memmove(void *d, const void *s, size_t n) { race_access(s, n, false); race_access(d, n, true); return memmove(d, s, n); }
void *hv_memset(void *d, int c, size_t n) { race_access(d, n, true); return memset(d, c, n); }
char *hv_strcpy(char *d, const char *s) { race_access(d, strlen(s) + 1, true); return strcpy(d, s); }
char *hv_strncpy(char *d, const char *s, size_t n) { race_access(d, n, true); return strncpy(d, s, n); }
char *hv_strcat(char *d, const char *s) { race_access(d, strlen(d) + strlen(s) + 1, true); return strcat(d, s); }
static char *hv_tok;
char *hv_strtok(char *s, const char *d) { race_access(&hv_tok, sizeof hv_tok, true); return strtok_r(s, d, &hv_tok); }
int hv_sprintf(char *d, const char *f, ...) { char b[8192]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); race_access(d, n + 1, true); memcpy(d, b, n + 1); return n; }
int hv_snprintf(char *d, size_t k, const char *f, ...) { char b[8192]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (k) { size_t m = (size_t)n < k ? n : k - 1; race_access(d, m + 1, true); memcpy(d, b, m); d[m] = 0; } return n; }
char *hv_fgets(char *d, int n, FILE *f) { race_access(d, n, true); race_point(); return fgets(d, n, f); }
size_t hv_fread(void *d, size_t s, size_t n, FILE *f) { race_access(d, s * n, true); race_point(); return fread(d, s, n, f); }
size_t hv_fwrite(const void *d, size_t s, size_t n, FILE *f) { race_access(d, s * n, false); race_point(); return fwrite(d, s, n, f); }
int hv_fputs(const char *d, FILE *f) { race_access(d, strlen(d), false); race_point(); return fputs(d, f); }
int hv_fclose(FILE *f) { race_point(); return fclose(f); }
double hv_atof(const char *s) { race_access(s, strlen(s) + 1, false); return atof(s); }
int hv_atoi(const char *s) { race_access(s, strlen(s) + 1, false); return atoi(s); }
int hv_strcmp(const char *a, const char *b) { race_access(a, strlen(a) + 1, false); race_access(b, strlen(b) + 1, false); return strcmp(a, b); }
static void race_str(const char *s) { race_access(s, strlen(s) + 1, false); }
size_t hv_strlen(const char *s) { race_str(s); return strlen(s); }
int hv_strncmp(const char *a, const char *b, size_t n) { race_access(a, strnlen(a, n) + 1, false); race_access(b, strnlen(b, n) + 1, false); return strncmp(a, b, n); }
int hv_strcasecmp(const char *a, const char *b) { race_str(a); race_str(b); return strcasecmp(a, b); }
char *hv_strchr(const char *s, int c) { race_str(s); return (char *)strchr(s, c); }
char *hv_strrchr(const char *s, int c) { race_str(s); return (char *)strrchr(s, c); }
char *hv_strstr(const char *s, const char *n) { race_str(s); return (char *)strstr(s, n); }
size_t hv_strspn(const char *s, const char *n) { race_str(s); return strspn(s, n); }
size_t hv_strcspn(const char *s, const char *n) { race_str(s); return strcspn(s, n); }
int hv_memcmp(const void *a, const void *b, size_t n) { race_access(a, n, false); race_access(b, n, false); return memcmp(a, b, n); }
void hv_qsort(void *b, size_t n, size_t w, int (*f)(const void *, const void *)) { race_access(b, n * w, true); qsort(b, n, w, f); }
int hv_fprintf(FILE *f, const char *m, ...) { race_point(); va_list a; va_start(a, m); int n = vfprintf(f, m, a); va_end(a); return n; }
// what a scan wrote: its conversions in order
static void race_scanned(const char *f, va_list a, int r) {
  for (; *f; f++) {
    if (*f != '%') continue;
    f++;
    if (*f == '%') continue;
    bool skip = *f == '*', lng = false; if (skip) f++;
    int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { lng = lng || *f != 'h'; f++; }
    char c = *f;
    if (c == '[') { f++; if (*f == '^') f++; if (*f == ']') f++; while (*f && *f != ']') f++; }
    if (!*f) { f--; }
    if (skip) continue;
    if (r-- <= 0) return;
    void *p = va_arg(a, void *);
    race_access(p, c == 's' || c == '[' ? strnlen((char *)p, 4096) + 1 : c == 'c' ? (w ? w : 1) : lng ? 8 : 4, true);
  }
}
#define SCAN(n) int hv_##n##sscanf(const char *s, const char *f, ...) { race_str(s); va_list a; va_start(a, f); int r = vsscanf(s, f, a); va_end(a); va_start(a, f); race_scanned(f, a, r); va_end(a); return r; } \
  int hv_##n##fscanf(FILE *s, const char *f, ...) { race_point(); va_list a; va_start(a, f); int r = vfscanf(s, f, a); va_end(a); va_start(a, f); race_scanned(f, a, r); va_end(a); return r; }
SCAN() SCAN(isoc99_) SCAN(isoc23_)
FILE *hv_race_fopen(const char *p, const char *m) {
  static std::map<std::string, char> names;  // a file is a shared object with the name as its address
  race_access(p, strlen(p) + 1, false);
  char *g = &names[p];
  race_access(g, 1, m[0] != 'r');
  race_point();
  return fopen(p, m);
}
FILE *hv_race_fopen64(const char *p, const char *m) { return hv_race_fopen(p, m); }
// locks: a thread that finds one taken lets the other run
static std::map<void *, int> hv_locks;
int hv_mutex_trylock(void *m) { race_access(m, 1, true); auto it = hv_locks.find(m); if (it != hv_locks.end()) return EBUSY; hv_locks[m] = R.cur; return 0; }
int hv_mutex_lock(void *m) { while (hv_mutex_trylock(m)) { int me = R.cur; if (me < 0 || R.done[1 - me] || hv_locks[m] == me) return EDEADLK; race_switch(me); } return 0; }
int hv_mutex_unlock(void *m) { hv_locks.erase(m); return 0; }
int hv_once(int *o, void (*f)()) { race_access(o, 4, true); if (*o == 0) { *o = 1; f(); *o = 2; } else while (*o == 1 && !R.done[1 - R.cur]) race_switch(R.cur); return 0; }
// the allocator: a block belongs to the thread that asked for it
void *hv_race_malloc(size_t n) { race_point(); void *p = hv_malloc(n); if (p && R.on && R.cur >= 0) R.heap[(uintptr_t)p] = {n ? n : 1, R.cur}; return p; }
void *hv_race_calloc(size_t a, size_t b) { race_point(); void *p = hv_calloc(a, b); if (p && R.on && R.cur >= 0) R.heap[(uintptr_t)p] = {a * b ? a * b : 1, R.cur}; return p; }
void hv_race_free(void *p) {
  if (!p) return;
  race_point();
  auto it = R.heap.find((uintptr_t)p);
  if (it != R.heap.end()) { if (it->second.second != R.cur) race_access(p, it->second.first, true); R.heap.erase(it); }
  else race_access(p, 8, true);
  hv_free(p);
}
void *hv_race_realloc(void *p, size_t n) { if (!p) return hv_race_malloc(n); size_t o = hv_block_size(p); void *q = hv_race_malloc(n); if (!q) return NULL; race_access(p, o, false); memcpy(q, p, o < n ? o : n); hv_race_free(p); return q; }
char *hv_race_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)hv_race_malloc(n); if (p) memcpy(p, s, n); return p; }
char *hv_race_strdup2(const char *s) { return hv_race_strdup(s); }
}
static void *race_main(void *v) {
  int me = (int)(long)v;
  while (sem_wait(&R.go[me])) {}
  hv_catch = NULL; hv_env.rnd.clear(); hv_env.rnd_pos = 0;
  R.died[me] = hv_call([&] { R.body[me](); });
  R.done[me] = true;
  if (!R.done[1 - me]) {
    int o = 1 - me;
    R.cur = o;
    sem_post(&R.go[o]);
  } else sem_post(&R.back);
  return NULL;
}
// runs both bodies: thread `first` starts; a thread that passes the point its plan names hands over; a thread that ends lets the other go on
static void race_run(int first, const std::vector<long> &plan, std::unordered_map<uintptr_t, u8> *conflict) {
  pthread_t t[2];
  R.seen.clear(); R.heap.clear(); hv_locks.clear();
  R.plan = plan; R.at = 0; R.conflict = conflict;
  jmp_buf *keep = hv_catch; std::vector<int> rnd = hv_env.rnd; size_t rp = hv_env.rnd_pos;
  sem_init(&R.back, 0, 0);
  for (int i = 0; i < 2; i++) {
    if (!R.stk[i]) { R.stk[i] = (char *)mmap(NULL, Race::STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (R.stk[i] == MAP_FAILED) _exit(79); }
    sem_init(&R.go[i], 0, 0); R.done[i] = false; R.points[i] = 0; R.died[i] = 0;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, R.stk[i], Race::STK);
    if (pthread_create(&t[i], &a, race_main, (void *)(long)i)) _exit(79);
    pthread_attr_destroy(&a);
  }
  R.on = true; R.cur = first;
  sem_post(&R.go[first]);
  while (sem_wait(&R.back)) {}
  R.on = false; R.cur = -1;
  for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
  hv_catch = keep; hv_env.rnd = rnd; hv_env.rnd_pos = rp;
}
// granules both threads used, at least one of them to write
static std::unordered_map<uintptr_t, u8> race_conflicts() {
  std::unordered_map<uintptr_t, u8> c;
  for (auto &x : R.seen) { u8 m = x.second; bool r0 = m & 5, r1 = m & 10, w = m & 12; if (r0 && r1 && w) c.insert(x); }
  return c;
}
#endif
