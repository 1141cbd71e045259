#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sys/syscall.h>
#include "hv.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <signal.h>
#include <sanitizer/asan_interface.h>

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:exitcode=77:symbolize=0:max_allocation_size_mb=12000:quarantine_size_mb=64:print_summary=1:handle_abort=1:detect_odr_violation=0";
}

// ---------------------------------------------------------------- seams
HvEnv hv_env = {0xA5, -1, (size_t)3 << 30, 0, 0, 0, 0, {}, 0, 0};
struct Blk { char *base; size_t size, tot; long serial; };
static std::unordered_map<const void *, Blk> *blks;
static std::unordered_map<const void *, Blk> &tab() { if (!blks) blks = new std::unordered_map<const void *, Blk>; return *blks; }
bool hv_owns(const void *p) { return tab().count(p) != 0; }
size_t hv_block_size(const void *p) { auto it = tab().find(p); return it == tab().end() ? 0 : it->second.size; }

// without the sanitizer the bytes around a block are looked at when it is freed
long hv_damaged;
#ifndef __SANITIZE_ADDRESS__
static const unsigned char GUARD = 0xB7;
static void guard(const void *p, const Blk &b) {
  const unsigned char *s = (const unsigned char *)b.base, *q = (const unsigned char *)p;
  for (; s < q; s++) if (*s != GUARD) { hv_damaged++; return; }
  for (s = q + b.size; s < (const unsigned char *)b.base + b.tot; s++) if (*s != GUARD) { hv_damaged++; return; }
}
#else
static void guard(const void *, const Blk &) {}
#endif
extern "C" void *hv_malloc(size_t n) {
  hv_env.total++;
  if (n > hv_env.biggest) hv_env.biggest = n;
  hv_env.asked++;
  if (hv_env.fail_at && --hv_env.fail_at == 0) { if (hv_env.fail_on) hv_env.fail_at = 1; errno = ENOMEM; return NULL; }
  if (n > hv_env.limit) { errno = ENOMEM; return NULL; }
  size_t res = 16 * (hv_env.residue >= 0 ? (size_t)hv_env.residue : (size_t)(hv_env.total + (hv ? hv->idx : 0)) % 4);
  size_t tot = 64 + res + ((n + 15) & ~(size_t)15) + 16;
  void *b = NULL;
  if (posix_memalign(&b, 64, tot) != 0 || !b) { errno = ENOMEM; return NULL; }
  char *p = (char *)b + 64 + res;
  if (n <= (64u << 20)) memset(p, hv_env.fill, n);
#ifndef __SANITIZE_ADDRESS__
  memset(b, GUARD, 64 + res);
  memset(p + n, GUARD, tot - 64 - res - n);
#endif
  ASAN_POISON_MEMORY_REGION(b, 64 + res);
  ASAN_POISON_MEMORY_REGION(p + n, tot - 64 - res - n);
  tab()[p] = Blk{(char *)b, n, tot, hv_env.total};
  hv_env.live++;
  return p;
}
void hv_seal(const void *p, const HvSpan *s, int n) {
  auto it = tab().find(p);
  if (it == tab().end()) return;
  const char *b = (const char *)p, *e = b + it->second.size;
  for (int i = 0; i < n; i++) if ((const char *)s[i].p < e && (const char *)s[i].p + s[i].n > b && ((const char *)s[i].p < b || (const char *)s[i].p + s[i].n > e)) return;
  const char *at = b;
  while (at < e) {  // walk the gaps between the spans in address order
    const char *nx = e, *to = e;
    for (int i = 0; i < n; i++) { const char *q = (const char *)s[i].p; if (q + s[i].n <= at || q >= e || s[i].n == 0) continue; if (q < nx) { nx = q; to = q + s[i].n; } }
    if (nx > at) ASAN_POISON_MEMORY_REGION(at, nx - at);
    at = to;
  }
}
extern "C" void *hv_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) return NULL;
  void *p = hv_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
extern "C" void hv_free(void *p) {
  if (!p) return;
  auto it = tab().find(p);
  if (it == tab().end()) { free(p); return; }  // not ours: the sanitizer judges it
  Blk b = it->second;
  tab().erase(it);
  guard(p, b);
  hv_env.live--;
  ASAN_UNPOISON_MEMORY_REGION(b.base, b.tot);
  free(b.base);
}
extern "C" void *hv_realloc(void *p, size_t n) {
  if (!p) return hv_malloc(n);
  auto it = tab().find(p);
  if (it == tab().end()) return realloc(p, n);
  size_t old = it->second.size;
  void *q = hv_malloc(n);
  if (!q) return NULL;
  ASAN_UNPOISON_MEMORY_REGION(p, old);
  memcpy(q, p, old < n ? old : n);
  hv_free(p);
  return q;
}
extern "C" char *hv_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)hv_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
extern "C" int hv_rand(void) {
  if (hv_env.rnd.empty()) return 4;
  return hv_env.rnd[hv_env.rnd_pos++ % hv_env.rnd.size()];
}
extern "C" char *hv_strdup2(const char *s) { return hv_strdup(s); }
extern "C" long hv_random(void) { return hv_rand(); }
extern "C" void hv_srandom(unsigned) {}
extern "C" void hv_srand(unsigned) {}
extern "C" time_t hv_time(time_t *t) { if (t) *t = 1000; return 1000; }

HvFault hv_fault;
static ssize_t fw(void *c, const char *b, size_t n) {
  if (hv_fault.writes++ == hv_fault.fault_write) { errno = ENOSPC; return 0; }
  size_t d = 0;
  while (d < n) { ssize_t r = write((int)(long)c, b + d, n - d); if (r <= 0) return d; d += r; }
  return n;
}
static int fsk(void *c, off64_t *o, int w) { off_t r = lseek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int fcl(void *c) {
  bool bad = hv_fault.closes++ == hv_fault.fault_close;
  if (bad && ftruncate((int)(long)c, 0)) {}
  close((int)(long)c);
  if (bad) { errno = EIO; return -1; }
  return 0;
}
HvReadFault hv_rfault;
ssize_t hv_faulty_read(int fd, void *b, size_t n, const std::string &path) {
  HvReadFault &f = hv_rfault;
  long pos = lseek(fd, 0, SEEK_CUR);
  f.reads++;
  if (f.chunk > 0 && (long)n > f.chunk) n = f.chunk;
  if (f.fault_at >= 0 && !(f.once && f.faults) && path.size() >= f.which.size() && path.compare(path.size() - f.which.size(), f.which.size(), f.which) == 0) {
    if (pos == f.fault_at || (pos > f.fault_at && !f.once)) { f.faults++; errno = EIO; return -1; }
    if (pos < f.fault_at) n = std::min((long)n, f.fault_at - pos);
  }
  return syscall(SYS_read, fd, b, n);
}
struct HvIn { int fd; std::string path; };
static ssize_t rr(void *c, char *b, size_t n) { return hv_faulty_read(((HvIn *)c)->fd, b, n, ((HvIn *)c)->path); }
static int rsk(void *c, off64_t *o, int w) { off_t r = lseek(((HvIn *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int rcl(void *c) { int r = close(((HvIn *)c)->fd); delete (HvIn *)c; return r; }
static FILE *faulty_in(const char *p, const char *m) {
  int fd = open(p, O_RDONLY);
  if (fd < 0) return NULL;
  cookie_io_functions_t io = {rr, NULL, rsk, rcl};
  return fopencookie(new HvIn{fd, p}, m, io);
}
HvVirtual hv_virtual;
static ssize_t vr(void *, char *b, size_t n) {
  HvVirtual &v = hv_virtual;
  if (v.pos >= v.size) return 0;
  n = std::min<u64>(n, v.size - v.pos);
  v.f(v.pos, b, n); v.pos += n;
  return n;
}
static ssize_t vw(void *, const char *b, size_t n) {
  HvVirtual &v = hv_virtual;
  v.f(v.pos, (char *)b, n); v.pos += n;
  return n;
}
static int vsk(void *, off64_t *o, int w) { hv_virtual.pos = *o = *o + (w == SEEK_CUR ? hv_virtual.pos : w == SEEK_END ? hv_virtual.size : 0); return 0; }
extern "C" FILE *hv_fopen(const char *p, const char *m) {
  if (hv_virtual.f && hv_virtual.path == p) {
    cookie_io_functions_t io = {m[0] == 'r' ? vr : NULL, m[0] == 'w' ? vw : NULL, vsk, NULL};
    hv_virtual.pos = 0;
    return fopencookie(NULL, m, io);
  }
  if (hv_rfault.on && m[0] == 'r') return faulty_in(p, m);
  if (!hv_fault.on || m[0] != 'w') return fopen(p, m);
  int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return NULL;
  cookie_io_functions_t io = {NULL, fw, fsk, fcl};
  return fopencookie((void *)(long)fd, m, io);
}
extern "C" FILE *hv_fopen64(const char *p, const char *m) { return hv_fopen(p, m); }
jmp_buf hv_case_jmp;
jmp_buf *hv_catch;
int hv_status;

// ---------------------------------------------------------------- shared memory
enum { MAXF = 24, MAXW = 64, NSAMP = 3 };
struct Fail { u64 idx; char key[96]; char desc[480]; char msg[600]; };
struct Slot {
  volatile int huge; volatile u64 idx; volatile u64 steps; volatile u64 beat; volatile u64 cases; volatile int in_case; volatile int finished; volatile int capped;
  char desc[480]; char cap[128];
  volatile int nf; Fail f[MAXF];
  volatile int ns; char samp[NSAMP][560];
  volatile u64 lasthash;
};
struct Shm { Slot s[MAXW]; volatile u64 nstates; volatile int full; };
static Shm *shm;
static volatile u64 *set;
static u64 setcap;
static Slot *slot;
HV *hv;
static u64 only_idx, upto_idx, resume_idx;
static double deadline;
static std::string tmproot;
static int out_fd = -1;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

bool HV::expired() { return deadline > 0 && now() > deadline; }
void HV::note_cap(const char *why) { slot->capped = 1; snprintf(slot->cap, sizeof slot->cap, "%s", why); }
bool HV::mine() {
  idx++;
  if (only_idx) return idx == only_idx;
  if (idx % W != (u64)w) return false;
  if (idx <= resume_idx) return false;
  if (upto_idx && idx > upto_idx) return false;
  if ((idx / W) % 16 == 0 || slot->capped) {
    if (slot->capped) return false;
    if (expired()) { note_cap("time limit"); return false; }
  }
  return true;
}
void HV::describe(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  vsnprintf(slot->desc, sizeof slot->desc, fmt, ap);
  va_end(ap);
  slot->idx = idx; slot->in_case = 1;
}
static void huge_release();
void HV::done() {
  huge_release();
  hv_catch = NULL;
  hv_env.fill = 0xA5; hv_env.residue = -1; hv_env.limit = (size_t)3 << 30; hv_env.fail_at = 0; hv_env.asked = 0; hv_env.fail_on = false; hv_rfault = HvReadFault(); hv_virtual = HvVirtual(); hv_env.rnd.clear(); hv_env.rnd_pos = 0;
  slot->in_case = 0; slot->cases++;
  if (slot->ns < NSAMP && (slot->cases == 1 || slot->cases == 40 || slot->cases == 400)) {
    snprintf(slot->samp[slot->ns], sizeof slot->samp[0], "#%llu %s -> state %016llx", (unsigned long long)idx, slot->desc, (unsigned long long)slot->lasthash);
    slot->ns++;
  }
  if (out_fd >= 0 && slot->cases % 256 == 0) { fflush(stdout); if (lseek(1, 0, SEEK_CUR) > (4 << 20)) { if (ftruncate(1, 0) == 0) lseek(1, 0, SEEK_SET); } }
}
// executions that need gigabytes share three lanes of 8 GB
static int lane_fd[3] = {-1, -1, -1};
void hv_huge(int gb) {
  int need = gb <= 8 ? 1 : gb <= 16 ? 2 : 3;
  slot->huge = 1;
  for (;;) {
    int have = 0;
    for (int i = 0; i < 3 && have < need; i++) {
      lane_fd[i] = open((hv->tmp + "/../lane" + std::to_string(i)).c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0644);
      if (lane_fd[i] < 0 || flock(lane_fd[i], LOCK_EX | LOCK_NB) == 0) { have++; continue; }
      close(lane_fd[i]); lane_fd[i] = -1;
    }
    if (have >= need) break;
    huge_release();
    slot->beat++; usleep(20000 + 7000 * (hv->w % 8));
    slot->huge = 1;
  }
  hv_env.limit = (size_t)24 << 30;
}
static void huge_release() { slot->huge = 0; for (int &f : lane_fd) if (f >= 0) { close(f); f = -1; } }
void HV::step(u64 n) { slot->steps += n; }
void HV::state(u64 h) {
  if (!h) h = 1;
  slot->lasthash = h;
  if (shm->full) return;
  u64 i = (h * 0x9e3779b97f4a7c15ull) & (setcap - 1);
  for (int k = 0; k < 4096; k++, i = (i + 1) & (setcap - 1)) {
    u64 v = set[i];
    if (v == h) return;
    if (v == 0) {
      if (__sync_bool_compare_and_swap(&set[i], 0, h)) {
        if (__sync_add_and_fetch(&shm->nstates, 1) > setcap / 4 * 3) shm->full = 1;
        return;
      }
      if (set[i] == h) return;
    }
  }
}
void HV::state(const void *p, size_t n) { state(hv_hash(p, n)); }
static void record(Slot *s, u64 idx, const char *key, const char *desc, const char *msg) {
  for (int i = 0; i < s->nf; i++) if (!strcmp(s->f[i].key, key)) return;
  if (s->nf >= MAXF) return;
  Fail &f = s->f[s->nf];
  f.idx = idx;
  snprintf(f.key, sizeof f.key, "%s", key);
  snprintf(f.desc, sizeof f.desc, "%s", desc);
  snprintf(f.msg, sizeof f.msg, "%s", msg);
  s->nf = s->nf + 1;
}
void HV::fail(const char *key, const char *fmt, ...) {
  char msg[600];
  va_list ap; va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  record(slot, idx, key, slot->desc, msg);
  longjmp(hv_case_jmp, 3);
}
extern "C" void hv_exit(int s) {
  hv_status = s;
  if (hv_catch) longjmp(*hv_catch, 1);
  if (!slot->in_case) { fprintf(stderr, "exit(%d) outside a case\n", s); _exit(78); }
  char msg[200];
  fflush(stdout);
  snprintf(msg, sizeof msg, "the library ended the program with status %d on valid input", s);
  record(slot, hv->idx, "unexpected-exit", slot->desc, msg);
  longjmp(hv_case_jmp, 2);
}
long hv_stdout_bytes(void) { fflush(stdout); fflush(stderr); return (long)lseek(1, 0, SEEK_CUR) + (long)lseek(2, 0, SEEK_CUR); }
// A call that ended the program: what the program held is gone with it. Its open files are
// closed and its big blocks freed; small ones stay, the library's own statics may point there.
static bool fd_base[256];
void hv_fd_baseline() { for (int i = 0; i < 256; i++) fd_base[i] = fcntl(i, F_GETFD) != -1; }
void hv_after_exit(long serial) {
  for (int i = 3; i < 256; i++) if (!fd_base[i]) close(i);
  std::vector<void *> big;
  for (auto &b : tab()) if (b.second.serial > serial && b.second.size > 65536) big.push_back((void *)b.first);
  for (auto p : big) hv_free(p);
}
int hv_open_fds() {
  int n = 0;
  for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++;
  return n;
}
void hv_write_file(const std::string &path, const void *p, size_t n) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(79); }
  fwrite(p, 1, n, f); fclose(f);
}
bool hv_read_file(const std::string &path, Bytes &out) {
  out.clear();
  FILE *f = fopen(path.c_str(), "rb");
  if (!f) return false;
  u8 b[65536]; size_t r;
  while ((r = fread(b, 1, sizeof b, f)) > 0) out.insert(out.end(), b, b + r);
  fclose(f);
  return true;
}

// ---------------------------------------------------------------- processes
static void (*g_explore)(HV &);
extern "C" void __gcov_dump(void) __attribute__((weak));  // tools/cov.py
static int g_W;
static std::string errfile(int w) { return tmproot + "/err." + std::to_string(w); }
static pid_t spawn(int w, bool thorough, const char *prop, u64 resume, u64 only, u64 upto) {
  fflush(stdout); fflush(stderr);
  Slot *s = &shm->s[w];
  s->in_case = 0; s->finished = 0;
  pid_t p = fork();
  if (p) return p;
  std::string dir = tmproot + "/w" + std::to_string(w);
  mkdir(dir.c_str(), 0755);
  int e = open(errfile(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  dup2(e, 2); close(e);
  out_fd = open((tmproot + "/out." + std::to_string(w)).c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
  dup2(out_fd, 1); close(out_fd);
  int z = open("/dev/null", O_RDONLY); dup2(z, 0); close(z);
  hv_fd_baseline();
  HV h;
  h.prop = prop; h.w = w % g_W; h.W = g_W; h.thorough = thorough; h.tmp = dir;
  only_idx = only; upto_idx = upto; resume_idx = resume;
  slot = s; hv = &h;
  g_explore(h);
  s->finished = 1;
  if (__gcov_dump) __gcov_dump();
  _exit(0);
}
static std::string crash_text(int w, int st) {
  char b[400] = "";
  FILE *f = fopen(errfile(w).c_str(), "r");
  std::string t;
  if (f) { while (fgets(b, sizeof b, f)) { if (strstr(b, "ERROR: AddressSanitizer") || strstr(b, "SUMMARY") || strstr(b, "outside a case") || strstr(b, "cannot write") || strstr(b, "ssertion")) { t += b; } } fclose(f); }
  for (auto &c : t) if (c == '\n') c = ' ';
  char x[100];
  if (WIFSIGNALED(st)) snprintf(x, sizeof x, "[signal %d]", WTERMSIG(st)); else snprintf(x, sizeof x, "[exit %d]", WEXITSTATUS(st));
  return t + x;
}
static std::string crash_key(const std::string &t) {
  size_t i = t.find("AddressSanitizer: ");
  if (i != std::string::npos) { i += 18; size_t j = t.find(' ', i); return "crash:" + t.substr(i, j - i); }
  return "crash";
}
static void rmtree(const std::string &d) {
  DIR *D = opendir(d.c_str());
  if (!D) return;
  while (struct dirent *e = readdir(D)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
  }
  closedir(D);
  rmdir(d.c_str());
}
static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
// runs one worker to its end; true when it recorded a failure, crashed or hung
static bool confirm(const char *prop, bool thorough, int w, u64 only, u64 upto, double limit) {
  int slotno = g_W;  // spare slot; w % g_W must stay the worker's number for upto runs
  Slot *s = &shm->s[slotno + w];
  memset((void *)s, 0, sizeof *s);
  pid_t p = spawn(slotno + w, thorough, prop, 0, only, upto);
  double t0 = now();
  u64 li = 0, ls = 0;
  for (;;) {
    int st; pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) return s->nf > 0 || !((WIFEXITED(st) && WEXITSTATUS(st) == 0) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL));
    if (s->idx != li || s->steps != ls) { li = s->idx; ls = s->steps; t0 = now(); }
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return s->in_case; }
    usleep(5000);
  }
}

int hv_main(int argc, char **argv, const char *prop, void (*explore)(HV &)) {
  // args: tier seed outfile replaydir knownfile seconds [--only N | --worker w N] [--workers n]
  const char *tier = argc > 1 ? argv[1] : "quick";
  int seed = argc > 2 ? atoi(argv[2]) : 1;
  std::string out = argc > 3 ? argv[3] : "/dev/null", rdir = argc > 4 ? argv[4] : "/tmp", known = argc > 5 ? argv[5] : "";
  double secs = argc > 6 ? atof(argv[6]) : 600;
  bool thorough = !strcmp(tier, "thorough");
  u64 only = 0, upto = 0; int uw = -1;
  g_W = 8;
  for (int i = 7; i < argc; i++) {
    if (!strcmp(argv[i], "--only") && i + 1 < argc) only = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--worker") && i + 2 < argc) { uw = atoi(argv[++i]); upto = strtoull(argv[++i], 0, 10); }
    else if (!strcmp(argv[i], "--workers") && i + 1 < argc) g_W = atoi(argv[++i]);
  }
  g_explore = explore;
  double t0 = now();
  deadline = t0 + secs;
  shm = (Shm *)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  setcap = thorough ? (u64)1 << 26 : (u64)1 << 23;
  set = (volatile u64 *)mmap(0, setcap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  char td[] = "/tmp/hvrun.XXXXXX";
  if (!mkdtemp(td)) { perror("mkdtemp"); return 2; }
  tmproot = td;
  if (only || upto) {  // replay
    int w = uw < 0 ? (int)(only % g_W) : uw;
    deadline = 0;
    memset((void *)&shm->s[w], 0, sizeof(Slot));
    bool bad = confirm(prop, thorough, w, only, upto, 300);
    Slot *s = &shm->s[g_W + w];
    for (int i = 0; i < s->nf; i++) printf("FAIL %s\n  case %s\n  %s\n", s->f[i].key, s->f[i].desc, s->f[i].msg);
    if (bad && !s->nf) { printf("FAIL crash or hang in case %s\n", s->desc); std::string c = "cat " + errfile(g_W + w); if (system(c.c_str())) {} }
    if (!bad) printf("no failure\n");
    rmtree(tmproot);
    return bad ? 1 : 0;
  }
  struct WS { pid_t p; u64 li, ls; double t; int restarts; bool live; } ws[MAXW] = {};
  int live = 0;
  for (int w = 0; w < g_W; w++) { ws[w] = {spawn(w, thorough, prop, 0, 0, 0), 0, 0, now(), 0, true}; live++; }
  double hang = 40; char killed[160] = "";
  bool broken = false; std::string brokentxt;
  bool stop = getenv("HV_STOP") != NULL;  // only for the maintenance tools: end at the first failure, unconfirmed
  while (live) {
    usleep(3000);
    if (stop) for (int w = 0; w < g_W; w++) if (shm->s[w].nf > 0) {
      printf("STOPPED %s: %s [%s]\n", shm->s[w].f[0].key, shm->s[w].f[0].msg, shm->s[w].f[0].desc); fflush(stdout);
      for (int x = 0; x < g_W; x++) if (ws[x].live) { kill(ws[x].p, SIGKILL); int st; waitpid(ws[x].p, &st, 0); }
      rmtree(tmproot);
      return 1;
    }
    for (int w = 0; w < g_W; w++) {
      if (!ws[w].live) continue;
      Slot *s = &shm->s[w];
      int st = 0; pid_t r = waitpid(ws[w].p, &st, WNOHANG);
      bool again = false;
      if (r == ws[w].p) {
        if (s->finished && WIFEXITED(st) && WEXITSTATUS(st) == 0) { ws[w].live = false; live--; continue; }
        if (!s->in_case) { broken = true; brokentxt = "worker ended outside a case: " + crash_text(w, st); ws[w].live = false; live--; continue; }
        std::string t = crash_text(w, st);
        // only the outside ends a worker with SIGKILL (memory ran out): this execution is not covered
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) snprintf(killed, sizeof killed, "ended from outside (memory) in: %.80s", s->desc);
        else record(s, s->idx, crash_key(t).c_str(), s->desc, t.c_str());
        again = true;
      } else {
        if (s->idx != ws[w].li || s->steps + s->beat != ws[w].ls || !s->in_case) { ws[w].li = s->idx; ws[w].ls = s->steps + s->beat; ws[w].t = now(); }
        else if (now() - ws[w].t > (s->huge ? 6 * hang : hang)) {
          kill(ws[w].p, SIGKILL); waitpid(ws[w].p, &st, 0);
          record(s, s->idx, "hang", s->desc, "the call does not return");
          again = true;
        }
      }
      if (again) {
        s->cases++;
        if (++ws[w].restarts > 3) { s->capped = 1; snprintf(s->cap, sizeof s->cap, "stopped after repeated crashes"); ws[w].live = false; live--; continue; }
        ws[w].p = spawn(w, thorough, prop, s->idx, 0, 0); ws[w].t = now();
      }
    }
  }
  // collect
  u64 cases = 0, steps = 0; int capped = killed[0] != 0; std::string cap = killed;
  std::map<std::string, std::pair<int, Fail>> fs;
  for (int w = 0; w < g_W; w++) {
    Slot *s = &shm->s[w];
    cases += s->cases; steps += s->steps; if (s->capped) { capped = 1; cap = s->cap; }
    for (int i = 0; i < s->nf; i++) {
      auto it = fs.find(s->f[i].key);
      if (it == fs.end() || s->f[i].idx < it->second.second.idx) fs[s->f[i].key] = {w, s->f[i]};
    }
  }
  std::vector<std::string> kn;
  if (!known.empty()) {
    std::ifstream kf(known); std::string ln, pre = std::string("known: property=") + prop + " ";
    while (std::getline(kf, ln)) if (ln.compare(0, pre.size(), pre) == 0) kn.push_back(ln.substr(pre.size()));
  }
  int viol = 0, nk = 0, nconf = 0; std::string viols;
  std::vector<std::pair<u64, std::string>> order;
  for (auto &k : fs) order.push_back({k.second.second.idx, k.first});
  std::sort(order.begin(), order.end());
  for (auto &o : order) {
    Fail &f = fs[o.second].second; int w = fs[o.second].first;
    if (nconf >= 6) break;
    nconf++;
    deadline = 0;
    std::string id = std::string(f.key) + " @ " + f.desc;
    const std::string *hit = nullptr;
    for (auto &k : kn) if (id.find(k) != std::string::npos) hit = &k;
    double lim = o.second == "hang" ? 200 : 100;
    std::string how;
    if (confirm(prop, thorough, w, f.idx, 0, lim)) how = "--only " + std::to_string(f.idx);
    else if (o.second != "hang" && confirm(prop, thorough, w, 0, f.idx, lim)) how = "--worker " + std::to_string(w) + " " + std::to_string(f.idx);
    else { printf("note: not reproduced, not reported: %s: %s\n", id.c_str(), f.msg); continue; }
    if (hit) { nk++; printf("KNOWN-FINDING: property=%s %s\n", prop, hit->c_str()); continue; }
    viol++;
    std::string rp = rdir + "/replay-" + prop + "-" + std::to_string(viol) + ".txt";
    FILE *r = fopen(rp.c_str(), "w");
    if (r) { fprintf(r, "property %s\ntier %s\ncase %s\nfailure %s: %s\nreplay: cd /verif && python3 run.py %s %s %s\n", prop, tier, f.desc, f.key, f.msg, prop, tier, how.c_str()); fclose(r); }
    printf("VIOLATION property=%s replay=%s\n", prop, rp.c_str());
    printf("  %s: %s\n  case: %s\n", f.key, f.msg, f.desc);
    viols += (viols.empty() ? "" : ", ") + std::string("\"") + esc(id + ": " + f.msg) + "\"";
  }
  std::string samples;
  for (int k = 0; k < NSAMP; k++) for (int w = 0; w < g_W && w < 3; w++) { Slot *s = &shm->s[w]; if (k < s->ns) samples += (samples.empty() ? "" : ", ") + std::string("\"") + esc(s->samp[k]) + "\""; }
  FILE *o = fopen(out.c_str(), "w");
  if (o) {
    fprintf(o, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %d, \"level\": \"model_checking\",\n \"coverage\": {\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu,\n  \"exhaustive\": %s, \"states_note\": \"distinct observed results%s\"%s%s%s,\n  \"violations_seen\": [%s],\n  \"samples\": [%s]},\n",
            prop, tier, seed, (unsigned long long)shm->nstates, (unsigned long long)steps, (unsigned long long)cases, capped ? "false" : "true", shm->full ? " (the set filled up, this is a lower bound)" : "",
            capped ? ", \"capped\": \"" : "", capped ? esc(cap).c_str() : "", capped ? "\"" : "", viols.c_str(), samples.c_str());
    fprintf(o, " \"assumptions\": [\"inputs inside the stated bounds\", \"gcc 13 x86-64 build of /repo with AddressSanitizer; malloc, exit, rand, srand and time answered by the explorer\"],\n \"violations\": %d, \"wall_s\": %.2f}\n", viol, now() - t0);
    fclose(o);
  }
  printf("%s %s: %llu executions, %llu library calls, %llu distinct results, %.1f s%s%s, %d violation(s), %d known\n", prop, tier, (unsigned long long)cases, (unsigned long long)steps, (unsigned long long)shm->nstates, now() - t0, capped ? ", capped: " : "", cap.c_str(), viol, nk);
  rmtree(tmproot);
  if (viol) return 1;
  if (broken) { printf("ERROR: %s\n", brokentxt.c_str()); return 2; }
  return 0;
}
