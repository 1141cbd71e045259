// C25: results depend on the arguments only.
#define HV_GUI
#include "ops.h"
#include <sys/wait.h>

// a process in which the library has not run yet forks one child per question, so that the
// reference result of every call comes from a fresh library
static int zq = -1, za = -1;
struct Ask { int op, a, b, k, sp; };
static u64 run(int op, int a, int b, int k, int dstfill, int sp = 0) {
  Ctx c; c.dstfill = dstfill; c.snap = false; c.special = sp;
  run_op(ops()[op], c, a, b, k);
  u64 h = hv_hash(c.out.data(), c.out.size());
  c.release();
  return h;
}
static void zygote(const std::string &dir) {
  int q[2], r[2];
  if (pipe(q) || pipe(r)) _exit(79);
  ops();
  pid_t p = fork();
  if (p == 0) {
    close(q[1]); close(r[0]);
    Ask x;
    std::string d = dir + "/z"; mkdir(d.c_str(), 0755);
    while (read(q[0], &x, sizeof x) == sizeof x) {
      pid_t c = fork();
      if (c == 0) {
        HV h; h.tmp = d; hv = &h;
        u64 v = 0;
        hv_env.fill = 0; hv_env.residue = 0;
        jmp_buf j; hv_catch = &j;
        if (setjmp(j) == 0) v = run(x.op, x.a, x.b, x.k, 0, x.sp); else v = 0xdead;
        if (write(r[1], &v, 8) != 8) _exit(1);
        _exit(0);
      }
      int st; waitpid(c, &st, 0);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { u64 v = 0xdeadbeef; if (write(r[1], &v, 8) != 8) _exit(1); }
    }
    _exit(0);
  }
  close(q[0]); close(r[1]);
  zq = q[1]; za = r[0];
}
static u64 fresh(int op, int a, int b, int k, int sp = 0) {
  static std::map<std::vector<int>, u64> memo;
  std::vector<int> key = {op, a, b, k, sp};
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  Ask x = {op, a, b, k, sp}; u64 v = 0;
  if (write(zq, &x, sizeof x) != sizeof x || read(za, &v, 8) != 8) { fprintf(stderr, "cannot write zygote\n"); _exit(79); }
  memo[key] = v;
  return v;
}
static void shapes(const Op &o, int which, int *d) {
  static const int S2[8][3] = {{5, 4, 0}, {3, 7, 0}, {6, 6, 0}, {4, 3, 0}, {9, 5, 0}, {35, 66, 0}, {257, 130, 0}, {300, 513, 0}}, S3[8][3] = {{3, 4, 2}, {5, 2, 3}, {2, 2, 4}, {4, 5, 1}, {1, 6, 3}, {33, 17, 9}, {65, 37, 33}, {203, 130, 7}}, S1[8][3] = {{5, 0, 0}, {9, 0, 0}, {3, 0, 0}, {17, 0, 0}, {7, 0, 0}, {70, 0, 0}, {300, 0, 0}, {5000, 0, 0}};
  memcpy(d, o.dims == 2 ? S2[which] : o.dims == 3 ? S3[which] : S1[which], 12);
}
static void explore(HV &h) {
  zygote(h.tmp);
  std::vector<Op> &O = ops();
  int n = (int)O.size();
  // contents of fresh memory, placement, contents of destinations
  static const int FILL[6] = {0x00, 0xA5, 0xFF, 0x7F, 0x01, 0x3C};
  for (int o = 0; o < n; o++) for (int w = 0; w < 5; w++) {
    int d[3]; shapes(O[o], w, d);
    for (int f = 0; f < 6; f++) for (int r = 0; r < 4; r++) for (int df = 0; df < 4; df++) {
      if (!h.thorough && r && df) continue;
      h.run([&] {
        u64 want = fresh(o, d[0], d[1], d[2]);
        hv_env.fill = FILL[f]; hv_env.residue = r;
        u64 got = run(o, d[0], d[1], d[2], df);
        h.state(got);
        CHECK(got == want, "memory", "%s: the result differs from that of a fresh process when fresh memory holds %d, is placed at %d and the destination held pattern %d", O[o].name.c_str(), FILL[f], r * 16, df);
      }, "%s at %d %d %d, memory %d placement %d destination %d", O[o].name.c_str(), d[0], d[1], d[2], FILL[f], r, df);
    }
  }
  // every ordered pair: the first operation, the second, the first again
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int w = 0; w < (h.thorough ? 5 : 1); w++) {
    h.run([&] {
      int d[3], e[3]; shapes(O[a], w, d); shapes(O[b], h.thorough ? (w * 2 + 1) % 5 : (a + b) % 5, e);
      u64 want = fresh(a, d[0], d[1], d[2]);
      u64 x = run(a, d[0], d[1], d[2], 1);
      CHECK(x == want, "history", "%s: the result differs from that of a fresh process", O[a].name.c_str());
      run(b, e[0], e[1], e[2], 2);
      u64 y = run(a, d[0], d[1], d[2], 3);
      CHECK(y == want, "history", "%s: the result changed after %s", O[a].name.c_str(), O[b].name.c_str());
      h.state(hv_mix(x, y));
    }, "%s, then %s, then again, shapes %d", O[a].name.c_str(), O[b].name.c_str(), w);
  }
  // the same operation over every order of five shapes
  for (int a = 0; a < n; a++) {
    int p[5] = {0, 1, 2, 3, 4};
    do {
      h.run([&] {
        for (int i = 0; i < 5; i++) {
          int d[3]; shapes(O[a], p[i], d);
          u64 want = fresh(a, d[0], d[1], d[2]), got = run(a, d[0], d[1], d[2], i % 4);
          CHECK(got == want, "order", "%s: call %d of a sequence differs from that of a fresh process", O[a].name.c_str(), i + 1);
          h.state(got);
        }
      }, "%s at shapes in the order %d%d%d%d%d", O[a].name.c_str(), p[0], p[1], p[2], p[3], p[4]);
    } while (std::next_permutation(p, p + (h.thorough ? 5 : 4)));
  }
  // ordinary, constant and extreme values in turn
  for (int a = 0; a < n; a++) for (int w = 0; w < (h.thorough ? 6 : 2); w++) for (int s = 1; s <= 4; s++) h.run([&] {
    int d[3]; shapes(O[a], w, d);
    const int seq[7] = {0, s, 0, s % 4 + 1, s, s, 0};
    for (int i = 0; i < 7; i++) {
      u64 want = fresh(a, d[0], d[1], d[2], seq[i]);
      hv_env.fill = FILL[(i + s) % 6]; hv_env.residue = i % 4;
      u64 got = run(a, d[0], d[1], d[2], i % 4, seq[i]);
      CHECK(got == want, "value history", "%s at %d %d %d: call %d of a sequence of ordinary and special values differs from that of a fresh process", O[a].name.c_str(), d[0], d[1], d[2], i + 1);
      h.state(got);
    }
  }, "%s at shape %d, special values %d", O[a].name.c_str(), w, s);
  // small and large inputs in turn
  static const int BS[][6] = {{0, 6, 1, 5, 6, 0}, {6, 5, 4, 7, 2, 7}, {5, 0, 7, 0, 6, 5}};
  for (int a = 0; a < n; a++) for (auto &q : BS) h.run([&] {
    for (int i = 0; i < 6; i++) {
      int d[3]; shapes(O[a], q[i], d);
      u64 want = fresh(a, d[0], d[1], d[2]);
      hv_env.fill = FILL[i]; hv_env.residue = i % 4;
      u64 got = run(a, d[0], d[1], d[2], i % 4);
      CHECK(got == want, "size history", "%s at %d %d %d: call %d of a sequence of small and large inputs differs from that of a fresh process", O[a].name.c_str(), d[0], d[1], d[2], i + 1);
      h.state(got);
    }
  }, "%s at shapes %d%d%d%d%d%d, small and large", O[a].name.c_str(), q[0], q[1], q[2], q[3], q[4], q[5]);
}
int main(int c, char **v) { return hv_main(c, v, "C25", explore); }
