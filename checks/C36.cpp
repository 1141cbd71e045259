// C36: two operations on objects of their own run as two threads. Sequential runs in both orders show which memory both
// use; schedules switch at every such access and at every allocator and file call.
#define HV_GUI
#include "race.h"

static void shapes(const Op &o, int which, int *d) {
  static const int S2[3][3] = {{5, 4, 0}, {3, 7, 0}, {4, 3, 0}}, S3[3][3] = {{3, 4, 2}, {5, 2, 3}, {2, 3, 4}}, S1[3][3] = {{5, 0, 0}, {9, 0, 0}, {3, 0, 0}};
  memcpy(d, o.dims == 2 ? S2[which] : o.dims == 3 ? S3[which] : S1[which], 12);
}
struct Job { const Op *o; int d[3]; int salt, id; Bytes out; int died; long points; };
static void body(Job &j) {
  Ctx c; c.snap = false; c.n = j.salt; c.id = j.id; c.dstfill = 0;
  run_op(*j.o, c, j.d[0], j.d[1], j.d[2]);
  j.out = c.out;
  c.release();
}
static void go(Job &a, Job &b, int first, const std::vector<long> &plan, std::unordered_map<uintptr_t, u8> *con) {
  a.out.clear(); b.out.clear();
  hv_damaged = 0;
  R.body[0] = [&] { body(a); }; R.body[1] = [&] { body(b); };
  race_run(first, plan, con);
  CHECK(hv_damaged == 0, "overrun", "%s and %s, thread %d first, interrupted %zu times: memory around a block was written", a.o->name.c_str(), b.o->name.c_str(), first, plan.size());
  a.died = R.died[0]; b.died = R.died[1]; a.points = R.points[0]; b.points = R.points[1];
}
static void same(const Job &g, const Job &w, const std::string &how) {
  CHECK(g.died == w.died, "exit", "%s: %s %s", how.c_str(), g.o->name.c_str(), g.died ? "ended the program" : "did not end the program");
  CHECK(g.out.size() == w.out.size(), "result", "%s: %s delivered %zu bytes, alone %zu", how.c_str(), g.o->name.c_str(), g.out.size(), w.out.size());
  same_bytes(g.out.data(), w.out.data(), w.out.size(), "result", (how + ": result of " + g.o->name).c_str());
}
static void pair_(const Op &A, const Op &B, int sa, int sb, int salt, long cap, bool deep) {
  Job a, b; a.o = &A; b.o = &B; shapes(A, sa, a.d); shapes(B, sb, b.d); a.salt = 0; b.salt = salt; a.id = 1; b.id = 2;
  // sequential, both orders: the reference, and the memory both use
  go(a, b, 0, {}, NULL);
  auto con = race_conflicts();
  Job ra = a, rb = b;
  go(a, b, 1, {}, NULL);
  for (auto &x : race_conflicts()) con.insert(x);
  same(a, ra, "second instead of first"); same(b, rb, "first instead of second");
  if (!deep && con.empty()) { hv->state(hv_mix(hv_hash(a.out.data(), a.out.size()), hv_hash(b.out.data(), b.out.size()))); return; }
  // how many scheduling points there are now
  go(a, b, 0, {}, &con);
  long na = a.points, nb = b.points, runs = 0;
  same(a, ra, "sequentially"); same(b, rb, "sequentially");
  for (int first = 0; first < 2; first++) {
    long n1 = first ? nb : na, n2 = first ? na : nb;
    for (long i = 0; i < n1; i++) {
      go(a, b, first, {i}, &con); hv->step(); runs++;
      std::string h = "thread " + std::to_string(first) + " interrupted at point " + std::to_string(i);
      same(a, ra, h); same(b, rb, h);
    }
    if (n1 * n2 > cap) continue;
    for (long i = 0; i < n1; i++) for (long k = 0; k < n2; k++) {
      go(a, b, first, {i, k}, &con); hv->step(); runs++;
      std::string h = "thread " + std::to_string(first) + " interrupted at point " + std::to_string(i) + ", the other at point " + std::to_string(k);
      same(a, ra, h); same(b, rb, h);
    }
  }
  hv->state(hv_mix(hv_mix(hv_hash(a.out.data(), a.out.size()), hv_hash(b.out.data(), b.out.size())), runs));
}
static void explore(HV &h) {
  auto &O = ops();
  int n = O.size();
  long cap = h.thorough ? 3000 : 400;
  // an operation against itself: other shapes, other data
  for (int i = 0; i < n; i++) for (int s = 0; s < 3; s++) for (int t = 0; t < 3; t++) {
    if (s > t) continue;
    h.run([&] { pair_(O[i], O[i], s, t, s == t ? 50 : 0, cap, true); }, "%s twice, shapes %d and %d", O[i].name.c_str(), s, t);
  }
  // every pair
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
    if (!h.thorough && (j - i) % 97 > 12) continue;
    h.run([&] { pair_(O[i], O[j], 0, 1, 0, h.thorough ? 100 : 0, h.thorough); }, "%s with %s", O[i].name.c_str(), O[j].name.c_str());
  }
}
int main(int c, char **v) { return hv_main(c, v, "C36", explore); }
