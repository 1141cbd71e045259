// C04: memory and descriptor discipline of every operation, for every shape, repeated.
#define HV_GUI
#include "ops.h"

static void discipline(const Op &o, int a, int b, int k, int residue, int special = 0) {
  hv_env.residue = residue;
  int fds = hv_open_fds();
  long live[5];
  u64 h = 0;
  for (int rep = 0; rep < 5; rep++) {
    long before = hv_env.live;
    Ctx c; c.dstfill = rep % 4; c.snap = false; c.special = special;
    run_op(o, c, a, b, k);
    h = hv_mix(h, hv_hash(c.out.data(), c.out.size()));
    c.release();
    live[rep] = hv_env.live - before;
    CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
  }
  // a table built on first use may stay; growth on every repetition is a leak
  CHECK(!(live[2] > 0 && live[3] > 0 && live[4] > 0), "leak", "every call keeps %ld block(s)", live[4]);
  hv->state(h);
}
static void explore(HV &h) {
  int N = h.thorough ? 7 : 4;
  std::vector<int> E = {15, 16, 17, 33, 64, 65}, E1 = {100, 255, 256, 257, 1000};
  for (auto &o : ops()) {
    std::set<std::vector<int>> sh;
    if (o.dims == 2) {
      for (int r = o.lo; r <= N + 2; r++) for (int c = o.lo; c <= N + 2; c++) sh.insert({r, c, 0});
      for (int e : E) for (int s = o.lo; s <= o.lo + 2; s++) { sh.insert({e, s, 0}); sh.insert({s, e, 0}); }
      for (int e : E1) { sh.insert({e, o.lo, 0}); sh.insert({o.lo, e, 0}); }
      sh.insert({130, 67, 0}); sh.insert({257, 300, 0});
      if (h.thorough) { sh.insert({513, 1025, 0}); sh.insert({1031, 1027, 0}); }
    } else if (o.dims == 3) {
      for (int s = 1; s <= N; s++) for (int l = 1; l <= N; l++) for (int b = 1; b <= N; b++) sh.insert({s, l, b});
      for (int e : E) for (int ax = 0; ax < 3; ax++) { std::vector<int> d = {2, 3, 2}; d[ax] = e; sh.insert(d); }
      for (int e : E1) for (int ax = 0; ax < 3; ax++) { std::vector<int> d = {1, 1, 1}; d[ax] = e; sh.insert(d); }
      sh.insert({65, 37, 33}); sh.insert({203, 130, 7});
      if (h.thorough) { sh.insert({257, 300, 31}); sh.insert({1031, 1027, 3}); }
    } else {
      for (int n = 1; n <= 40; n++) sh.insert({n, 0, 0});
      for (int e : E1) sh.insert({e, 0, 0});
    }
    // extreme values and numbers that are none
    for (auto &d : sh) if (d[0] * std::max(d[1], 1) * std::max(d[2], 1) <= (h.thorough ? 5000 : 20)) for (int s = 1; s <= 4; s++) h.run([&] { discipline(o, d[0], d[1], d[2], (d[0] + d[1] + s) % 4, s); }, "%s at %d %d %d, special values %d", o.name.c_str(), d[0], d[1], d[2], s);
    for (auto &d : sh) for (int res = 0; res < (h.thorough ? 4 : 1); res++) h.run([&] { discipline(o, d[0], d[1], d[2], h.thorough ? res : (d[0] + d[1] + d[2]) % 4); }, "%s at %d %d %d placement %d", o.name.c_str(), d[0], d[1], d[2], res);
  }
}
int main(int c, char **v) { return hv_main(c, v, "C04", explore); }
