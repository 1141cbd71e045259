// C30: inputs of every operation are the same after the call as before.
#define HV_GUI
#include "ops.h"

static void inputs(const Op &o, int a, int b, int k, int special = 0) {
  Ctx c; c.dstfill = 3; c.special = special;
  run_op(o, c, a, b, k);
  const Ctx::In *i = c.changed();
  if (i) {
    size_t p = 0; while (((const u8 *)i->p)[p] == i->was[p]) p++;
    hv->fail("input", "%s changed its %s at byte %zu of %zu from %d to %d", o.name.c_str(), i->name.c_str(), p, i->was.size(), i->was[p], ((const u8 *)i->p)[p]);
  }
  hv->state(hv_hash(c.out.data(), c.out.size()));
  c.release();
}
// the same input shared by two calls with different operations is covered by equality of the snapshot
static void explore(HV &h) {
  int N = h.thorough ? 10 : 6, M = h.thorough ? 7 : 4;
  std::vector<int> E = {15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129}, E1 = {255, 256, 257, 1000};
  for (auto &o : ops()) {
    std::set<std::vector<int>> sh;
    if (o.dims == 2) {
      for (int r = o.lo; r <= N; r++) for (int c = o.lo; c <= N; c++) sh.insert({r, c, 0});
      for (int e : E) for (int s = o.lo; s <= o.lo + 2; s++) { sh.insert({e, s, 0}); sh.insert({s, e, 0}); }
      for (int e : E1) { sh.insert({e, o.lo, 0}); sh.insert({o.lo, e, 0}); }
      for (auto &d : {std::pair<int,int>{70, 70}, {130, 67}, {257, 300}, {513, 260}}) sh.insert({d.first, d.second, 0});
      if (h.thorough) { sh.insert({513, 1025, 0}); sh.insert({1031, 1027, 0}); }
    } else if (o.dims == 3) {
      for (int s = 1; s <= M; s++) for (int l = 1; l <= M; l++) for (int b = 1; b <= M; b++) sh.insert({s, l, b});
      for (int e : E) for (int ax = 0; ax < 3; ax++) { std::vector<int> d = {2, 3, 2}; d[ax] = e; sh.insert(d); }
      for (int e : E1) for (int ax = 0; ax < 3; ax++) { std::vector<int> d = {1, 1, 1}; d[ax] = e; sh.insert(d); }
      sh.insert({33, 17, 9}); sh.insert({65, 37, 33}); sh.insert({203, 130, 7}); sh.insert({64, 64, 64});
      if (h.thorough) { sh.insert({257, 300, 31}); sh.insert({1031, 1027, 3}); }
    } else { for (int e : {100, 255, 256, 257, 1000, 4097}) sh.insert({e, 0, 0}); for (int n = 1; n <= 64; n++) sh.insert({n, 0, 0}); }
    // extreme values and numbers that are none
    for (auto &d : sh) if (d[0] * std::max(d[1], 1) * std::max(d[2], 1) <= (h.thorough ? 5000 : 36)) for (int s = 1; s <= 4; s++) h.run([&] { inputs(o, d[0], d[1], d[2], s); }, "%s at %d %d %d, special values %d", o.name.c_str(), d[0], d[1], d[2], s);
    for (auto &d : sh) h.run([&] { inputs(o, d[0], d[1], d[2]); }, "%s at %d %d %d", o.name.c_str(), d[0], d[1], d[2]);
  }
}
int main(int c, char **v) { return hv_main(c, v, "C30", explore); }
