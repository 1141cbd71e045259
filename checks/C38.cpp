// C38: every allocation of every operation is refused, alone and with all later ones. The operation says so and ends
// the program (or gives no object), or its results are those of an undisturbed run.
#define HV_GUI
#define HV_CXX
#include "ops.h"

extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept { printf("%s:%u: assertion %s failed\n", f, l, e); hv_exit(134); }
static void refuse(const Op &o, int a, int b, int k, int fill, long most) {
  hv_env.fill = fill; hv_env.residue = 1;
  Ctx c; c.snap = false; c.dstfill = 3;
  hv_env.asked = 0;
  run_op(o, c, a, b, k);
  long n = hv_env.asked;
  Bytes want = c.out;
  c.release();
  long live = hv_env.live;
  for (int on = 0; on < 2; on++) for (long q = 1; q <= n; q++) {
    if (n > most && q > most / 2 && q <= n - most / 4 && q % (n / (most / 4) + 1)) continue;
    Ctx d; d.snap = false; d.dstfill = 3;
    long out = hv_stdout_bytes();
    hv_env.fail_on = on; hv_env.fail_at = q;
    int ended = hv_call([&] { run_op(o, d, a, b, k); });
    hv_env.fail_at = 0;
    hv->step();
    if (ended) {
      CHECK(hv_status != 0, "status", "allocation %ld of %ld refused: the program ended with status 0", q, n);
      CHECK(hv_stdout_bytes() > out, "silent", "allocation %ld of %ld refused: the program ended without a word", q, n);
      hv->state(hv_mix(hv->idx, q * 2 + on));
    } else {
      // either it did without that memory, or it reports that there is no object (-77, -78)
      double none[2] = {-77.0, -78.0};
      bool no = d.out.size() == 8 && (!memcmp(d.out.data(), none, 8) || !memcmp(d.out.data(), none + 1, 8));
      CHECK(d.out == want || no, "result", "allocation %ld of %ld refused: other results", q, n);
      if (no) CHECK(hv_stdout_bytes() > out, "silent", "allocation %ld of %ld refused: no object and no word", q, n);
      d.release();
      CHECK(hv_env.live == live, "leak", "allocation %ld of %ld refused: %ld blocks are left", q, n, hv_env.live - live);
      hv->state(hv_hash(d.out.data(), d.out.size(), q * 4 + 2 + on));
    }
  }
}
static std::vector<Op> &cxx_ops() {
  static std::vector<Op> v;
  if (!v.empty()) return v;
  typedef hypercv::HyMat HM;
  static const int FM[3] = {HYPERCV_BSQ, HYPERCV_BIL, HYPERCV_BIP};
  auto H = [&](std::string n, std::function<void(Ctx &, int, int, int)> f) { v.push_back({n, 3, 1, true, f}); };
  auto put = [](Ctx &c, HM &m) { if (m.empty()) { c.put(-78.0); return; } int d[5] = {m.samples, m.lines, m.bands, m.dataType, m.format}; c.put(d, sizeof d); c.put(m.data, m.dataSize); if (m.wavelength) c.put(m.wavelength, 4 * (size_t)m.bands); };
  auto mk = [](HM &m, int S, int Ln, int B, int t, int f) { m.create(S, Ln, B, t, FM[f]); fillpat(m.data, m.dataSize, 11); for (int i = 0; i < B; i++) m.wavelength[i] = 400 + i; };
  for (int t : ALLT) for (int f = 0; f < 3; f++) {
    std::string T = std::string(" type ") + std::to_string(t) + " " + ILV[f];
    H("C++ create" + T, [=](Ctx &c, int S, int Ln, int B) { HM m(S, Ln, B, t, FM[f]); put(c, m); L(m.release()); });
    H("C++ copy" + T, [=](Ctx &c, int S, int Ln, int B) { HM m; mk(m, S, Ln, B, t, f); HM k = L(m.copy()); put(c, k); L(m.release()); L(k.release()); });
    H("C++ range" + T, [=](Ctx &c, int S, int Ln, int B) { HM m; mk(m, S, Ln, B, t, f); HM k = L(m.range(Ln / 2, S / 2, B / 2, Ln, S, B)); put(c, k); L(m.release()); L(k.release()); });
    for (int g = 0; g < 3; g++) H("C++ convert to " + std::string(ILV[g]) + T, [=](Ctx &c, int S, int Ln, int B) { HM m; mk(m, S, Ln, B, t, f); L(m.convertTo(FM[g])); put(c, m); L(m.release()); });
    H("C++ convert function" + T, [=](Ctx &c, int S, int Ln, int B) { HM m; mk(m, S, Ln, B, t, f); HM k = f == 0 ? L(hypercv::bsq2bil(m)) : f == 1 ? L(hypercv::bil2bip(m)) : L(hypercv::bip2bsq(m)), q = f == 0 ? L(hypercv::bsq2bip(m)) : f == 1 ? L(hypercv::bil2bsq(m)) : L(hypercv::bip2bil(m)); put(c, k); put(c, q); L(m.release()); L(k.release()); L(q.release()); });
    H("C++ save and open" + T, [=](Ctx &c, int S, int Ln, int B) {
      std::string p = c.path("o.img"), h = c.path("o.hdr");
      HM m; mk(m, S, Ln, B, t, f);
      L(m.save(p.c_str())); L(m.release());
      L(m.open(p.c_str(), h.c_str())); put(c, m); L(m.release());
      L(m.open(p.c_str(), S, Ln, B, t, FM[f])); put(c, m); L(m.release());
    });
  }
  return v;
}
static void explore(HV &h) {
  long most = h.thorough ? 4000 : 400;
  for (int w = 0; w < 2; w++) for (auto &o : w ? cxx_ops() : ops()) {
    std::set<std::vector<int>> sh;
    if (o.dims == 2) { for (int r = o.lo; r <= o.lo + 2; r++) for (int c = o.lo; c <= o.lo + 2; c++) sh.insert({r, c, 0}); sh.insert({7, 9, 0}); sh.insert({33, 20, 0}); }
    else if (o.dims == 3) { for (int s = 1; s <= 3; s++) for (int l = 1; l <= 3; l++) for (int b = 1; b <= 3; b++) sh.insert({s, l, b}); sh.insert({9, 5, 12}); }
    else for (int n : {1, 2, 3, 4, 5, 8, 16, 17, 32, 33, 100, 257}) sh.insert({n, 0, 0});
    for (auto &d : sh) for (int fill : {0xA5, 0}) h.run([&] { refuse(o, d[0], d[1], d[2], fill, most); }, "%s at %d %d %d memory filled with %d", o.name.c_str(), d[0], d[1], d[2], fill);
  }
}
int main(int c, char **v) { return hv_main(c, v, "C38", explore); }
