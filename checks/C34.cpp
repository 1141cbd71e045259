// C34: edge signal energy against its definition in exact integer arithmetic.
#include "imgref.h"
static double want(const Img &g) {  // the two kernels add up to (0 -2 0, -2 8 -2, 0 -2 0) / 6
  long long s = 0;
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) {
    long long r = 8 * g.get(i, j, 0) - 2 * (g.at(i - 1, j, 0, 0) + g.at(i + 1, j, 0, 0) + g.at(i, j - 1, 0, 0) + g.at(i, j + 1, 0, 0));
    s += r * r;
  }
  return (double)s / 36 / g.R / g.C;
}
static double energy(const Img &g) {
  simple_mat m = matof(g);
  float e = L(cal_edge_signal_energy(m));
  same_img(m, g, "source", "the image changed");
  delete_simple_mat(m);
  CHECK(hv_env.live == 0, "leak", "%ld blocks are still allocated", hv_env.live);
  hv->state(hv_hash(&e, 4));
  return e;
}
static double one(const Img &g) {
  double e = energy(g), w = want(g);
  CHECK(e >= 0, "negative", "the energy is %g", e);
  CHECK(near_(e, w, 2e-6, 4e-4 * sqrt(w) + 1e-7), "energy", "energy of a %d x %d image is %.9g, by definition %.9g", g.R, g.C, e, w);
  return e;
}
static void mirrors(const Img &g) {
  double e = one(g);
  for (int k = 1; k < 8; k++) {
    Img o = k & 4 ? Img{g.C, g.R, 1, g.d} : g;
    for (int i = 0; i < o.R; i++) for (int j = 0; j < o.C; j++) { int a = k & 1 ? o.R - 1 - i : i, b = k & 2 ? o.C - 1 - j : j; o.d[(size_t)i * o.C + j] = k & 4 ? g.get(b, a, 0) : g.get(a, b, 0); }
    double f = energy(o);
    CHECK(near_(e, f, 2e-6, 4e-4 * sqrt(e) + 1e-7), "mirror", "the mirrored image (%d) has energy %.9g instead of %.9g", k, f, e);
  }
}
static void explore(HV &h) {
  const u8 al[5] = {0, 255, 1, 128, 100};
  auto sweep = [&](int R, int C, int na) {
    u64 n = 1; for (int i = 0; i < R * C; i++) n *= na;
    for (u64 b = 0; b < n; b += 128) h.run([&] { for (u64 c = b; c < n && c < b + 128; c++) { Img g{R, C, 1, std::vector<u8>((size_t)R * C)}; u64 q = c; for (u8 &v : g.d) { v = al[q % na]; q /= na; } if (c % 8 == 0) mirrors(g); else one(g); } }, "images %d x %d over %d levels from %llu", R, C, na, b);
  };
  sweep(1, 1, 5); sweep(1, 2, 5); sweep(2, 1, 5); sweep(1, 5, 4); sweep(5, 1, 4); sweep(2, 2, 5); sweep(2, 3, 4); sweep(3, 2, 4); sweep(3, 3, 3); sweep(2, 5, 3); sweep(3, 4, 2); sweep(4, 3, 2);
  if (h.thorough) { sweep(3, 3, 4); sweep(4, 4, 2); sweep(2, 7, 2); sweep(3, 5, 2); }
  for (int v = 0; v < 256; v++) h.run([&] { one(Img{1, 1, 1, {(u8)v}}); Img g{6, 7, 1, std::vector<u8>(42, (u8)v)}; mirrors(g); g.d[17] = 0; one(g); g.d[17] = 255; one(g); }, "constant image of %d", v);
  int M = h.thorough ? 12 : 8;
  for (int R = 1; R <= M; R++) for (int C = 1; C <= M; C++) h.run([&] { for (int p = 0; p < R * C; p++) { Img g{R, C, 1, std::vector<u8>((size_t)R * C)}; g.d[p] = 255; one(g); for (u8 &v : g.d) v = 255 - v; one(g); } for (int k = 0; k < 7; k++) mirrors(pattern(R, C, 1, k)); }, "impulses in %d x %d", R, C);
  for (int S : {31, 32, 33, 127, 128, 129, 255, 256, 257, 1023, 1025}) for (int k : {0, 1, 3}) h.run([&] { mirrors(pattern(S, S / 3 + 2, 1, k)); mirrors(pattern(3, S, 1, k)); one(pattern(S, 1, 1, k)); one(pattern(1, S * 70, 1, k)); }, "pattern %d of about %d pixels", k, S);
  for (int k : {0, 1, 2}) h.run([&] { one(pattern(4200, 4100, 1, k)); }, "more than 2^24 pixels, pattern %d", k);
  for (auto &b : BIG) for (int k : {0, 1, 3}) h.run([&] { mirrors(pattern(b[0], b[1], 1, k)); }, "pattern %d of %d x %d", k, b[0], b[1]);
}
int main(int c, char **v) { return hv_main(c, v, "C34", explore); }
