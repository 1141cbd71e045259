// C27: moment invariants and shape match against their defining polynomials, for every small shape at every position.
#include "imgref.h"
typedef long double ld;
struct Hu { ld h[7], s[7]; };  // value and the sum of absolute terms
static void poly(const ld *u, Hu &o) {
  ld u20 = u[0], u02 = u[1], u11 = u[2], u30 = u[3], u03 = u[4], u12 = u[5], u21 = u[6];
  o.h[0] = u20 + u02;
  o.h[1] = (u20 - u02) * (u20 - u02) + 4 * u11 * u11;
  o.h[2] = (u30 - 3 * u12) * (u30 - 3 * u12) + (3 * u21 - u03) * (3 * u21 - u03);
  ld a = u30 + u12, b = u21 + u03, c = u30 - 3 * u12, d = 3 * u21 - u03;
  o.h[3] = a * a + b * b;
  o.h[4] = c * a * (a * a - 3 * b * b) + d * b * (3 * a * a - b * b);
  o.h[5] = (u20 - u02) * (a * a - b * b) + 4 * u11 * a * b;
  o.h[6] = d * a * (a * a - 3 * b * b) - c * b * (3 * a * a - b * b);
  ld A = fabsl(u30) + fabsl(u12), B = fabsl(u21) + fabsl(u03), C = fabsl(u30) + 3 * fabsl(u12), D = 3 * fabsl(u21) + fabsl(u03), E = fabsl(u20) + fabsl(u02), F = fabsl(u11);
  o.s[0] = E; o.s[1] = E * E + 4 * F * F; o.s[2] = C * C + D * D; o.s[3] = A * A + B * B;
  o.s[4] = C * A * (A * A + 3 * B * B) + D * B * (3 * A * A + B * B);
  o.s[5] = E * (A * A + B * B) + 4 * F * A * B;
  o.s[6] = D * A * (A * A + 3 * B * B) + C * B * (3 * A * A + B * B);
}
static Hu moments(const Img &g, bool upx, bool upy) {
  long long s0 = 0, sx = 0, sy = 0;
  for (int j = 0; j < g.R; j++) for (int i = 0; i < g.C; i++) { int v = g.get(j, i, 0); s0 += v; sx += (long long)i * v; sy += (long long)j * v; }
  auto nearest = [](long long n, long long d, bool up) { long long q = n / d, r = n % d; return 2 * r > d || (2 * r == d && up) ? q + 1 : q; };
  long long cx = nearest(sx, s0, upx), cy = nearest(sy, s0, upy);
  ld u[7] = {0, 0, 0, 0, 0, 0, 0};
  for (int j = 0; j < g.R; j++) for (int i = 0; i < g.C; i++) {
    ld v = g.get(j, i, 0), x = i - cx, y = j - cy;
    if (v == 0) continue;
    u[0] += x * x * v; u[1] += y * y * v; u[2] += x * y * v; u[3] += x * x * x * v; u[4] += y * y * y * v; u[5] += x * y * y * v; u[6] += x * x * y * v;
  }
  ld m = s0;
  for (int k = 0; k < 3; k++) u[k] /= m * m;
  for (int k = 3; k < 7; k++) u[k] /= powl(m, 2.5L);
  Hu o; poly(u, o);
  return o;
}
static bool lit(const Img &g) { for (u8 v : g.d) if (v) return true; return false; }
static void hu(const Img &g, double *o) {
  simple_mat m = matof(g);
  for (int k = 0; k < 7; k++) o[k] = NAN;
  L(calc_hu_moment(o, m));
  same_img(m, g, "source", "the source image changed");
  delete_simple_mat(m);
}
static void vs_def(const Img &g, const double *o) {
  double bad = 1e300; int which = 0; Hu r;
  for (int t = 0; t < 4; t++) {
    Hu x = moments(g, !(t & 1), !(t & 2));
    double worst = 0; int w = 0;
    for (int k = 0; k < 7; k++) { double e = std::isnan(o[k]) ? 1e200 : (double)fabsl(o[k] - x.h[k]) / (1e-10 * (double)x.s[k] + 1e-30); if (e > worst) worst = e, w = k; }
    if (worst < bad) bad = worst, which = w, r = x;
  }
  CHECK(bad <= 1, "moments", "invariant %d of a %d x %d shape is %.17g, by definition %.17g", which + 1, g.R, g.C, o[which], (double)r.h[which]);
  hv->state(hv_hash(o, 56));
}
static void equal(const double *a, const double *b, const Hu &s, const char *what) {
  for (int k = 0; k < 7; k++) CHECK(fabs(a[k] - b[k]) <= 1e-10 * (double)s.s[k] + 1e-30, "invariance", "%s changes invariant %d from %.17g to %.17g", what, k + 1, a[k], b[k]);
}
static Img place(const Img &g, int R, int C, int y, int x) {
  Img o{R, C, 1, std::vector<u8>((size_t)R * C)};
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) o.d[(size_t)(y + i) * C + x + j] = g.get(i, j, 0);
  return o;
}
static Img transp(const Img &g) { Img o{g.C, g.R, 1, g.d}; for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) o.d[(size_t)j * g.R + i] = g.get(i, j, 0); return o; }
static Img shape(int R, int C, u64 code, const u8 *al, int na) { Img g{R, C, 1, std::vector<u8>((size_t)R * C)}; for (u8 &v : g.d) { v = al[code % na]; code /= na; } return g; }
static double match(const Img &a, const Img &b) {
  simple_mat x = matof(a), y = matof(b);
  double r = L(hypercv_match_shapes(x, y));
  same_img(x, a, "source", "the first image changed"); same_img(y, b, "source", "the second image changed");
  delete_simple_mat(x); delete_simple_mat(y);
  return r;
}
static void pairs(const Img &a, const Img &b) {
  if (!lit(a) || !lit(b)) return;
  // the definition, with the library's own invariants (they are compared with theirs elsewhere)
  double x[7], y[7], num = 0, den = 0, scale = 0;
  hu(a, x); hu(b, y);
  Hu sa = moments(a, true, true), sb = moments(b, true, true);
  for (int k = 0; k < 7; k++) { num += fabs(x[k] - y[k]); den += fabs(x[k] + y[k]); scale += (double)(sa.s[k] + sb.s[k]); }
  if (!(den > 1e-6 * scale)) return;
  double r = match(a, b), q = match(b, a);
  double tol = 1e-8 * (1 + num / den);
  CHECK(!std::isnan(r), "match", "the match of two shapes is undefined");
  CHECK(fabs(r - q) <= tol, "symmetry", "the match is %.17g one way and %.17g the other", r, q);
  CHECK(r <= 1 + 1e-12, "match", "the match %.17g is above one", r);
  CHECK(fabs(r - (1 - num / den)) <= tol, "match", "the match is %.17g, by definition %.17g", r, 1 - num / den);
  hv->state(hv_hash(&r, 8));
}
static bool nondeg(const Img &a) { double o[7], s = 0, t = 0; hu(a, o); Hu r = moments(a, true, true); for (int k = 0; k < 7; k++) s += fabs(o[k]), t += (double)r.s[k]; return s > 1e-6 * t && t > 0; }
static void one(const Img &g, int R, int C) {
  if (!lit(g)) return;
  double o[7], p[7];
  hu(g, o); vs_def(g, o);
  Hu s = moments(g, true, true);
  for (int y = 0; y + g.R <= R; y++) for (int x = 0; x + g.C <= C; x++) {
    Img m = place(g, R, C, y, x);
    hu(m, p); equal(o, p, s, "moving the shape");
    if (nondeg(g) && (x + y) % 3 == 0) { double r = match(g, m); CHECK(fabs(r - 1) <= 1e-7, "match", "a shape moved by (%d,%d) matches with %.17g", x, y, r); }
  }
  hu(transp(g), p);
  p[6] = -p[6]; equal(o, p, s, "transposing the image");
}
static void explore(HV &h) {
  const u8 bin[2] = {0, 255}, tri[3] = {0, 1, 255}, quad[4] = {0, 255, 128, 127};
  const u8 one1[2] = {0, 1};
  auto sweep = [&](int R, int C, const u8 *al, int na, int Q) {
    u64 n = 1; for (int i = 0; i < R * C; i++) n *= na;
    for (u64 b = 0; b < n; b += 64) h.run([&] { for (u64 c = b; c < n && c < b + 64; c++) one(shape(R, C, c, al, na), R + Q, C + Q); }, "shapes %d x %d, %d levels, from %llu, moved in a frame of %d", R, C, na, b, Q);
  };
  sweep(1, 1, quad, 4, 4); sweep(1, 6, bin, 2, 3); sweep(6, 1, tri, 3, 2); sweep(1, 4, quad, 4, 4);
  sweep(2, 2, quad, 4, 5); sweep(2, 3, tri, 3, 4); sweep(3, 2, tri, 3, 4); sweep(3, 3, bin, 2, 4); sweep(3, 3, one1, 2, 2); sweep(3, 4, bin, 2, 3); sweep(2, 5, one1, 2, 3);
  if (h.thorough) { sweep(3, 3, tri, 3, 3); sweep(4, 4, bin, 2, 3); sweep(5, 3, bin, 2, 3); }
  // all pairs of small shapes
  for (int c = 1; c < 64; c++) h.run([&] { for (int d = 1; d < 64; d++) { pairs(shape(2, 3, c, bin, 2), shape(2, 3, d, bin, 2)); pairs(shape(2, 3, c, bin, 2), shape(3, 2, d, one1, 2)); } }, "pairs with shape %d", c);
  int step = h.thorough ? 1 : 7;
  for (int c = 1; c < 512; c += step) h.run([&] { for (int d = 1; d < 512; d += h.thorough ? 1 : 3) pairs(shape(3, 3, c, bin, 2), shape(3, 3, d, bin, 2)); }, "pairs of 3 x 3 with shape %d", c);
  // larger and elongated shapes
  for (int kind = 0; kind < 7; kind++) for (int S : {7, 16, 31, 33, 64, 127, 128, 129, 255, 256, 257, 300}) h.run([&] {
    for (int q = 0; q < 4; q++) {
      int R = q == 0 ? S : q == 1 ? S / 2 + 1 : q == 2 ? 3 : S, C = q == 0 ? S : q == 1 ? S : q == 2 ? S : 2;
      Img g = pattern(R, C, 1, kind); double o[7], p[7];
      if (!lit(g)) continue;
      hu(g, o); vs_def(g, o);
      Hu s = moments(g, true, true);
      for (int y : {0, 1, 260}) for (int x : {0, 2, 300}) { hu(place(g, R + 261, C + 301, y, x), p); equal(o, p, s, "moving the shape"); }
      hu(transp(g), p); p[6] = -p[6]; equal(o, p, s, "transposing the image");
      pairs(g, transp(g)); pairs(g, pattern(C, R + 1, 1, kind));
      if (nondeg(g)) { double r = match(g, g); CHECK(fabs(r - 1) <= 1e-7, "match", "a shape matches itself with %.17g", r); }
    }
  }, "pattern %d of about %d pixels", kind, S);
  h.run([&] {  // sums beyond 32 bits
    int R = h.thorough ? 6000 : 3000, C = 5000;
    Img g{R, C, 1, std::vector<u8>((size_t)R * C, 255)};
    for (int i = 0; i < R; i++) for (int j = 0; j < i / 3; j++) g.d[(size_t)i * C + j] = (u8)(i + j);
    double o[7]; hu(g, o); vs_def(g, o);
  }, "a large bright image");
  for (auto &b : BIG) for (int kind : {0, 1, 3, 5}) h.run([&] { Img g = pattern(b[0], b[1], 1, kind); double o[7], p[7]; hu(g, o); vs_def(g, o); hu(transp(g), p); p[6] = -p[6]; equal(o, p, moments(g, true, true), "transposing the image"); pairs(g, pattern(b[1], b[0] / 2, 1, 6)); pairs(g, transp(g)); }, "pattern %d of %d x %d", kind, b[0], b[1]);
}
int main(int c, char **v) { return hv_main(c, v, "C27", explore); }
