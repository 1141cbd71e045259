// C14: integral image and image statistics equal their definitions, for exhaustive small images, all types and large shapes.
#include "imgref.h"
#include <cmath>

static void integral(const Img &g) {
  simple_mat s = matof(g), d = create_simple_mat(g.R, g.C, 3, 1);
  memset(d->data, 0xEE, nbytes(d));
  L(hypercv_integral(s, d));
  std::vector<long> col(g.C, 0);
  const int *p = (const int *)d->data;
  for (int i = 0; i < g.R; i++) { long row = 0; for (int j = 0; j < g.C; j++, p++) { row += g.get(i, j, 0); long w = (i ? col[j] : 0) + row; if (*p != w) hv->fail("integral", "line %d column %d is %d, expected %ld", i, j, *p, w); col[j] = w; } }
  hv->state(hv_hash(d->data, nbytes(d)));
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d);
}
static double g0(const Img &g, int i, int j) { if (g.ch == 1) return g.get(i, j, 0); return std::max(g.get(i, j, 0), std::max(g.get(i, j, 1), g.get(i, j, 2))); }
static bool near2(double a, double b, double rel, double abs_) { return fabs(a - b) <= rel * std::max(fabs(a), fabs(b)) + abs_; }
static void histo(const Img &g, simple_mat s) {
  int H[256], W[256] = {0};
  memset(H, 0x77, sizeof H);
  L(simple_mat_grayscale_statistics(s, H));
  // the gray value of a colour image may be any of the library's documented conversions of it as a whole
  simple_mat gray = g.ch == 1 ? NULL : L(sm_rgb2gray(s, 0));
  for (size_t i = 0; i < (size_t)g.R * g.C; i++) W[gray ? ((u8 *)gray->data)[i] : g.d[i]]++;
  long sum = 0;
  for (int i = 0; i < 256; i++) { sum += H[i]; CHECK(H[i] == W[i], "histogram", "level %d counted %d times, expected %d", i, H[i], W[i]); }
  CHECK(sum == (long)g.R * g.C, "histogram sum", "counts sum to %ld for %d x %d", sum, g.R, g.C);
  float e = L(simple_mat_entropy(s));
  double w = 0;
  for (int x : W) if (x) { double q = (double)x / ((double)g.R * g.C); w -= q * log2(q); }
  CHECK(near2(e, w, 2e-5, 1e-6), "entropy", "entropy is %.8g, expected %.8g", e, w);
  if (g.R >= 2 && g.C >= 2) {
    Img t = gray ? imgof(gray) : g;
    double q = 0;
    for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) { double v = t.get(i, j, 0); static const int D[4][2] = {{0, 1}, {1, 0}, {0, -1}, {-1, 0}}; for (auto &d : D) { int a = i + d[0], b = j + d[1]; if (a >= 0 && b >= 0 && a < g.R && b < g.C) { double z = v - t.get(a, b, 0); q += z * z; } } }
    q /= 4.0 * (g.C - 2) * (g.R - 2) + 6.0 * (g.R - 2) + 6.0 * (g.C - 2) + 8;
    float c = L(simple_mat_contrast_ratio(s));
    CHECK(near2(c, q, 1e-4, 1e-6), "contrast", "contrast ratio of %d x %d is %.9g, expected %.9g", g.R, g.C, c, q);
  }
  if (g.ch == 1) {
    double m = 0, v = 0;
    for (auto x : g.d) m += x;
    m /= g.d.size();
    for (auto x : g.d) v += (x - m) * (x - m);
    v /= g.d.size();
    float a = L(simple_mat_mean(s)), b = L(simple_mat_variance(s));
    CHECK(near2(a, m, 1e-6, 0), "mean", "mean is %.9g, expected %.9g", a, m);
    CHECK(near2(b, v, 1e-5, 1e-9), "variance", "variance is %.9g, expected %.9g", b, v);
  }
  if (gray) delete_simple_mat(gray);
  hv->state(hv_hash(H, sizeof H, (u64)(e * 1e6)));
}
static void image(const Img &g) {
  simple_mat s = matof(g);
  histo(g, s);
  same_img(s, g, "src", "source");
  delete_simple_mat(s);
}
static const int TT[5] = {1, 2, 3, 4, 12};
static double lim(int t, int which) { // boundary values of a type
  static const double U8[] = {0, 1, 127, 128, 254, 255}, S16[] = {-32768, -32767, -1, 0, 1, 32767}, U16[] = {0, 1, 32767, 32768, 65534, 65535}, S32[] = {-2147483647.0 - 1, -16777217, -1, 0, 16777217, 2147483647}, F[] = {-1e6, -0.5, 0, 0.25, 3.75, 1e6};
  return (t == 1 ? U8 : t == 2 ? S16 : t == 12 ? U16 : t == 3 ? S32 : F)[which];
}
static void moments(int R, int C, int t, const std::vector<double> &v) {
  simple_mat s = create_simple_mat(R, C, t, 1);
  for (size_t i = 0; i < v.size(); i++) switch (t) { case 1: ((u8 *)s->data)[i] = v[i]; break; case 2: ((short *)s->data)[i] = v[i]; break; case 3: ((int *)s->data)[i] = (int)v[i]; break; case 4: ((float *)s->data)[i] = v[i]; break; default: ((unsigned short *)s->data)[i] = v[i]; }
  double m = 0, mag = 0, var = 0;
  for (double x : v) { m += x; mag = std::max(mag, fabs(x)); }
  m /= v.size();
  for (double x : v) var += (x - m) * (x - m);
  var /= v.size();
  float a = L(simple_mat_mean(s)), b = L(simple_mat_variance(s));
  CHECK(fabs(a - m) <= 1.2e-7 * mag + 1e-30, "mean", "mean of %d x %d type %d is %.9g, expected %.9g", R, C, t, a, m);
  double er = 1.3e-7 * mag; // the mean is a float
  CHECK(fabs(b - var) <= 1e-5 * var + 4 * er * sqrt(var) + 2 * er * er + 1e-30, "variance", "variance of %d x %d type %d is %.9g, expected %.9g", R, C, t, b, var);
  CHECK(b >= 0, "variance", "negative variance");
  hv->state(hv_mix((u64)(a * 1000), (u64)(b * 1000)));
  delete_simple_mat(s);
}
static void small_types(int t, int n, int R) {
  std::vector<double> v(n);
  long tot = 1;
  for (int i = 0; i < n; i++) tot *= 6;
  for (long a = 0; a < tot; a++) { long q = a; for (auto &x : v) { x = lim(t, q % 6); q /= 6; } moments(R, n / R, t, v); }
}
static void all_images(int R, int C, int ch, std::vector<int> A, long lo, long hi) {
  Img g{R, C, ch, std::vector<u8>(R * C * ch)};
  simple_mat s = create_simple_mat(R, C, 1, ch);
  for (long a = lo; a < hi; a++) { long q = a; for (auto &x : g.d) { x = A[q % A.size()]; q /= A.size(); } memcpy(s->data, g.d.data(), g.d.size()); histo(g, s); if (ch == 1 && a % 7 == 0) integral(g); }
  delete_simple_mat(s);
}
static void explore(HV &h) {
  int N = h.thorough ? 24 : 12;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int k = 0; k < 7; k++) { h.run([&] { integral(pattern(R, C, 1, k)); image(pattern(R, C, 1, k)); image(pattern(R, C, 3, k)); }, "%d x %d image %d", R, C, k); }
  for (int t : TT) { for (int n = 1; n <= (h.thorough ? 7 : 6); n++) for (int R = 1; R <= n; R++) if (n % R == 0) h.run([&] { small_types(t, n, R); }, "moments of all %d-sample images type %d, %d lines", n, t, R);
    for (int R : {1, 2, 3, 15, 16, 17, 31, 64, 127, 128, 129, 255, 256, 257, 1000}) for (int C : {1, 2, 5, 33, 256, 300}) h.run([&] { for (int b = 0; b < 6; b++) { std::vector<double> v((size_t)R * C); for (size_t i = 0; i < v.size(); i++) v[i] = i % 5 == 0 ? lim(t, b) : i % 3 ? lim(t, 5) : t == 1 ? (double)(i % 251) : (double)((int)(i % 30011) - (t == 12 ? 0 : 9000)); moments(R, C, t, v); } }, "moments %d x %d type %d", R, C, t); }
  for (int p = 0; p < 32; p++) { long n = 1; for (int i = 0; i < 9; i++) n *= 3; h.run([&] { all_images(3, 3, 1, {0, 200, 255}, n * p / 32, n * (p + 1) / 32); }, "every 3 x 3 image %d", p); h.run([&] { all_images(2, 2, 3, {0, 254}, 4096L * p / 32, 4096L * (p + 1) / 32); }, "every 2 x 2 colour image %d", p); h.run([&] { all_images(2, 3, 1, {0, 1, 17, 128, 255}, 15625L * p / 32, 15625L * (p + 1) / 32); }, "every 2 x 3 image %d", p); }
  h.run([&] { for (int v = 0; v < 256; v++) for (int o = 0; o < 256; o += 5) { Img g{2, 2, 1, {(u8)v, (u8)o, (u8)v, (u8)v}}; image(g); } }, "every gray level");
  for (int e : {31, 32, 33, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 32767, 32768, 65535, 65536, 65537}) for (int k : {0, 1, 5}) { h.run([&] { integral(pattern(e, 3, 1, k)); integral(pattern(2, e, 1, k)); image(pattern(e, 2, 1, k)); image(pattern(3, e, 3, k)); }, "edge %d image %d", e, k); }
  for (int k : {0, 1, 2, 3, 4, 5}) h.run([&] { integral(pattern(600, 701, 1, k)); image(pattern(600, 701, 1, k)); image(pattern(300, 201, 3, k)); }, "large image %d", k);
  // totals beyond the precision of a float: over 2^24 pixels, saturated, and a checkerboard
  h.run([&] { Img g{2900, 2899, 1, std::vector<u8>(2900 * 2899, 255)}; integral(g); image(g); }, "saturated 2900 x 2899");
  h.run([&] { Img g{4099, 4099, 1, std::vector<u8>(4099 * 4099)}; for (size_t i = 0; i < g.d.size(); i++) g.d[i] = ((i / 4099 + i % 4099) & 1) * 255; image(g); }, "checkerboard 4099 x 4099");
  h.run([&] { Img g{4100, 4100, 1, std::vector<u8>(4100 * 4100)}; for (size_t i = 0; i < g.d.size(); i++) g.d[i] = i % 4096 == 0 ? 200 : 3; image(g); }, "sparse 4100 x 4100");
  for (int t : TT) h.run([&] { std::vector<double> v((size_t)4100 * 4100); for (size_t i = 0; i < v.size(); i++) v[i] = i & 1 ? lim(t, 5) : (double)(i % 200); moments(4100, 4100, t, v); }, "moments 4100 x 4100 type %d", t);
}
int main(int c, char **v) { return hv_main(c, v, "C14", explore); }
