// C13: every filter equals its neighbourhood formula at every pixel, over exhaustive small images and kernels.
#include "imgref.h"
#include <cmath>

struct KSpec { int r, c; std::vector<float> k; };
static void f2d(const Img &g, simple_mat s, simple_mat d, const KSpec &K, int rule, bool exact) {
  memset(d->data, 0xFF, nbytes(d));
  std::vector<float> k = K.k;
  L(hypercv_filter2D(s, d, k.data(), K.r, K.c, rule));
  CHECK(!memcmp(k.data(), K.k.data(), 4 * k.size()), "kernel", "the kernel changed");
  const float *p = (const float *)d->data;
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) for (int c = 0; c < g.ch; c++, p++) {
    double w = 0, mag = 0;
    for (int m = 0; m < K.r; m++) for (int n = 0; n < K.c; n++) { double q = (double)K.k[m * K.c + n] * g.at(i + m - K.r / 2, j + n - K.c / 2, c, rule); w += q; mag += fabs(q); }
    if (exact ? *p != (float)w : !(fabs(*p - w) <= (1e-5 + 6e-8 * K.r * K.c) * mag + 1e-6)) hv->fail("filter2D", "%d x %d kernel, %s border: line %d column %d channel %d is %.9g, expected %.9g", K.r, K.c, BN[rule], i, j, c, *p, w);
  }
  hv->state(hv_hash(d->data, nbytes(d)));
}
static void f2d_kernels(int R, int C, int ch, int rule, int kind, int kr, int kc) {
  Img g = pattern(R, C, ch, kind);
  simple_mat s = matof(g), d = create_simple_mat(R, C, 4, ch);
  KSpec K{kr, kc, std::vector<float>(kr * kc)};
  for (int v = 0; v < 4; v++) {
    for (int i = 0; i < kr * kc; i++) K.k[i] = v == 0 ? (i * 7 + 3) % 11 - 5 : v == 1 ? 1 : v == 2 ? (float)(1.0 / (kr * kc)) : 0.37f * ((i * 5) % 9) - 1.1f;
    f2d(g, s, d, K, rule, v < 2);
  }
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d);
}
// all kernels with weights -1, 0, 1
static void f2d_all(int kr, int kc, int first, int step) {
  Img g = pattern(3, 4, 1, 0);
  simple_mat s = matof(g), d = create_simple_mat(3, 4, 4, 1);
  KSpec K{kr, kc, std::vector<float>(kr * kc)};
  int n = 1;
  for (int i = 0; i < kr * kc; i++) n *= 3;
  for (int a = first; a < n; a += step) { int q = a; for (int i = 0; i < kr * kc; i++) { K.k[i] = q % 3 - 1; q /= 3; } f2d(g, s, d, K, a % 5, true); }
  delete_simple_mat(s); delete_simple_mat(d);
}
static void check_mean(const Img &g, simple_mat s, simple_mat d, int size) {
  memset(d->data, 0xEE, nbytes(d));
  L(hypercv_meanblur(s, d, size));
  const u8 *p = (const u8 *)d->data;
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++, p++) {
    long sum = 0, n = 0;
    for (int m = -(size / 2); m < size - size / 2; m++) for (int q = -(size / 2); q < size - size / 2; q++) if (i + m >= 0 && i + m < g.R && j + q >= 0 && j + q < g.C) { sum += g.get(i + m, j + q, 0); n++; }
    if (fabs(*p - (double)sum / n) >= 1) hv->fail("mean", "window %d: line %d column %d is %d, the mean is %ld/%ld", size, i, j, *p, sum, n);
  }
  hv->state(hv_hash(d->data, nbytes(d), size));
}
static void check_median(const Img &g, simple_mat s, simple_mat d, int size) {
  memset(d->data, 0xEE, nbytes(d));
  L(hypercv_medianblur(s, d, size));
  const u8 *p = (const u8 *)d->data;
  int h = size / 2;
  std::vector<u8> v;
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++, p++) {
    int w;
    if (i < h || j < h || i + h >= g.R || j + h >= g.C) w = g.get(i, j, 0);
    else {
      v.clear();
      for (int m = -h; m <= h; m++) for (int q = -h; q <= h; q++) v.push_back(g.get(i + m, j + q, 0));
      std::sort(v.begin(), v.end());
      w = v[v.size() / 2];
    }
    if (*p != w) hv->fail("median", "window %d: line %d column %d is %d, expected %d", size, i, j, *p, w);
  }
  hv->state(hv_hash(d->data, nbytes(d), size));
}
static void local(const Img &g, int smax) {
  simple_mat s = matof(g), d = create_simple_mat(g.R, g.C, 1, 1);
  for (int z = 1; z <= smax; z++) check_mean(g, s, d, z);
  for (int z = 1; z <= smax; z += 2) check_median(g, s, d, z);
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d);
}
// every image over a value alphabet
static void local_all(int R, int C, std::vector<int> A, long lo, long hi) {
  Img g{R, C, 1, std::vector<u8>(R * C)};
  simple_mat s = create_simple_mat(R, C, 1, 1), d = create_simple_mat(R, C, 1, 1);
  for (long a = lo; a < hi; a++) {
    long q = a;
    for (auto &x : g.d) { x = A[q % A.size()]; q /= A.size(); }
    memcpy(s->data, g.d.data(), g.d.size());
    check_mean(g, s, d, 2); check_mean(g, s, d, 3); check_median(g, s, d, 3);
  }
  delete_simple_mat(s); delete_simple_mat(d);
}
// every permutation of distinct values in a 3x3 window
static void median_perms(int first) {
  Img g{3, 3, 1, std::vector<u8>(9)};
  simple_mat s = create_simple_mat(3, 3, 1, 1), d = create_simple_mat(3, 3, 1, 1);
  std::vector<u8> r;
  for (int i = 0; i < 9; i++) if (i != first) r.push_back(i * 31);
  do { g.d[0] = first * 31; std::copy(r.begin(), r.end(), g.d.begin() + 1); memcpy(s->data, g.d.data(), 9); check_median(g, s, d, 3); } while (std::next_permutation(r.begin(), r.end()));
  delete_simple_mat(s); delete_simple_mat(d);
}
static std::vector<double> gkernel(int n, double sigma) {
  static const double T[4][7] = {{1}, {.25, .5, .25}, {.0625, .25, .375, .25, .0625}, {.03125, .109375, .21875, .28125, .21875, .109375, .03125}};
  std::vector<double> k(n);
  double sum = 0, s = sigma > 0 ? sigma : ((n - 1) * 0.5 - 1) * 0.3 + 0.8;
  for (int i = 0; i < n; i++) { double x = i - (n - 1) * 0.5; k[i] = n % 2 && n <= 7 && sigma <= 0 ? T[n / 2][i] : exp(-x * x / (2 * s * s)); sum += k[i]; }
  for (auto &x : k) x /= sum;
  return k;
}
static void kernels(int n, double sigma) {
  auto w = gkernel(n, sigma);
  for (int t : {4, 5}) {
    simple_mat k = L(gaussian_kernel(n, sigma, t));
    expect_dims(k, 1, n, t, 1, "kernel dims");
    double sum = 0;
    for (int i = 0; i < n; i++) {
      double v = t == 4 ? ((float *)k->data)[i] : ((double *)k->data)[i], z = t == 4 ? ((float *)k->data)[n - 1 - i] : ((double *)k->data)[n - 1 - i];
      sum += v;
      CHECK(fabs(v - w[i]) <= (t == 4 ? 2e-6 : 1e-12), "kernel", "kernel of %d with sigma %g type %d: weight %d is %.12g, expected %.12g", n, sigma, t, i, v, w[i]);
      CHECK(fabs(v - z) <= (t == 4 ? 1e-7 : 1e-15), "symmetry", "kernel of %d with sigma %g is not symmetric at %d", n, sigma, i);
    }
    CHECK(fabs(sum - 1) <= (t == 4 ? 1e-5 : 1e-12), "sum", "kernel of %d with sigma %g type %d sums to %.12g", n, sigma, t, sum);
    hv->state(hv_hash(k->data, nbytes(k)));
    delete_simple_mat(k);
  }
}
static void expect_sep(const Img &g, simple_mat d, const std::vector<double> &x, const std::vector<double> &y, int rule, const char *key) {
  int kw = x.size(), kh = y.size();
  std::vector<double> tmp((size_t)g.R * g.C * g.ch);
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) for (int c = 0; c < g.ch; c++) {
    double s = 0;
    for (int k = 0; k < kw; k++) { int q = ext(j + k - kw / 2, g.C, rule); if (q >= 0) s += x[k] * g.get(i, q, c); }
    tmp[((size_t)i * g.C + j) * g.ch + c] = s;
  }
  const u8 *p = (const u8 *)d->data;
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) for (int c = 0; c < g.ch; c++, p++) {
    double s = 0;
    for (int k = 0; k < kh; k++) { int q = ext(i + k - kh / 2, g.R, rule); if (q >= 0) s += y[k] * tmp[((size_t)q * g.C + j) * g.ch + c]; }
    s = std::min(255.0, std::max(0.0, s));
    if (!(fabs(*p - s) <= 0.5 + 2e-3)) hv->fail(key, "kernels of %d and %d, %s border: line %d column %d channel %d is %d, expected %.5f", kw, kh, BN[rule], i, j, c, *p, s);
  }
  hv->state(hv_hash(d->data, nbytes(d)));
}
static void gauss(int R, int C, int ch, int rule, int kw, int kh, int kind) {
  Img g = pattern(R, C, ch, kind);
  simple_mat s = matof(g), d = create_simple_mat(R, C, 1, ch);
  static const double S[][2] = {{0, 0}, {0.8, 0}, {1.5, 0.6}, {0, 2.0}, {-1, -1}};
  for (auto &z : S) {
    memset(d->data, 0xEE, nbytes(d));
    L(hypercv_gaussian_blur(s, d, kw, kh, z[0], z[1], rule));
    expect_sep(g, d, gkernel(kw, z[0]), gkernel(kh, z[1] <= 0 ? z[0] : z[1]), rule, "gauss");
  }
  static const double W[][2] = {{0.05, 0.3}, {51, 0.8}, {1, 100}, {5, 51}, {1000, 1000}, {0.5, 10}, {20, -3}, {-2, 50}, {49.9, 50.1}, {1e6, 1e-2}, {1e-3, 200}, {0, 300}};
  for (auto &z : W) if ((R + C + kw + kh / 2 + (&z - W)) % 3 == 0) {
    memset(d->data, 0xEE, nbytes(d));
    L(hypercv_gaussian_blur(s, d, kw, kh, z[0], z[1], rule));
    expect_sep(g, d, gkernel(kw, z[0]), gkernel(kh, z[1] <= 0 ? z[0] : z[1]), rule, "gauss");
  }
  // explicit normalised, asymmetric kernels
  simple_mat x = create_simple_mat(1, kw, 4, 1), y = create_simple_mat(1, kh, 4, 1);
  std::vector<double> X(kw), Y(kh);
  for (int i = 0; i < kw; i++) X[i] = ((float *)x->data)[i] = (float)((i + 1) / (kw * (kw + 1) / 2.0));
  for (int i = 0; i < kh; i++) Y[i] = ((float *)y->data)[i] = (float)((kh - i) / (kh * (kh + 1) / 2.0));
  memset(d->data, 0xEE, nbytes(d));
  L(hypercv_gaussian_blur_with_kernel(s, d, x, y, rule));
  expect_sep(g, d, X, Y, rule, "with-kernel");
  // weights that are negative or sum to more than one: the result saturates to 0..255.  Only one direction is not
  // normalised at a time, and the other one picks the centre, so clamping between the passes does not matter.
  for (int dir = 0; dir < 2; dir++) for (int v = 0; v < 4; v++) {
    simple_mat a = dir ? y : x, b = dir ? x : y;
    std::vector<double> &A = dir ? Y : X, &B = dir ? X : Y;
    for (size_t i = 0; i < A.size(); i++) A[i] = ((float *)a->data)[i] = v == 0 ? (i == A.size() / 2 ? 2.5f : -0.5f) : v == 1 ? 0.75f : v == 2 ? (i % 2 ? 1.25f : -1.5f) : -0.25f;
    for (size_t i = 0; i < B.size(); i++) B[i] = ((float *)b->data)[i] = i == B.size() / 2;
    memset(d->data, 0xEE, nbytes(d));
    L(hypercv_gaussian_blur_with_kernel(s, d, x, y, rule));
    expect_sep(g, d, X, Y, rule, "saturated");
  }
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d); delete_simple_mat(x); delete_simple_mat(y);
}
static void grad1(const Img &g, simple_mat s, simple_mat d, int rule, const std::vector<int> &T, const std::vector<int> &big = {1, 2}) {
  static const int GX[3][3] = {{-1, 0, 1}, {-2, 0, 2}, {-1, 0, 1}}, GY[3][3] = {{1, 2, 1}, {0, 0, 0}, {-1, -2, -1}}, LA[2][3][3] = {{{0, 1, 0}, {1, -4, 1}, {0, 1, 0}}, {{0, 2, 0}, {2, -8, 2}, {0, 2, 0}}};
  std::vector<int> mag(g.R * g.C), la[2] = {mag, mag};
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) {
    int x = 0, y = 0, a = 0, b = 0;
    for (int m = 0; m < 3; m++) for (int n = 0; n < 3; n++) { int v = g.at(i + m - 1, j + n - 1, 0, rule); x += GX[m][n] * v; y += GY[m][n] * v; a += LA[0][m][n] * v; b += LA[1][m][n] * v; }
    mag[i * g.C + j] = std::max(abs(x), abs(y)); la[0][i * g.C + j] = std::min(255, std::max(0, a)); la[1][i * g.C + j] = std::min(255, std::max(0, b));
  }
  for (int th : T) {
    memset(d->data, 0xEE, nbytes(d));
    L(hypercv_sobel(s, d, th, rule));
    for (int i = 0; i < g.R * g.C; i++) if (((u8 *)d->data)[i] != (mag[i] > th ? 255 : 0)) hv->fail("sobel", "%s border, threshold %d: line %d column %d is %d with gradient %d", BN[rule], th, i / g.C, i % g.C, ((u8 *)d->data)[i], mag[i]);
    hv->state(hv_hash(d->data, nbytes(d), th));
  }
  // only size 2 has a kernel of its own
  for (int z : big) {
    int k = z == 2 ? 2 : 1;
    memset(d->data, 0xEE, nbytes(d));
    L(hypercv_laplacian(s, d, z, rule));
    for (int i = 0; i < g.R * g.C; i++) if (((u8 *)d->data)[i] != la[k - 1][i]) hv->fail("laplacian", "%s border, kernel %d: line %d column %d is %d, expected %d", BN[rule], z, i / g.C, i % g.C, ((u8 *)d->data)[i], la[k - 1][i]);
    hv->state(hv_hash(d->data, nbytes(d), k));
  }
}
static void grad(int R, int C, int rule, int kind) {
  Img g = pattern(R, C, 1, kind);
  simple_mat s = matof(g), d = create_simple_mat(R, C, 1, 1);
  grad1(g, s, d, rule, {-2000, -1, 0, 1, 4, 100, 127, 128, 200, 255, 256, 400, 510, 765, 1019, 1020, 2000, 65536}, {1, 2, 3, 4, 5, 7, 31, 254, 255, 256, 257, 258, 65538, 2147483647});
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d);
}
static void grad_all(int R, int C, std::vector<int> A, int rule, long lo, long hi, std::vector<int> T) {
  Img g{R, C, 1, std::vector<u8>(R * C)};
  simple_mat s = create_simple_mat(R, C, 1, 1), d = create_simple_mat(R, C, 1, 1);
  for (long a = lo; a < hi; a++) { long q = a; for (auto &x : g.d) { x = A[q % A.size()]; q /= A.size(); } memcpy(s->data, g.d.data(), g.d.size()); grad1(g, s, d, rule, T); }
  delete_simple_mat(s); delete_simple_mat(d);
}
// one image per level: every threshold against a gradient of exactly that size
static void levels(int lo) {
  Img g{3, 3, 1, std::vector<u8>(9, 0)};
  simple_mat s = create_simple_mat(3, 3, 1, 1), d = create_simple_mat(3, 3, 1, 1);
  for (int v = lo; v < lo + 16; v++) for (int pos : {1, 2, 5}) { std::fill(g.d.begin(), g.d.end(), 0); g.d[pos] = v; memcpy(s->data, g.d.data(), 9); grad1(g, s, d, 1, {v - 1, v, v + 1, 2 * v - 1, 2 * v, 2 * v + 1}); }
  delete_simple_mat(s); delete_simple_mat(d);
}
static void explore(HV &h) {
  int K = h.thorough ? 9 : 6, N = h.thorough ? 6 : 5;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int ch : {1, 3}) for (int rule = 0; rule < 5; rule++) for (int kr = 1; kr <= K; kr++) for (int kc = 1; kc <= K; kc++)
    h.run([&] { f2d_kernels(R, C, ch, rule, (R + C) % 7, kr, kc); }, "filter %d x %d channels %d %s kernel %d x %d", R, C, ch, BN[rule], kr, kc);
  for (int a = 0; a < 27; a++) h.run([&] { f2d_all(3, 3, a, 27); }, "every 3 x 3 kernel %d", a);
  for (auto &z : std::vector<std::pair<int,int>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 5}, {5, 1}, {2, 3}, {3, 2}, {2, 4}, {4, 2}, {1, 7}, {7, 1}}) h.run([&] { f2d_all(z.first, z.second, 0, 1); }, "every %d x %d kernel", z.first, z.second);
  for (int e : {1, 2, 31, 32, 33, 64, 127, 128, 129, 256, 257, 1024}) for (int ch : {1, 3}) for (int rule = 0; rule < 5; rule++) { h.run([&] { f2d_kernels(e, 3, ch, rule, 0, 3, 5); f2d_kernels(3, e, ch, rule, 0, 5, 3); }, "filter edge %d channels %d %s", e, ch, BN[rule]); h.run([&] { f2d_kernels(7, 9, ch, rule, e % 7, 13, 15); }, "filter large kernel %d %d %s", e, ch, BN[rule]); }
  for (int e : {16, 17, 21, 31, 33, 64, 65, 101, 127, 129, 255, 257}) for (int ch : {1, 3}) for (int rule = 0; rule < 5; rule++) h.run([&] { f2d_kernels(5, 40, ch, rule, 0, 1, e); f2d_kernels(40, 5, ch, rule, 1, e, 1); if (e < 66) f2d_kernels(9, 7, ch, rule, 2, e, e); f2d_kernels(130, 3, ch, rule, 2, e, 3); f2d_kernels(3, 130, ch, rule, 2, 2, e); }, "filter kernel of %d channels %d %s", e, ch, BN[rule]);
  int M = h.thorough ? 14 : 11;
  for (int R = 1; R <= M; R++) for (int C = 1; C <= M; C++) for (int kind = 0; kind < 7; kind++) h.run([&] { local(pattern(R, C, 1, kind), 11); }, "mean and median %d x %d image %d", R, C, kind);
  for (int e : {17, 31, 32, 33, 63, 64, 65, 128, 255, 256, 257, 600}) h.run([&] { local(pattern(e, 5, 1, 0), 5); local(pattern(5, e, 1, 3), 7); }, "mean and median edge %d", e);
  h.run([&] { Img g = pattern(70, 70, 1, 3); simple_mat s = matof(g), d = create_simple_mat(70, 70, 1, 1); for (int z : {15, 17, 33, 65}) { check_median(g, s, d, z); check_mean(g, s, d, z); } delete_simple_mat(s); delete_simple_mat(d); }, "large windows");
  for (int z : {12, 16, 21, 32, 64, 66, 127, 128, 129, 200, 255, 256, 257, 300}) h.run([&] { for (auto sh : {std::pair<int,int>{5, 9}, {1, 140}, {140, 1}, {20, 24}}) { Img g = pattern(sh.first, sh.second, 1, 3); simple_mat s = matof(g), d = create_simple_mat(g.R, g.C, 1, 1); check_mean(g, s, d, z); delete_simple_mat(s); delete_simple_mat(d); } }, "mean over windows of %d", z);
  for (int z : {129, 181, 183, 255, 257, 259}) h.run([&] { Img g = pattern(z + 1, z, 1, 3); simple_mat s = matof(g), d = create_simple_mat(z + 1, z, 1, 1); check_median(g, s, d, z); delete_simple_mat(s); delete_simple_mat(d); }, "window of %d in an image of its size", z);
  for (int a = 0; a < 9; a++) h.run([&] { median_perms(a); }, "every order of nine values, %d first", a);
  { long n = 1; for (int i = 0; i < 9; i++) n *= h.thorough ? 4 : 3; for (int p = 0; p < 32; p++) h.run([&] { local_all(3, 3, h.thorough ? std::vector<int>{0, 127, 128, 255} : std::vector<int>{0, 128, 255}, n * p / 32, n * (p + 1) / 32); }, "mean and median of every 3 x 3 image %d", p); }
  for (int p = 0; p < 16; p++) { h.run([&] { local_all(4, 4, {3, 251}, 65536L * p / 16, 65536L * (p + 1) / 16); }, "mean and median of every two-level 4 x 4 image %d", p); }
  for (int n = 1; n <= (h.thorough ? 301 : 101); n++) h.run([&] { for (double s : {-1.0, 0.0, 0.1, 0.3, 0.5, 0.8, 0.84089642, 1.0, 1.5, 2.0, 3.3, 10.0, 100.0, 1e4}) kernels(n, s); }, "kernel of length %d", n);
  int G = h.thorough ? 7 : 5;
  for (int R = 1; R <= G; R++) for (int C = 1; C <= G; C++) for (int ch : {1, 3}) for (int rule = 0; rule < 5; rule++) for (int kw = 1; kw <= 9; kw += 2) for (int kh = 1; kh <= 9; kh += 2) for (int kind : {(R + kw) % 7, 5}) h.run([&] { gauss(R, C, ch, rule, kw, kh, kind); }, "gauss %d x %d channels %d %s %d %d image %d", R, C, ch, BN[rule], kw, kh, kind);
  for (int e : {16, 33, 64, 129, 256, 1025}) for (int ch : {1, 3}) for (int rule = 0; rule < 5; rule++) h.run([&] { gauss(e, 4, ch, rule, 5, 11, 0); gauss(4, e, ch, rule, 13, 3, 1); }, "gauss edge %d channels %d %s", e, ch, BN[rule]);
  for (int e : {11, 15, 17, 21, 31, 33, 51, 63, 65, 101, 127, 129, 255, 257}) for (int ch : {1, 3}) for (int rule = 0; rule < 5; rule++) h.run([&] { gauss(3, 40, ch, rule, e, 3, 0); gauss(40, 3, ch, rule, 5, e, 1); gauss(9, 7, ch, rule, e, e, 2); gauss(2, 300, ch, rule, e, 1, 3); gauss(300, 2, ch, rule, 1, e, 4); }, "gauss kernel of %d channels %d %s", e, ch, BN[rule]);
  for (int rule = 0; rule < 5; rule++) {
    for (int R = 1; R <= 9; R++) for (int C = 1; C <= 9; C++) for (int kind = 0; kind < 7; kind++) h.run([&] { grad(R, C, rule, kind); }, "gradients %d x %d %s image %d", R, C, BN[rule], kind);
    for (int p = 0; p < 16; p++) h.run([&] { long n = h.thorough ? 262144 : 19683; grad_all(3, 3, h.thorough ? std::vector<int>{0, 60, 130, 255} : std::vector<int>{0, 100, 255}, rule, n * p / 16, n * (p + 1) / 16, {99, 100, 255, 510}); }, "gradients of every 3 x 3 image %s %d", BN[rule], p);
    for (int e : {31, 64, 128, 257, 1000}) h.run([&] { grad(e, 3, rule, 0); grad(3, e, rule, 1); }, "gradients edge %d %s", e, BN[rule]);
  }
  for (int v = 0; v < 256; v += 16) h.run([&] { levels(v); }, "gradients at levels from %d", v);
  for (auto &b : BIG) for (int rule = 0; rule < 5; rule++) { for (int ch : {1, 3}) h.run([&] { f2d_kernels(b[0], b[1], ch, rule, 0, 3, 3); gauss(b[0], b[1], ch, rule, 5, 3, 0); }, "filters of %d x %d channels %d %s", b[0], b[1], ch, BN[rule]); h.run([&] { grad(b[0], b[1], rule, 0); }, "gradients of %d x %d %s", b[0], b[1], BN[rule]); }
  for (auto &b : BIG) for (int k : {0, 3}) h.run([&] { local(pattern(b[0], b[1], 1, k), 5); }, "mean and median of %d x %d image %d", b[0], b[1], k);
}
int main(int c, char **v) { return hv_main(c, v, "C13", explore); }
