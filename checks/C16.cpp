// C16: spectral angle, distance, matching and mean spectrum equal their definitions.
#include "lib.h"

static double angle(const std::vector<float> &x, const std::vector<float> &y) {
  long double p = 0, a = 0, b = 0;
  for (size_t i = 0; i < x.size(); i++) { p += fabsl((long double)x[i] * y[i]); a += (long double)x[i] * x[i]; b += (long double)y[i] * y[i]; }
  long double c = p / (sqrtl(a) * sqrtl(b));
  return acosl(c > 1 ? 1 : c);
}
static bool nz(const std::vector<float> &x) { for (float v : x) if (v) return true; return false; }
// half an ulp of the cosine moves a small angle by up to its square root
static double tol(double w) { return w < 1e-3 ? 1e-6 : 1e-6 + 2e-7 * w; }
static void sam(std::vector<float> x, std::vector<float> y) {
  auto x0 = x, y0 = y;
  int n = x.size();
  long double d2 = 0;
  for (int i = 0; i < n; i++) d2 += ((long double)x[i] - y[i]) * ((long double)x[i] - y[i]);
  double d = sqrtl(d2);
  float e = L(euclidean_distance(x.data(), y.data(), n)), e2 = L(euclidean_distance(y.data(), x.data(), n));
  if (d < 3.3e38) CHECK(near_(e, d, 1e-6, 1e-44), "distance", "distance of two spectra of %d is %.9g, expected %.9g", n, e, d);
  CHECK(memcmp(&e, &e2, 4) == 0, "distance symmetry", "distance is %.9g one way and %.9g the other", e, e2);
  if (nz(x) && nz(y)) {
    double w = angle(x, y);
    float a = L(spectral_angle_mapper(x.data(), y.data(), n)), b = L(spectral_angle_mapper(y.data(), x.data(), n));
    CHECK(a >= 0 && a <= 1.5707964f, "range", "angle is %.9g", a);
    CHECK(fabs(a - w) <= tol(w), "angle", "angle of two spectra of %d is %.9g, expected %.9g", n, a, w);
    CHECK(fabs(a - b) <= 1e-6, "symmetry", "angle is %.9g one way and %.9g the other", a, b);
    hv->state(hv_mix((u64)(a * 1e7), (u64)(e * 1e3)));
  }
  CHECK(x == x0 && y == y0, "input", "a spectrum changed");
}
static void all_pairs(int n, std::vector<float> A, long lo, long hi) {
  std::vector<float> x(n), y(n);
  for (long a = lo; a < hi; a++) { long q = a; for (auto &v : x) { v = A[q % A.size()]; q /= A.size(); } for (auto &v : y) { v = A[q % A.size()]; q /= A.size(); } sam(x, y); }
}
static std::vector<float> spec(int n, int k);
// nearly parallel spectra: small angles are not lost beyond the rounding of their cosine
static void narrow(int n, int k, double eps) {
  auto x = spec(n, k);
  if (!nz(x)) return;
  auto y = x;
  for (int i = 0; i < n; i++) y[i] = (float)(x[i] * (1 + (i % 2 ? eps : -eps)));
  double w = angle(x, y);
  float a = L(spectral_angle_mapper(x.data(), y.data(), n));
  // the cosine is right to some roundings of a sum of n products
  double dc = 2 * 1e-16 * (4 + n / 4.0), up = sqrt(w * w + dc) - w, dn = w - sqrt(std::max(0.0, w * w - dc));
  CHECK(fabs(a - w) <= std::max(up, dn) + 1e-6 * w, "narrow", "angle of two nearly parallel spectra of %d is %.9g, expected %.9g", n, a, w);
  hv->state(hv_mix((u64)(a * 1e10), n));
}
static std::vector<float> spec(int n, int k) {
  std::vector<float> v(n);
  for (int i = 0; i < n; i++) { int p = pat(i, k); v[i] = k % 5 == 0 ? p : k % 5 == 1 ? p - 128 : k % 5 == 2 ? (float)(i + 1) / n : k % 5 == 3 ? p * 1e-3f + 0.5f : (i % 7 == 0) * 100.0f + 1; }
  return v;
}
static void scales(int n, int k) {
  auto x = spec(n, k), y = spec(n, k + 3);
  static const double S[] = {1e-30, 1e-22, 1e-12, 1e-6, 0.1, 0.5, 1, 3, 1000, 1e6, 1e12, 1e19, 1e25, 1e32};
  if (!nz(x) || !nz(y)) return;
  double w = angle(x, y);
  for (double s : S) for (double t : S) {
    std::vector<float> a(n), b(n);
    for (int i = 0; i < n; i++) { a[i] = x[i] * s; b[i] = y[i] * t; }
    float r = L(spectral_angle_mapper(a.data(), b.data(), n));
    CHECK(fabs(r - w) <= 2e-6, "scaling", "scaled by %g and %g the angle of %d samples is %.9g, not %.9g", s, t, n, r, w);
    for (int i = 0; i < n; i++) b[i] = x[i] * t;
    float z = L(spectral_angle_mapper(a.data(), b.data(), n));
    CHECK(z >= 0 && z <= 2e-6, "proportional", "spectra proportional by %g and %g have angle %.9g", s, t, z);
    sam(a, b);
  }
}
static hyper_mat fcube(int S, int Ln, int B, int k) {
  hyper_mat m = mkcube(S, Ln, B, 4, "bip", k);
  for (int p = 0; p < S * Ln; p++) { auto v = spec(B, k + p); memcpy((float *)m->data + (size_t)p * B, v.data(), 4 * B); if (!nz(v)) ((float *)m->data)[(size_t)p * B] = 1; }
  return m;
}
static void match(int S, int Ln, int B, int k) {
  hyper_mat m = fcube(S, Ln, B, k);
  auto src = dump(m);
  auto y = spec(B, k + 1);
  if (!nz(y)) y[0] = 1;
  std::vector<float> px(S * Ln);
  std::vector<double> ang(S * Ln);
  for (int p = 0; p < S * Ln; p++) { std::vector<float> x((float *)m->data + (size_t)p * B, (float *)m->data + (size_t)(p + 1) * B); px[p] = spectral_angle_mapper(x.data(), y.data(), B); ang[p] = angle(x, y); }
  std::vector<float> T = {-1, 0, 0.1f, 0.4f, 0.8f, 1.2f, 1.5707f, 1.5708f, 2};
  for (int p = 0; p < S * Ln && p < 12; p++) { T.push_back(px[p]); T.push_back(nextafterf(px[p], 9)); T.push_back(nextafterf(px[p], -9)); }
  auto y0 = y;
  for (float t : T) {
    simple_mat r = L(spectrum_SAM_match(m, y.data(), t));
    expect_dims(r, Ln, S, 1, 1, "match dims");
    for (int p = 0; p < S * Ln; p++) {
      int v = ((u8 *)r->data)[p];
      CHECK(v == 0 || v == 1, "match value", "pixel %d is marked %d", p, v);
      double w = ang[p];
      // exact against the definition away from the rounding of the angle, against the library's own angle on it
      int e = fabs(w - t) > 2 * tol(w) ? w >= t : px[p] >= t;
      CHECK(v == e, "match", "pixel %d of %d x %d x %d with angle %.9g and threshold %.9g is %d", p, Ln, S, B, px[p], t, v);
    }
    hv->state(hv_hash(r->data, S * Ln, (u64)(t * 1e6)));
    delete_simple_mat(r);
  }
  same_bytes(m->data, src.data(), src.size(), "src", "cube");
  CHECK(y == y0, "src", "the spectrum changed");
  delete_hyper_mat(m);
}
static void mean(int S, int Ln, int B, int k, double scale) {
  hyper_mat m = fcube(S, Ln, B, k);
  for (size_t i = 0; i < (size_t)S * Ln * B; i++) ((float *)m->data)[i] *= scale;
  auto src = dump(m);
  simple_mat d = create_simple_mat(Ln, S, 4, 1);
  memset(d->data, 0xEE, nbytes(d));
  L(hyper_mat_mean(m, d));
  for (int p = 0; p < S * Ln; p++) {
    double s = 0, mag = 0;
    for (int b = 0; b < B; b++) { double v = ((float *)m->data)[(size_t)p * B + b]; s += v; mag += fabs(v); }
    CHECK(fabs(((float *)d->data)[p] - s / B) <= 2e-7 * mag / B + 1e-44, "mean", "mean of %d bands at pixel %d of %d x %d is %.9g, expected %.9g", B, p, Ln, S, ((float *)d->data)[p], s / B);
  }
  hv->state(hv_hash(d->data, nbytes(d)));
  same_bytes(m->data, src.data(), src.size(), "src", "cube");
  delete_hyper_mat(m); delete_simple_mat(d);
}
// more than 2^31 samples in 8.6 GB
static void huge(int S, int Ln, int B) {
  hv_huge(16); hv_env.fill = 0;
  hyper_mat m = create_hyper_mat(S, Ln, B, 4, "bip");
  simple_mat d = create_simple_mat(Ln, S, 4, 1);
  auto each = [&](auto f) { for (int i : {0, 1, Ln / 2, Ln - 2, Ln - 1}) for (int j : {0, 1, S / 2, S - 2, S - 1}) f((size_t)i * S + j, i % 7 + 3 * (j % 5) + 1); };
  each([&](size_t p, int v) { ((float *)m->data)[p * B] = v; ((float *)m->data)[p * B + B - 1] = 2 * v; });
  L(hyper_mat_mean(m, d));
  each([&](size_t p, int v) { CHECK(fabs(((float *)d->data)[p] - 3.0 * v / B) < 1e-6, "huge-mean", "pixel %zu of %d x %d x %d", p, Ln, S, B); });
  std::vector<float> sp(B, 0); sp[0] = 1;
  simple_mat t = L(spectrum_SAM_match(m, sp.data(), 1));  // the angle at the marks is 1.107
  expect_dims(t, Ln, S, 1, 1, "huge-match");
  each([&](size_t p, int) { CHECK(((u8 *)t->data)[p] == 1, "huge-match", "pixel %zu of %d x %d x %d does not match", p, Ln, S, B); });
  delete_simple_mat(t);
  hv->state(S);
  delete_hyper_mat(m); delete_simple_mat(d);
}
static void explore(HV &h) {
  if (h.thorough) h.run([&] { huge(8011, 9007, 30); }, "means of 2164672310 samples");

  auto cut = [&](int n, std::vector<float> A, const char *what, int parts) { long t = 1; for (int i = 0; i < 2 * n; i++) t *= A.size(); for (int p = 0; p < parts; p++) h.run([&] { all_pairs(n, A, t * p / parts, t * (p + 1) / parts); }, "all pairs of %d over %s, part %d", n, what, p); };
  cut(1, {-3.4e38f, -1e19f, -2, -1, -1e-20f, -1e-45f, 0, 1e-45f, 1e-20f, 0.5f, 1, 3, 255, 65535, 1e19f, 3.4e38f}, "magnitudes", 1);
  cut(2, {-3e38f, -7, -1e-30f, 0, 1e-40f, 1e-10f, 1, 3, 1e20f, 3e38f}, "magnitudes", 8);
  cut(2, {-1.5f, -1, 0, 0.25f, 1, 2, 1000}, "values", 2);
  cut(3, {-1, 0, 1, 2.5f, 300}, "values", 16);
  cut(4, {-2, 0, 1, 7}, "values", 32);
  cut(5, h.thorough ? std::vector<float>{-1, 0, 1, 3} : std::vector<float>{-1, 0, 3}, "values", 64);
  cut(8, {0, 1}, "values", 16);
  for (int n : {1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025, 4096, 32768, 65537, 100000}) for (int k = 0; k < (h.thorough ? 25 : 10); k++) h.run([&] { sam(spec(n, k), spec(n, k + 1)); sam(spec(n, k), spec(n, k)); sam(spec(n, k), spec(n, k + 7)); if (n <= 300) scales(n, k); }, "spectra of %d, set %d", n, k);
  for (int n : {2, 3, 5, 8, 17, 64, 129, 300}) for (int k = 0; k < 20; k++) for (double e : {0.1, 1e-2, 3e-3, 1e-3, 3e-4, 1e-4, 3e-5, 1e-5, 3e-6, 1e-6, 3e-7, 1e-7}) h.run([&] { narrow(n, k, e); }, "spectra of %d set %d apart by %g", n, k, e);
  h.run([&] { std::vector<float> x(20000000, 1), y(20000000, 2); sam(x, y); }, "spectra of 20000000");
  int N = h.thorough ? 7 : 5;
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N + 2; B++) for (int k = 0; k < 5; k++) { h.run([&] { match(S, Ln, B, k); }, "match %d x %d x %d set %d", S, Ln, B, k); h.run([&] { for (double s : {1e-42, 1e-30, 1.0, 1e6, 1e36}) mean(S, Ln, B, k, s); }, "mean %d x %d x %d set %d", S, Ln, B, k); }
  for (int e : {31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025}) { h.run([&] { match(e, 2, 3, 0); match(2, e, 3, 1); match(2, 3, e, 2); }, "match edge %d", e); h.run([&] { mean(e, 2, 3, 0, 1); mean(2, e, 3, 1, 1); mean(2, 3, e, 2, 1); }, "mean edge %d", e); }
  for (int e : {32767, 32768, 65535, 65536, 65537}) h.run([&] { mean(e, 1, 3, 0, 1); mean(1, e, 2, 1, 1); mean(2, 1, e, 2, 1); }, "mean edge %d", e);
  for (auto &b : BIG) { h.run([&] { match(b[0], b[1], 3, 0); }, "match %d x %d", b[0], b[1]); h.run([&] { mean(b[0], b[1], 3, 0, 1); mean(b[0], b[1], 1, 1, 1); }, "mean %d x %d", b[0], b[1]); }
  h.run([&] { match(300, 257, 37, 1); mean(203, 107, 129, 1, 1); mean(107, 203, 65, 3, 1); }, "large cubes");
}
int main(int c, char **v) { return hv_main(c, v, "C16", explore); }
