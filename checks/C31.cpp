// C31: principal components against a double precision eigen decomposition, for every small cube that has separated components.
#include "lib.h"
typedef std::vector<double> Mat;
static Mat eig(Mat a, int n) {
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0, all = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i != j) off += a[i * n + j] * a[i * n + j]; all += a[i * n + j] * a[i * n + j]; }
    if (off <= 1e-28 * all) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (a[p * n + q] == 0) continue;
      double th = (a[q * n + q] - a[p * n + p]) / (2 * a[p * n + q]), t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double x = a[k * n + p], y = a[k * n + q]; a[k * n + p] = c * x - s * y; a[k * n + q] = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = a[p * n + k], y = a[q * n + k]; a[p * n + k] = c * x - s * y; a[q * n + k] = s * x + c * y; }
    }
  }
  Mat e(n);
  for (int i = 0; i < n; i++) e[i] = a[i * n + i];
  std::sort(e.begin(), e.end(), std::greater<double>());
  return e;
}
static long done_cubes;
// px: pixels x bands
static bool one(const std::vector<float> &px, int S, int Ln, int B, int iter, double least = 0.01, double ratio = 0.75) {
  int n = S * Ln;
  Mat X(px.begin(), px.end()), C(B * B, 0);
  for (int b = 0; b < B; b++) { double m = 0; for (int i = 0; i < n; i++) m += X[(size_t)i * B + b]; m /= n; for (int i = 0; i < n; i++) X[(size_t)i * B + b] -= m; }
  for (int i = 0; i < n; i++) for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) C[a * B + b] += X[(size_t)i * B + a] * X[(size_t)i * B + b];
  Mat e = eig(C, B);
  if (!(e[0] > 0)) return false;
  for (int k = 1; k < B; k++) if (!(e[k] < ratio * e[k - 1])) return false;
  if (!(e[B - 1] > least * e[0])) return false;
  hyper_mat m = create_hyper_mat(S, Ln, B, 4, "bip"), r = mkcube(S, Ln, B, 4, "bip", 77);
  memcpy(m->data, px.data(), px.size() * 4);
  for (int b = 0; b < B; b++) m->wavelength[b] = 500 + b;
  Bytes m0 = dump(m);
  L(hyper_mat_pca(m, r, iter));
  expect_dims(m, S, Ln, B, 4, "bip", "source"); same_bytes(m->data, m0.data(), m0.size(), "source", "the cube");
  expect_dims(r, S, Ln, B, 4, "bip", "dims");
  const float *y = (float *)r->data;
  double scale = 0; for (double v : px) scale = std::max(scale, fabs(v));
  double big = e[0];
  // bands of the result: uncorrelated, variance of the eigenvalue, none lost
  double trace = 0, total = 0;
  for (int k = 0; k < B; k++) { trace += C[k * B + k]; for (int i = 0; i < n; i++) { CHECK(!std::isnan(y[(size_t)i * B + k]), "nan", "component %d of pixel %d is not a number", k + 1, i); total += (double)y[(size_t)i * B + k] * y[(size_t)i * B + k]; } }
  CHECK(near_(trace, total, 3e-3, 0), "total", "total variance is %.9g in, %.9g out (%d bands, %d pixels)", trace, total, B, n);
  Mat V(B * B);
  for (int k = 0; k < B; k++) for (int l = 0; l <= k; l++) {
    double p = 0, mean = 0;
    for (int i = 0; i < n; i++) p += (double)y[(size_t)i * B + k] * y[(size_t)i * B + l], mean += y[(size_t)i * B + k];
    if (k == l) CHECK(fabs(p - e[k]) <= 3e-3 * big, "variance", "component %d has variance %.9g, its eigenvalue is %.9g", k + 1, p, e[k]);
    else CHECK(fabs(p) <= 3e-3 * big, "correlated", "components %d and %d have covariance %.9g (largest variance %.9g)", k + 1, l + 1, p, big);
    CHECK(fabs(mean) <= 1e-3 * n * sqrt(big / n) + 1e-5 * scale * n, "centre", "component %d has mean %.9g", k + 1, mean / n);
  }
  // every pixel projected on one orthonormal basis
  for (int k = 0; k < B; k++) for (int a = 0; a < B; a++) { double p = 0; for (int i = 0; i < n; i++) p += X[(size_t)i * B + a] * y[(size_t)i * B + k]; V[a * B + k] = p / e[k]; }
  double cond = big / e[B - 1];
  for (int k = 0; k < B; k++) for (int l = 0; l <= k; l++) { double p = 0; for (int a = 0; a < B; a++) p += V[a * B + k] * V[a * B + l]; CHECK(fabs(p - (k == l)) <= 2e-3 * sqrt(cond), "orthonormal", "directions %d and %d have product %.9g", k + 1, l + 1, p); }
  for (int i = 0; i < n; i++) for (int k = 0; k < B; k++) { double p = 0; for (int a = 0; a < B; a++) p += X[(size_t)i * B + a] * V[a * B + k]; CHECK(fabs(p - y[(size_t)i * B + k]) <= 5e-3 * sqrt(big), "projection", "component %d of pixel %d is %.9g, its projection %.9g", k + 1, i, y[(size_t)i * B + k], p); }
  done_cubes++;
  hv->state(hstate(r));
  delete_hyper_mat(m); delete_hyper_mat(r);
  return true;
}
static void every(int S, int Ln, int B, const std::vector<float> &A, u64 lo, u64 hi) {
  std::vector<float> px((size_t)S * Ln * B);
  for (u64 c = lo; c < hi; c++) { u64 q = c; for (float &v : px) { v = A[q % A.size()]; q /= A.size(); } one(px, S, Ln, B, 60); }
}
// correlated bands: independent patterns of falling strength, mixed by plane rotations, with offsets
static std::vector<float> mixed(int n, int B, int k, double gain, double offset, double f = 0) {
  Mat R(B * B, 0);
  for (int i = 0; i < B; i++) R[i * B + i] = 1;
  for (int p = 0; p < B; p++) for (int q = p + 1; q < B; q++) { double t = 0.05 + pat(p * B + q, k) * 0.024, c = cos(t), s = sin(t); for (int i = 0; i < B; i++) { double x = R[i * B + p], y = R[i * B + q]; R[i * B + p] = c * x - s * y; R[i * B + q] = s * x + c * y; } }
  Lcg g(k * 977 + n * 31 + B);
  std::vector<float> o((size_t)n * B);
  if (f == 0) f = B > 5 ? 0.76 : 0.6;  // standard deviations fall by this factor
  for (int i = 0; i < n; i++) { Mat z(B); for (int b = 0; b < B; b++) z[b] = ((double)g(2001) - 1000) / 577 * pow(f, b); for (int a = 0; a < B; a++) { double v = 0; for (int b = 0; b < B; b++) v += R[a * B + b] * z[b]; o[(size_t)i * B + a] = (float)(v * gain + offset * (1 + a % 3)); } }
  return o;
}
static void explore(HV &h) {
  auto sweep = [&](int S, int Ln, int B, std::vector<float> A) {
    u64 n = 1; for (int i = 0; i < S * Ln * B; i++) n *= A.size();
    u64 parts = n > 4096 ? 64 : 8;
    for (u64 p = 0; p < parts; p++) h.run([&] { every(S, Ln, B, A, n * p / parts, n * (p + 1) / parts); }, "every cube %d x %d x %d over %zu values, part %llu", S, Ln, B, A.size(), p);
  };
  sweep(2, 1, 1, {0, 1, -3, 100, 2.5f, 1000}); sweep(1, 3, 1, {0, 1, -3, 100, 2.5f, 1000}); sweep(3, 1, 2, {0, 1, 3, -2, 7}); sweep(1, 3, 2, {0, 1, 3, 200}); sweep(2, 2, 2, {0, 1, 3}); sweep(1, 4, 3, {0, 1});
  sweep(2, 2, 3, h.thorough ? std::vector<float>{0, 1, 4} : std::vector<float>{0, 3}); sweep(5, 1, 2, {0, 1, 4}); sweep(5, 1, 3, {0, 2});
  if (h.thorough) { sweep(2, 2, 2, {0, 1, 3, -5, 9}); sweep(5, 1, 4, {0, 2}); sweep(3, 2, 3, {0, 5}); }
  int K = h.thorough ? 40 : 12;
  for (int B = 1; B <= 8; B++) for (int S : {1, 2, 3, 5, 7, 16, 33, 100}) for (int Ln : {1, 2, 3, 8, 31, 64}) if (S * Ln > 3 * B + 3) h.run([&] {
    int ok = 0;
    for (int k = 0; k < K; k++) { double g[4] = {1, 100, 1e-3, 5000}, o[4] = {0, 30, -0.01, 4000}; ok += one(mixed(S * Ln, B, k, g[k % 4], o[(k / 4) % 4] * (k % 2)), S, Ln, B, k % 3 == 2 ? 200 : 80); }
    hv->state(hv_mix(ok, 5));
  }, "mixed bands, %d x %d x %d", S, Ln, B);
  // bands that are uncorrelated already, their variances in every order
  for (int B = 2; B <= 8; B++) for (int k = 0; k < (h.thorough ? 120 : 24); k++) h.run([&] {
    std::vector<int> o(B);
    for (int i = 0; i < B; i++) o[i] = i;
    if (k < 2) { if (k) std::reverse(o.begin(), o.end()); } else { Lcg g(k * 31 + B); for (int i = B - 1; i > 0; i--) std::swap(o[i], o[g(i + 1)]); }
    // columns of a Walsh table: of mean zero and orthogonal
    std::vector<float> px((size_t)16 * B);
    for (int i = 0; i < 16; i++) for (int b = 0; b < B; b++) px[(size_t)i * B + b] = (__builtin_parity(i & (b + 1)) ? -1 : 1) * (float)(1 << 2 * (B > 5) | 0) * powf(1.3f, o[b]);
    hv->state(one(px, 4, 4, B, 60) + one(px, 16, 1, B, 100) * 2);
  }, "uncorrelated bands, %d, order %d", B, k);
  for (int S : {255, 256, 257, 1000}) for (int B : {2, 3, 6}) h.run([&] { one(mixed(S * 300, B, S, 50, 0), S, 300, B, 100); one(mixed(S * 300, B, S, 20, 500), 300, S, B, 100); }, "%d x 300 pixels, %d bands", S, B);
  h.run([&] { one(mixed(2100 * 2000, 3, 5, 50, 100), 2100, 2000, 3, 100); }, "4.2 million pixels");
  for (int B : {9, 10, 12, 16, 17, 20}) h.run([&] { int ok = 0; for (int k = 0; k < (h.thorough ? 20 : 4); k++) ok += one(mixed(4000, B, k, 50, 10), 80, 50, B, 300, 0.00001); hv->state(ok + 100 * B); }, "%d bands", B);
  for (int B : {24, 31, 32, 33, 40, 50, 64, 65}) h.run([&] { int ok = 0; for (int k = 0; k < 2; k++) ok += one(mixed(6000, B, k, 50, 10, sqrt(pow(1e-4, 1.0 / B))), 80, 75, B, 400, 0.00001, 0.92); hv->state(ok + 100 * B);  }, "%d bands", B);
}
int main(int c, char **v) { return hv_main(c, v, "C31", explore); }
