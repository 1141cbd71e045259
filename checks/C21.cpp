// C21: equalisation, stretching and normalisation follow their formula.
#include "imgref.h"

static void equalise(const Img &g, simple_mat s, simple_mat d) {
  memset(d->data, 0xEE, nbytes(d));
  L(HisEqualization(s, d));
  long H[256] = {0}, n = g.d.size();
  for (u8 x : g.d) H[x]++;
  for (int i = 1; i < 256; i++) H[i] += H[i - 1];
  const u8 *p = (const u8 *)d->data;
  for (long i = 0; i < n; i++) CHECK(p[i] == H[g.d[i]] * 255 / n, "equalise", "pixel %ld of %d x %d with level %d is %d, expected %ld * 255 / %ld", i, g.R, g.C, g.d[i], p[i], H[g.d[i]], n);
  hv->state(hv_hash(p, n));
}
static void eq(const Img &g) {
  simple_mat s = matof(g), d = create_simple_mat(g.R, g.C, 1, 1);
  equalise(g, s, d);
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d);
}
static void eq_all(int R, int C, std::vector<int> A, long lo, long hi) {
  Img g{R, C, 1, std::vector<u8>(R * C)};
  simple_mat s = create_simple_mat(R, C, 1, 1), d = create_simple_mat(R, C, 1, 1);
  for (long a = lo; a < hi; a++) { long q = a; for (auto &x : g.d) { x = A[q % A.size()]; q /= A.size(); } memcpy(s->data, g.d.data(), g.d.size()); equalise(g, s, d); }
  delete_simple_mat(s); delete_simple_mat(d);
}
// ---------- stretching
static void stretch1(hyper_mat s, hyper_mat d) {
  long n = (long)s->samples * s->lines;
  auto src = dump(s);
  memset(d->data, 0xEE, nbytes(d));
  L(hyper_mat_linear_tension(s, d));
  for (int k = 0; k < s->bands; k++) {
    const float *f = (float *)s->data + n * k;
    const u8 *p = (u8 *)d->data + n * k;
    float lo = f[0], hi = f[0];
    for (long i = 0; i < n; i++) { lo = std::min(lo, f[i]); hi = std::max(hi, f[i]); }
    for (long i = 0; i < n; i++) {
      double x = hi > lo ? ((double)f[i] - lo) * 255 / ((double)hi - lo) : 0, e = 2e-4;
      bool ok = false;
      for (double y : {x - e, x, x + e}) { int v = std::min(255, std::max(0, (int)floor(y))); if (v == 0 && f[i] != 0) v = 1; ok = ok || p[i] == v; }
      if (f[i] == hi && hi > lo) ok = p[i] == 255;
      if (f[i] == lo) ok = p[i] == (f[i] != 0);
      if (!ok) hv->fail("stretch", "band %d of %d x %d x %d: sample %.9g between %.9g and %.9g is %d, expected %.5f", k, s->samples, s->lines, s->bands, f[i], lo, hi, p[i], x);
    }
  }
  hv->state(hstate(d));
  same_bytes(s->data, src.data(), src.size(), "src", "source cube");
}
static void stretch(int S, int Ln, int B, int k) {
  hyper_mat s = mkcube(S, Ln, B, 4, "bsq"), d = create_hyper_mat(S, Ln, B, 1, "bsq");
  static const double SC[] = {1, 0.001, 1e6, 1e30, 1e-30, 3.3};
  for (long b = 0, i = 0; b < B; b++) for (long q = 0; q < (long)S * Ln; q++, i++) { int p = pat(i, k); ((float *)s->data)[i] = (k == 0 ? p : k == 1 ? p - 300.0 : k == 2 ? p % 3 - 1 : k == 3 ? 7 : k == 4 ? (q == 0 ? 1 : 2) : p * 0.7 - 60) * SC[(b + k) % 6] + (k == 1 ? b * 10 : 0); }
  stretch1(s, d);
  delete_hyper_mat(s); delete_hyper_mat(d);
}
static void stretch_all(int n, int B, std::vector<double> A, long lo, long hi) {
  hyper_mat s = mkcube(n, 1, B, 4, "bsq"), d = create_hyper_mat(n, 1, B, 1, "bsq");
  for (long a = lo; a < hi; a++) { long q = a; for (int i = 0; i < n * B; i++) { ((float *)s->data)[i] = A[q % A.size()]; q /= A.size(); } stretch1(s, d); }
  delete_hyper_mat(s); delete_hyper_mat(d);
}
// every pair of range ends: the ends map to the ends
static void ranges(int lo) {
  hyper_mat s = mkcube(3, 1, 1, 4, "bsq"), d = create_hyper_mat(3, 1, 1, 1, "bsq");
  float *f = (float *)s->data;
  for (int a = lo; a < lo + 32; a++) for (int b = 1; b < 1500; b++) { f[0] = a * 0.37f + 1; f[1] = f[0] + b * 0.011f; f[2] = f[0] + b * 0.005f; stretch1(s, d); }
  delete_hyper_mat(s); delete_hyper_mat(d);
}
// ---------- normalisation
static const int NT[4] = {1, 2, 4, 32};
static void norm1(simple_mat s, simple_mat d, float al, float be, int type) {
  int t = s->data_type;
  size_t n = (size_t)s->rows * s->cols;
  auto src = dump(s);
  memset(d->data, 0xEE, nbytes(d));
  double l1 = 0, l2 = 0, inf = 0, lo = getv(s->data, t, 0), hi = lo;
  for (size_t i = 0; i < n; i++) { double v = getv(s->data, t, i); l1 += fabs(v); l2 += v * v; inf = std::max(inf, fabs(v)); lo = std::min(lo, v); hi = std::max(hi, v); }
  double N = type == 1 ? inf : type == 2 ? l1 : type == 4 ? sqrt(l2) : hi - lo;
  if (N == 0) return;
  L(hypercv_normalize(s, d, al, be, type));
  double a = std::min(al, be), b = std::max(al, be), e1 = 0, e2 = 0, ei = 0, glo = 1e300, ghi = -1e300;
  bool inside = true;
  for (size_t i = 0; i < n; i++) {
    double v = getv(s->data, t, i), w = type == 32 ? (v - lo) * (b - a) / (hi - lo) + a : v * (double)al / N, g = getv(d->data, t, i);
    if (t == 1) { if (w < 0 || w > 255) inside = false; double c = std::min(255.0, std::max(0.0, w)); CHECK(fabs(g - c) <= 0.5 + 1e-3, "normalise", "type 1 norm %d alpha %g beta %g: pixel %zu of %d x %d (%g) is %g, expected %.6f", type, al, be, i, s->rows, s->cols, v, g, w); }
    else { CHECK(fabs(g - w) <= 2e-6 * (fabs(w) + (type == 32 ? fabs(a) + fabs(b) : 0)) + 1e-37, "normalise", "type 4 norm %d alpha %g beta %g: pixel %zu of %d x %d (%.9g) is %.9g, expected %.9g", type, al, be, i, s->rows, s->cols, v, g, w); e1 += fabs(g); e2 += g * g; ei = std::max(ei, fabs(g)); glo = std::min(glo, g); ghi = std::max(ghi, g); }
  }
  if (t == 4 && type != 32) { double q = type == 1 ? ei : type == 2 ? e1 : sqrt(e2); CHECK(near_(q, fabs((double)al), 1e-5, 1e-30), "norm", "norm %d of the result is %.9g, requested %.9g", type, q, al); }
  if (t == 4 && type == 32) CHECK(fabs(glo - a) <= 3e-6 * (fabs(a) + fabs(b)) && fabs(ghi - b) <= 3e-6 * (fabs(a) + fabs(b)), "range", "the result spans %.9g to %.9g, requested %.9g to %.9g", glo, ghi, a, b);
  hv->state(hv_hash(d->data, nbytes(d), type));
  same_bytes(s->data, src.data(), src.size(), "src", "source");
}
static const float AB[][2] = {{1, 0}, {255, 0}, {0, 255}, {100, 20}, {20, 100}, {-50, 300}, {0.5f, 1.5f}, {1000, 10}, {-3, -1}};
static void normal(int R, int C, int t, int k) {
  simple_mat s = create_simple_mat(R, C, t, 1), d = create_simple_mat(R, C, t, 1);
  for (int i = 0; i < R * C; i++) { int p = pat(i, k); double v = k == 0 ? p : k == 1 ? p % 2 : k == 2 ? 255 : k == 3 ? i % 256 : 17; if (t == 4) v = k == 0 ? p - 128 : k == 1 ? p * 1e-12 + 1e-13 : k == 2 ? p * 1e15 - 1e16 : k == 3 ? 1 : -p - 1; putv(s->data, t, i, v); }
  for (int type : NT) for (auto &q : AB) norm1(s, d, q[0], q[1], type);
  delete_simple_mat(s); delete_simple_mat(d);
}
// the deciding samples far from the start: n values, the largest and the smallest at every place asked for
static void places(int R, int C, int t) {
  simple_mat s = create_simple_mat(R, C, t, 1), d = create_simple_mat(R, C, t, 1);
  size_t n = (size_t)R * C;
  for (size_t a : {(size_t)0, n / 3, n / 2, n - 2, n - 1}) for (size_t b : {(size_t)0, n / 2 + 1, n - 2, n - 1}) if (a != b && a < n && b < n) {
    for (size_t i = 0; i < n; i++) putv(s->data, t, i, 40 + i % 100);
    putv(s->data, t, a, 250); putv(s->data, t, b, t == 1 ? 3 : -700);
    for (int type : NT) norm1(s, d, 200, 100, type);
  }
  delete_simple_mat(s); delete_simple_mat(d);
}
static void normal_all(int n, int t, std::vector<double> A, long lo, long hi) {
  simple_mat s = create_simple_mat(1, n, t, 1), d = create_simple_mat(1, n, t, 1);
  for (long a = lo; a < hi; a++) { long q = a; for (int i = 0; i < n; i++) { putv(s->data, t, i, A[q % A.size()]); q /= A.size(); } for (int type : NT) for (auto &z : AB) norm1(s, d, z[0], z[1], type); }
  delete_simple_mat(s); delete_simple_mat(d);
}
// more than 2^31 samples: 8.6 GB stretched into 2.2 GB
static void huge(int S, int Ln, int B) {
  hv_huge(); hv_env.fill = 0;
  hyper_mat s = create_hyper_mat(S, Ln, B, 4, "bsq"), d = create_hyper_mat(S, Ln, B, 1, "bsq");
  size_t n = (size_t)S * Ln;
  for (int k = 0; k < B; k++) { float *f = (float *)s->data + n * k; f[0] = -k - 1; f[n / 2] = 2 * k + 1; f[n - 1] = 0.5f * k; }
  L(hyper_mat_linear_tension(s, d));
  for (int k = 0; k < B; k++) {
    const u8 *p = (u8 *)d->data + n * k;
    auto want = [&](double x) { int v = (int)floor((x + k + 1) * 255 / (3 * k + 2) + 1e-9); return std::max(v, x != 0 ? 1 : 0); };
    CHECK(p[0] == 1 && p[n / 2] == 255 && abs(p[n - 1] - want(0.5 * k)) <= 1 && abs(p[1] - want(0)) <= 1 && abs(p[n - 2] - want(0)) <= 1, "huge-stretch", "band %d of %d x %d x %d: %d %d %d %d %d", k, S, Ln, B, p[0], p[n / 2], p[n - 1], p[1], p[n - 2]);
  }
  hv->state(S);
  delete_hyper_mat(s); delete_hyper_mat(d);
}
static void explore(HV &h) {
  if (h.thorough) h.run([&] { huge(14011, 9007, 18); }, "stretching 2271547386 samples");

  int N = h.thorough ? 24 : 13;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) { h.run([&] { for (int k = 0; k < 7; k++) eq(pattern(R, C, 1, k)); }, "equalise %d x %d", R, C); h.run([&] { for (int k = 0; k < 5; k++) { normal(R, C, 1, k); normal(R, C, 4, k); } }, "normalise %d x %d", R, C); }
  for (int p = 0; p < 16; p++) h.run([&] { eq_all(3, 3, {0, 128, 255}, 19683L * p / 16, 19683L * (p + 1) / 16); eq_all(1, 7, {0, 3, 3, 254, 255}, 78125L * p / 16, 78125L * (p + 1) / 16); }, "equalise every small image, part %d", p);
  h.run([&] { for (int v = 0; v < 256; v++) for (int w = 0; w < 256; w++) { Img g{1, 3, 1, {(u8)v, (u8)w, (u8)v}}; eq(g); } }, "equalise every pair of levels");
  for (int e : {31, 32, 33, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 32767, 32768, 65535, 65536, 65537}) for (int k : {0, 1, 3, 5}) h.run([&] { eq(pattern(e, 2, 1, k)); eq(pattern(3, e, 1, k)); if (k < 2) { normal(e, 2, 1, k); normal(1, e, 4, k); stretch(e, 2, 2, k); stretch(2, e, 3, k + 4); stretch(2, 2, std::min(e, 2000), k); } }, "edge %d image %d", e, k);
  for (int k : {0, 3, 5}) h.run([&] { eq(pattern(2900, 3001, 1, k)); }, "equalise large image %d", k);
  h.run([&] { eq(pattern(4200, 4100, 1, 3)); eq(pattern(2, 8500000, 1, 0)); simple_mat s = create_simple_mat(4200, 4200, 1, 1), d = create_simple_mat(4200, 4200, 1, 1); memset(s->data, 255, 4200 * 4200); ((u8 *)s->data)[7] = 10; norm1(s, d, 255.0f * 4200 * 4200, 0, 2); norm1(s, d, 255.0f * 4200, 0, 4); norm1(s, d, 200, 100, 32); norm1(s, d, 77, 0, 1); delete_simple_mat(s); delete_simple_mat(d); }, "large images");
  h.run([&] { simple_mat s = create_simple_mat(4200, 4200, 4, 1), d = create_simple_mat(4200, 4200, 4, 1); for (int i = 0; i < 4200 * 4200; i++) ((float *)s->data)[i] = 1 + i % 3; for (int t : NT) norm1(s, d, 5, 2, t); delete_simple_mat(s); delete_simple_mat(d); }, "large float image");
  for (auto &q : {std::pair<int, int>{2, 3}, {1, 257}, {70, 59}, {64, 64}, {65, 64}, {5000, 1}, {257, 300}, {1, 66000}, {1025, 1030}}) for (int t : {1, 4}) h.run([&] { places(q.first, q.second, t); }, "normalise %d x %d type %d, extremes at every place", q.first, q.second, t);
  int M = h.thorough ? 8 : 6;
  for (int S = 1; S <= M; S++) for (int Ln = 1; Ln <= M; Ln++) for (int B = 1; B <= 6; B++) h.run([&] { for (int k = 0; k < 6; k++) stretch(S, Ln, B, k); }, "stretch %d x %d x %d", S, Ln, B);
  for (int p = 0; p < 16; p++) { h.run([&] { stretch_all(3, 2, {-1000, -0.5, 0, 1e-6, 3, 255, 1e6}, 117649L * p / 16, 117649L * (p + 1) / 16); stretch_all(5, 1, {-3e38, -1, 0, 0.5, 2, 3e38}, 7776L * p / 16, 7776L * (p + 1) / 16); stretch_all(1, 5, {-1, 0, 2}, 243L * p / 16, 243L * (p + 1) / 16); }, "stretch every small cube, part %d", p);
    h.run([&] { normal_all(4, 1, {0, 1, 2, 100, 254, 255}, 1296L * p / 16, 1296L * (p + 1) / 16); normal_all(3, 4, {-1e25, -200, -1, -1e-25, 0, 1e-30, 0.5, 3, 1e20}, 729L * p / 16, 729L * (p + 1) / 16); normal_all(5, 4, {-7, 0, 1, 30}, 1024L * p / 16, 1024L * (p + 1) / 16); }, "normalise every small image, part %d", p); }
  for (int a = -512; a < 512; a += 32) h.run([&] { ranges(a); }, "stretch ranges from %d", a);
}
int main(int c, char **v) { return hv_main(c, v, "C21", explore); }
