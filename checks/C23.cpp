// C23: constrained energy minimisation gives response one to the target with minimal mean energy.
#include "lib.h"
typedef std::vector<double> V;

static bool inverse(V a, V &b, int n) {
  b.assign(n * n, 0);
  for (int i = 0; i < n; i++) b[i * n + i] = 1;
  for (int i = 0; i < n; i++) {
    int p = i;
    for (int r = i; r < n; r++) if (fabs(a[r * n + i]) > fabs(a[p * n + i])) p = r;
    if (a[p * n + i] == 0) return false;
    for (int c = 0; c < n; c++) { std::swap(a[p * n + c], a[i * n + c]); std::swap(b[p * n + c], b[i * n + c]); }
    double f = a[i * n + i];
    for (int c = 0; c < n; c++) { a[i * n + c] /= f; b[i * n + c] /= f; }
    for (int r = 0; r < n; r++) if (r != i) { f = a[r * n + i]; for (int c = 0; c < n; c++) { a[r * n + c] -= f * a[i * n + c]; b[r * n + c] -= f * b[i * n + c]; } }
  }
  return true;
}
static double norm(const V &a, int n) { double m = 0; for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < n; i++) s += fabs(a[i * n + j]); m = std::max(m, s); } return m; }
// pixels[p * B + b]; false when the cube is too ill conditioned for single precision
static bool filter(const std::vector<float> &px, int B, const std::vector<float> &d, V &w, double &tol) {
  int n = px.size() / B;
  V R(B * B, 0), I;
  for (int p = 0; p < n; p++) for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) R[a * B + b] += (double)px[(size_t)p * B + a] * px[(size_t)p * B + b] / n;
  if (!inverse(R, I, B)) return false;
  double k = norm(R, B) * norm(I, B), q = 0, m = 0, ds = 0;
  if (!(k < 2000)) return false;
  w.assign(B, 0);
  for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) w[a] += I[a * B + b] * d[b];
  for (int a = 0; a < B; a++) { q += w[a] * d[a]; m += fabs(w[a] * d[a]); ds += (double)d[a] * d[a]; }
  if (!(ds > 0) || !(q > 0)) return false;
  double wn = 0;
  for (auto &x : w) { x /= q; wn = std::max(wn, fabs(x)); }
  tol = 4e-6 * k * (m / q) * wn * B;
  return true;
}
static int cem(int S, int Ln, int B, int il, const std::vector<float> &px, std::vector<float> d) {
  V w;
  double tol;
  if (!filter(px, B, d, w, tol)) return 0;
  hyper_mat m = mkcube(S, Ln, B, 4, ILV[il]);
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int k = 0; k < B; k++) ((float *)m->data)[at(il, S, Ln, B, i, j, k)] = px[((size_t)i * S + j) * B + k];
  std::vector<float> wave(m->wavelength, m->wavelength + B);
  auto d0 = d;
  simple_mat r = L(hyper_mat_cem(m, d.data()));
  expect_dims(r, Ln, S, 4, 1, "dims");
  CHECK(d == d0, "target", "the target spectrum changed");
  const float *f = (float *)r->data;
  double big = 0, energy = 0, best = 0;
  for (float x : px) big = std::max(big, fabs((double)x));
  for (size_t p = 0; p < (size_t)S * Ln; p++) {
    double e = 0;
    bool target = true;
    for (int k = 0; k < B; k++) { e += w[k] * px[p * B + k]; target = target && px[p * B + k] == d[k]; }
    CHECK(fabs(f[p] - e) <= tol * big + 1e-5 * fabs(e) + 1e-30, "response", "%d x %d x %d %s: response of pixel %zu is %.9g, expected %.9g", S, Ln, B, ILV[il], p, f[p], e);
    if (target) CHECK(fabs(f[p] - 1) <= tol * big + 1e-5, "target response", "the response of the target is %.9g", f[p]);
    for (size_t q = 0; q < p && q < 20; q++) if (!memcmp(&px[p * B], &px[q * B], 4 * B)) CHECK(fabs(f[p] - f[q]) <= 1e-6 * fabs(f[p]), "equal pixels", "equal pixels %zu and %zu have responses %.9g and %.9g", p, q, f[p], f[q]);
    energy += (double)f[p] * f[p]; best += e * e;
  }
  CHECK(energy >= best * (1 - 1e-2) - 1e-12 && energy <= best * (1 + 1e-2) + (tol * big) * (tol * big) * S * Ln + 2 * tol * big * sqrt(best * S * Ln) + 1e-12, "energy", "mean energy %.9g, the minimum is %.9g", energy / (S * Ln), best / (S * Ln));
  // the cube is only rearranged
  CHECK(m->samples == S && m->lines == Ln && m->bands == B && m->data_type == 4, "cube", "the cube became %d x %d x %d", m->samples, m->lines, m->bands);
  int ol = ilis(m, "bsq") ? 0 : ilis(m, "bil") ? 1 : 2;
  CHECK(ilis(m, ILV[ol]), "cube", "layout %.3s", m->interleave);
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int k = 0; k < B; k++) CHECK(((float *)m->data)[at(ol, S, Ln, B, i, j, k)] == px[((size_t)i * S + j) * B + k], "cube", "sample of line %d column %d band %d changed", i, j, k);
  expect_wave(m, wave.data(), B, "cube");
  hv->state(hv_hash(f, 4 * (size_t)S * Ln, il));
  delete_hyper_mat(m); delete_simple_mat(r);
  return 1;
}
static void every(int S, int Ln, int B, std::vector<float> A, const std::vector<std::vector<float>> &D, long lo, long hi, long stride) {
  std::vector<float> px(S * Ln * B);
  for (long a = lo; a < hi; a += stride) { long q = a; for (auto &x : px) { x = A[q % A.size()]; q /= A.size(); } for (auto &d : D) cem(S, Ln, B, a % 3, px, d); }
}
static std::vector<float> cube(int n, int B, int k) {
  std::vector<float> px((size_t)n * B);
  for (int p = 0; p < n; p++) for (int b = 0; b < B; b++) px[(size_t)p * B + b] = k == 0 ? pat(p * B + b, 5) / 255.0f : k == 1 ? (p % B == b ? 4.0f : 1.0f) + pat(p * 31 + b, 9) / 300.0f : k == 2 ? pat(p * B + b, 7) - 128.0f : k == 3 ? ((p % B == b) + 0.1f * ((p + b) % 3)) * 5000 : k == 5 ? (p % B == b ? 2 : (p / 7 + b) % 2) : ((p % B == (b * 3 + 1) % B) ? 1 : 0) * 1e-4f + 1e-6f * (b + 1);
  return px;
}
static void family(int S, int Ln, int B, int k) {
  int n = S * Ln;
  auto px = cube(n, B, k);
  for (int il = 0; il < 3; il++) {
    for (int p : {0, n / 2, n - 1}) cem(S, Ln, B, il, px, std::vector<float>(px.begin() + (size_t)p * B, px.begin() + (size_t)(p + 1) * B));
    std::vector<float> d(B);
    for (int b = 0; b < B; b++) d[b] = (b + 1) * (k == 4 ? 1e-4f : 0.5f);
    cem(S, Ln, B, il, px, d);
    std::fill(d.begin(), d.end(), 0.0f); d[B - 1] = 2;
    cem(S, Ln, B, il, px, d);
  }
}
// all orders of the pixels
static void orders(int B, int k) {
  int n = 5;
  auto px = cube(n, B, k);
  std::vector<int> o = {0, 1, 2, 3, 4};
  do { std::vector<float> q; for (int p : o) q.insert(q.end(), px.begin() + p * B, px.begin() + (p + 1) * B); cem(5, 1, B, o[0] % 3, q, std::vector<float>(px.begin(), px.begin() + B)); } while (std::next_permutation(o.begin(), o.end()));
}
static void explore(HV &h) {
  std::vector<float> A = {0, 1, 2, -1, 5};
  for (int p = 0; p < 8; p++) {
    h.run([&] { every(1, 1, 1, {-3, 0.001f, 1, 2, 7e4f}, {{1}, {-2}, {1e-3f}}, 0, 5, 1); every(3, 1, 1, A, {{1}, {-2}}, 0, 125, 1); every(1, 3, 1, A, {{3}}, 0, 125, 1); every(2, 1, 2, A, {{1, 0}, {0, 1}, {1, 1}, {2, -1}, {5, 2}}, 625L * p / 8, 625L * (p + 1) / 8, 1); }, "every cube of one or two pixels, part %d", p);
    h.run([&] { every(3, 1, 2, A, {{1, 0}, {0, 1}, {1, 2}, {-1, 5}}, 15625L * p / 8, 15625L * (p + 1) / 8, 1); every(2, 2, 2, {0, 1, -2}, {{1, 0}, {0, 1}, {1, 1}, {1, -2}}, 6561L * p / 8, 6561L * (p + 1) / 8, 1); }, "every cube of two bands, part %d", p);
    h.run([&] { every(3, 1, 3, {0, 1, 3}, {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}, {3, 1, 0}}, 19683L * p / 8, 19683L * (p + 1) / 8, 1); every(1, 4, 3, {0, 1}, {{1, 0, 0}, {1, 1, 0}, {0, 1, 1}}, 4096L * p / 8, 4096L * (p + 1) / 8, 1); every(2, 2, 4, {0, 1}, {{1, 0, 0, 0}, {0, 0, 0, 1}, {1, 1, 1, 1}}, 65536L * p / 8, 65536L * (p + 1) / 8, h.thorough ? 1 : 3); }, "every cube of three or four bands, part %d", p);
  }
  int N = h.thorough ? 9 : 6;
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= 8; B++) h.run([&] { for (int k = 0; k < 5; k++) family(S, Ln, B, k); }, "%d x %d x %d", S, Ln, B);
  for (int B = 1; B <= 5; B++) for (int k = 0; k < 5; k++) h.run([&] { orders(B, k); }, "orders of pixels with %d bands, set %d", B, k);
  for (int e : {15, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1000}) for (int k = 0; k < 5; k++) h.run([&] { family(e, 3, 4, k); family(2, e, 5, k); family(e, 1, 2, k); }, "edge %d set %d", e, k);
  for (int B : {12, 16, 20, 32}) for (int k : {0, 1, 2, 3}) h.run([&] { family(20, 25, B, k); }, "%d bands set %d", B, k);
  for (int B : {9, 15, 17, 31, 33, 48, 63, 64, 65, 100, 127, 128, 129, h.thorough ? 224 : 150}) for (int k : {1, 3}) h.run([&] { family(20, (B + 9) / 10, B, k); }, "%d bands set %d", B, k);
  for (auto &b : BIG) for (int B : {1, 2, 3, 4, 7, 12}) if (b[0] * b[1] * B < 4000000) h.run([&] { family(b[0], b[1], B, 5); }, "%d x %d x %d small whole numbers", b[0], b[1], B);  // their sums are exact in single precision
}
int main(int c, char **v) { return hv_main(c, v, "C23", explore); }
