// C20: Fourier transforms equal their defining sums for every small size, and invert.
#include "imgref.h"
#include <complex>
typedef std::complex<double> Cx;
struct G { int R, C, t; std::vector<double> d; };
static simple_mat mat(const G &g) { simple_mat m = create_simple_mat(g.R, g.C, g.t, 1); for (size_t i = 0; i < g.d.size(); i++) putv(m->data, g.t, i, g.d[i]); return m; }
static std::vector<Cx> ref(const G &g, bool centred) {
  std::vector<Cx> row((size_t)g.R * g.C), out(row.size());
  auto w = [](int a, int n) { double t = -2 * M_PI * (a % n) / n; return Cx(cos(t), sin(t)); };
  std::vector<Cx> wr(g.R), wc(g.C);
  for (int i = 0; i < g.R; i++) wr[i] = w(i, g.R);
  for (int i = 0; i < g.C; i++) wc[i] = w(i, g.C);
  for (int x = 0; x < g.R; x++) for (int j = 0; j < g.C; j++) { Cx s = 0; for (int y = 0; y < g.C; y++) s += (centred && (x + y) & 1 ? -1.0 : 1.0) * g.d[(size_t)x * g.C + y] * wc[(long)j * y % g.C]; row[(size_t)x * g.C + j] = s; }
  for (int j = 0; j < g.C; j++) for (int i = 0; i < g.R; i++) { Cx s = 0; for (int x = 0; x < g.R; x++) s += row[(size_t)x * g.C + j] * wr[(long)i * x % g.R]; out[(size_t)i * g.C + j] = s; }
  return out;
}
// coefficients are floats
static double err(const G &g) { double s = 0; for (double v : g.d) s += fabs(v); return s * 1e-6 + 1e-3; }
static void transform(const G &g) {
  simple_mat s = mat(g), re = create_simple_mat(g.R, g.C, 4, 1), im = create_simple_mat(g.R, g.C, 4, 1), mg = create_simple_mat(g.R, g.C, 4, 1), b = create_simple_mat(g.R, g.C, g.t, 1);
  auto src = dump(s);
  for (auto m : {re, im, mg, b}) memset(m->data, 0xFF, nbytes(m));
  L(hypercv_dft(s, re, im));
  auto w = ref(g, false);
  double e = err(g);
  float *r = (float *)re->data, *q = (float *)im->data;
  for (size_t i = 0; i < w.size(); i++) {
    CHECK(fabs(r[i] - w[i].real()) <= e, "real", "%d x %d: real part at frequency %zu %zu is %.9g, expected %.9g", g.R, g.C, i / g.C, i % g.C, r[i], w[i].real());
    CHECK(fabs(q[i] - w[i].imag()) <= e, "imaginary", "%d x %d: imaginary part at frequency %zu %zu is %.9g, expected %.9g", g.R, g.C, i / g.C, i % g.C, q[i], w[i].imag());
  }
  same_bytes(s->data, src.data(), src.size(), "src", "source");
  auto r0 = dump(re), q0 = dump(im);
  L(hypercv_magnitude(re, im, mg));
  for (size_t i = 0; i < w.size(); i++) { double m = sqrt((double)r[i] * r[i] + (double)q[i] * q[i]); CHECK(near_(((float *)mg->data)[i], m, 1e-6, 1e-30), "magnitude", "modulus of %.9g + %.9gi is %.9g", r[i], q[i], ((float *)mg->data)[i]); }
  L(hypercv_idft(re, im, b));
  for (size_t i = 0; i < w.size(); i++) CHECK(fabs(getv(b->data, g.t, i) - g.d[i]) <= (g.t == 1 ? 0 : 1), "inverse", "%d x %d type %d: pixel %zu returns as %g, was %g", g.R, g.C, g.t, i, getv(b->data, g.t, i), g.d[i]);
  same_bytes(re->data, r0.data(), r0.size(), "src", "real part"); same_bytes(im->data, q0.data(), q0.size(), "src", "imaginary part");
  // the type-specific entry points agree
  simple_mat r2 = create_simple_mat(g.R, g.C, 4, 1), i2 = create_simple_mat(g.R, g.C, 4, 1), b2 = create_simple_mat(g.R, g.C, g.t, 1);
  if (g.t == 1) { L(hypercv_dft_uchar(s, r2, i2)); L(hypercv_idft_uchar(re, im, b2)); } else { L(hypercv_dft_ushort(s, r2, i2)); L(hypercv_idft_ushort(re, im, b2)); }
  for (size_t i = 0; i < w.size(); i++) { CHECK(fabs(((float *)r2->data)[i] - w[i].real()) <= e && fabs(((float *)i2->data)[i] - w[i].imag()) <= e, "typed", "frequency %zu of the typed transform", i); CHECK(fabs(getv(b2->data, g.t, i) - g.d[i]) <= (g.t == 1 ? 0 : 1), "typed", "pixel %zu of the typed inverse", i); }
  if (g.t == 1) {
    auto c = ref(g, true);
    memset(b->data, 0xEE, nbytes(b));
    L(hypercv_dft_frespectrum(s, b));
    double n = sqrt((double)g.R * g.C);
    for (size_t i = 0; i < c.size(); i++) { double m = std::min(255.0, std::abs(c[i]) / n); CHECK(fabs(((u8 *)b->data)[i] - m) <= 0.5 + 2 * e / n, "spectrum", "%d x %d: spectrum at %zu %zu is %d, expected %.4f", g.R, g.C, i / g.C, i % g.C, ((u8 *)b->data)[i], m); }
    same_bytes(s->data, src.data(), src.size(), "src", "source");
  }
  hv->state(hv_hash(r, w.size() * 4, hv_hash(q, w.size() * 4)));
  for (auto m : {s, re, im, mg, b, r2, i2, b2}) delete_simple_mat(m);
}
static G gen(int R, int C, int t, int k) {
  G g{R, C, t, std::vector<double>((size_t)R * C)};
  double top = t == 1 ? 255 : 65535;
  for (size_t i = 0; i < g.d.size(); i++) g.d[i] = k == 0 ? (pat(i, R) + (t == 1 ? 0 : pat(i, C + 50) * 256)) : k == 1 ? top : k == 2 ? (i % 2 ? top : 0) : k == 3 ? (i == 0 ? top : 0) : k == 4 ? (i + 1 == g.d.size() ? top : 0) : k == 5 ? 0 : fmod(i * 37.0, top + 1);
  return g;
}
static void every(int R, int C, int t, std::vector<double> A, long lo, long hi) {
  G g{R, C, t, std::vector<double>(R * C)};
  for (long a = lo; a < hi; a++) { long q = a; for (auto &v : g.d) { v = A[q % A.size()]; q /= A.size(); } transform(g); }
}
// a unit impulse at every place excites every frequency
static void impulses(int R, int C, int t) { G g{R, C, t, std::vector<double>(R * C, 0)}; for (auto &v : g.d) { v = t == 1 ? 200 : 60000; transform(g); v = 0; } }
// inverse alone, from arbitrary coefficients
static void inverse(int R, int C, int t, int k) {
  simple_mat re = create_simple_mat(R, C, 4, 1), im = create_simple_mat(R, C, 4, 1), b = create_simple_mat(R, C, t, 1);
  double mag = 0;
  for (int i = 0; i < R * C; i++) { float x = (pat(i, k) - 100) * (t == 1 ? 2.0f : 400.0f) + (i ? 0 : 100.0f * R * C * (t == 1 ? 1 : 200)), y = (pat(i, k + 1) - 128) * (t == 1 ? 1.0f : 300.0f); ((float *)re->data)[i] = x; ((float *)im->data)[i] = y; mag += fabs(x) + fabs(y); }
  L(hypercv_idft(re, im, b));
  double e = mag * 1e-6 / (R * C);
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
    double s = 0;
    for (int x = 0; x < R; x++) for (int y = 0; y < C; y++) { double p = 2 * M_PI * ((double)(i * x % R) / R + (double)(j * y % C) / C); s += ((float *)re->data)[x * C + y] * cos(p) - ((float *)im->data)[x * C + y] * sin(p); }
    s = std::max(0.0, std::min(t == 1 ? 255.0 : 65535.0, s / (R * C)));
    CHECK(fabs(getv(b->data, t, i * C + j) - s) <= 0.501 + e + (t == 1 ? 0 : 0.01), "inverse sum", "%d x %d type %d: line %d column %d is %g, expected %.4f", R, C, t, i, j, getv(b->data, t, i * C + j), s);
  }
  hv->state(hv_hash(b->data, nbytes(b)));
  delete_simple_mat(re); delete_simple_mat(im); delete_simple_mat(b);
}
// the tabulated sizes: products of 2, 3 and 5 up to the largest one with at most 14 factors of 3
static std::vector<long> smooth() { std::vector<long> v; for (long a = 1; a <= 2125764000L; a *= 2) for (long b = a, k = 0; b <= 2125764000L && k < 15; b *= 3, k++) for (long c = b; c <= 2125764000L; c *= 5) v.push_back(c); std::sort(v.begin(), v.end()); return v; }
static void sizes(long lo, long hi, long step) {
  auto v = smooth();
  for (long n = lo; n < hi; n += step) { int r = L(get_optimal_DFT_size((int)n)); long w = n >= v.back() ? -1 : *std::lower_bound(v.begin(), v.end(), n); CHECK(r == w, "size", "optimal size for %ld is %d, expected %ld", n, r, w); }
  hv->state(lo);
}
static void explore(HV &h) {
  int N = h.thorough ? 13 : 9;
  for (int t : {1, 12}) {
    for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int k = 0; k < 7; k++) h.run([&] { transform(gen(R, C, t, k)); }, "%d x %d type %d image %d", R, C, t, k);
    for (int R = 1; R <= 6; R++) for (int C = 1; C <= 6; C++) { h.run([&] { impulses(R, C, t); }, "impulses of %d x %d type %d", R, C, t); for (int k = 0; k < 6; k++) h.run([&] { inverse(R, C, t, k); }, "inverse of %d x %d type %d coefficients %d", R, C, t, k); }
    for (auto &s : {std::pair<int, int>{7, 7}, {1, 41}, {64, 1}, {8, 9}, {10, 16}, {17, 5}, {3, 100}, {130, 2}, {20, 21}, {33, 31}}) for (int k = 0; k < 3; k++) h.run([&] { inverse(s.first, s.second, t, k); }, "inverse of %d x %d type %d coefficients %d", s.first, s.second, t, k);
    std::vector<double> A = t == 1 ? std::vector<double>{0, 100, 255} : std::vector<double>{0, 300, 65535};
    for (int p = 0; p < 8; p++) h.run([&] { every(1, 1, t, A, 0, 3); every(1, 2, t, A, 0, 9); every(2, 1, t, A, 0, 9); every(1, 3, t, A, 0, 27); every(3, 1, t, A, 0, 27); every(2, 2, t, A, 0, 81); every(2, 3, t, A, 729 * p / 8, 729 * (p + 1) / 8); every(3, 2, t, A, 729 * p / 8, 729 * (p + 1) / 8); every(3, 3, t, A, 19683 * p / 8, h.thorough ? 19683 * (p + 1) / 8 : 19683 * p / 8 + 300); }, "every small image type %d, part %d", t, p);
    for (int e : {15, 16, 17, 31, 32, 33, 50, 64, 100, 127, 128, 129}) h.run([&] { transform(gen(1, e, t, 0)); transform(gen(e, 1, t, 0)); transform(gen(2, e, t, 2)); transform(gen(e, 3, t, 0)); }, "edge %d type %d", e, t);
    for (int e : {255, 256, 257, 300, 512, 600, 1024, 1025, 2000}) h.run([&] { transform(gen(1, e, t, 0)); transform(gen(e, 1, t, 6)); }, "line of %d type %d", e, t);
    for (int k = 0; k < 7; k++) h.run([&] { transform(gen(16, 16, t, k)); transform(gen(20, 15, t, k)); transform(gen(32, 24, t, k)); }, "larger images type %d image %d", t, k);
  }
  for (long p = 0; p < 64; p++) h.run([&] { sizes(p * 4096, (p + 1) * 4096, 1); }, "sizes from %ld", p * 4096);
  h.run([&] { for (long v : smooth()) sizes(std::max(0L, v - 2), std::min(2147483647L, v + 3), 1); sizes(2147483640L, 2147483647L, 1); sizes(262144, 2147483647L, 65521); for (int n : {-1, -2, -2147483647 - 1}) { int r = L(get_optimal_DFT_size(n)); CHECK(r == -1, "size", "optimal size for %d is %d", n, r); } }, "around every tabulated size");
  for (int t : {1, 12}) {  // the sums are evaluated directly: larger images take minutes
    h.run([&] { transform(gen(64, 100, t, 0)); }, "64 x 100 type %d", t);
    h.run([&] { transform(gen(127, 66, t, 2)); }, "127 x 66 type %d", t);
    if (h.thorough) { h.run([&] { transform(gen(128, 129, t, 0)); }, "128 x 129 type %d", t); h.run([&] { transform(gen(200, 101, t, 0)); }, "200 x 101 type %d", t); }
  }
}
int main(int c, char **v) { return hv_main(c, v, "C20", explore); }
