// C18: matrix routines satisfy their algebraic laws on exhaustive small matrices and wide families of larger ones.
#include "lib.h"
typedef std::vector<double> Mat;

template <class T> struct Ops { void (*mul)(T *, T *, T *, int, int, int); void (*trans)(T *, T *, int, int); void (*corr)(T *, T *, T *, int, int, int); const char *name; std::vector<double> A; };
static Ops<char> oc = {MulMatrix_char, TransMatrix_char, correlation_matrix_char, "char", {-128, -3, 0, 1, 7, 127}};
static Ops<unsigned char> ouc = {MulMatrix_uchar, TransMatrix_uchar, correlation_matrix_uchar, "uchar", {0, 1, 7, 127, 128, 255}};
static Ops<short> os_ = {MulMatrix_short, TransMatrix_short, correlation_matrix_short, "short", {-32768, -5, 0, 1, 300, 32767}};
static Ops<unsigned short> ous = {MulMatrix_ushort, TransMatrix_ushort, correlation_matrix_ushort, "ushort", {0, 1, 9, 300, 32768, 46340}};
static Ops<int> oi = {MulMatrix_int, TransMatrix_int, correlation_matrix_int, "int", {-20000, -7, 0, 1, 12, 20001}};
static Ops<unsigned int> oui = {MulMatrix_uint, TransMatrix_uint, correlation_matrix_uint, "uint", {0, 1, 13, 65536, 2147483648.0, 4294967295.0}};
static Ops<float> of = {MulMatrix_float, TransMatrix_float, correlation_matrix_float, "float", {-1e6, -0.5, 0, 1, 0.375, 3e5}};
static Ops<double> od = {MulMatrix_double, TransMatrix_double, NULL, "double", {-1e150, -0.1, 0, 1, 1.0 / 3, 1e150}};

template <class T> static T filler(const Ops<T> &o, size_t i, int k) { return k < 0 ? (T)o.A[pat(i, -k) % 6] : std::is_floating_point<T>::value ? (T)(pat(i, k) * 0.37 - 40) : (T)(pat(i, k) % 23); }
template <class T> static void product(const Ops<T> &o, int m, int k, int n, const std::vector<T> &x, const std::vector<T> &y) {
  auto x1 = x, y1 = y;
  std::vector<T> z((size_t)m * n), c(z.size());
  memset(z.data(), 0x5A, z.size() * sizeof(T)); memset(c.data(), 0x5A, c.size() * sizeof(T));
  L(o.mul(x1.data(), y1.data(), z.data(), m, k, n));
  if (o.corr) L(o.corr(c.data(), x1.data(), y1.data(), m, k, n));
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    T g = z[i * n + j];
    if (std::is_floating_point<T>::value) {
      long double s = 0, mag = 0;
      for (int q = 0; q < k; q++) { long double p = (long double)x[i * k + q] * y[q * n + j]; s += p; mag += fabsl(p); }
      long double e = (sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L) * (2 + k) * mag;
      CHECK(fabsl(g - s) <= e, "product", "%s %d x %d x %d: element %d %d is %.17g, expected %.17Lg", o.name, m, k, n, i, j, (double)g, s);
      if (o.corr) CHECK(fabsl(c[i * n + j] - s / k) <= e / k + 1e-7L * fabsl(s / k), "cross product", "%s %d x %d x %d: element %d %d is %.9g, expected %.9Lg", o.name, m, k, n, i, j, (double)c[i * n + j], s / k);
    } else {
      u64 s = 0;
      for (int q = 0; q < k; q++) s += (u64)(long long)x[i * k + q] * (u64)(long long)y[q * n + j];
      T w = (T)s;
      CHECK(g == w, "product", "%s %d x %d x %d: element %d %d is %.0f, expected %.0f", o.name, m, k, n, i, j, (double)g, (double)w);
      if (o.corr) { T d = (T)((long long)w / k); CHECK(c[i * n + j] == d, "cross product", "%s %d x %d x %d: element %d %d is %.0f, expected %.0f / %d", o.name, m, k, n, i, j, (double)c[i * n + j], (double)w, k); }
    }
  }
  CHECK(!memcmp(x.data(), x1.data(), x.size() * sizeof(T)) && !memcmp(y.data(), y1.data(), y.size() * sizeof(T)), "input", "%s: an operand changed", o.name);
  hv->state(hv_hash(z.data(), z.size() * sizeof(T)));
}
template <class T> static void transpose(const Ops<T> &o, int m, int n, int k) {
  std::vector<T> x((size_t)m * n), z(x.size());
  for (size_t i = 0; i < x.size(); i++) x[i] = k ? (T)(i + 1) : filler(o, i, -3);
  auto x0 = x;
  memset(z.data(), 0x5A, z.size() * sizeof(T));
  L(o.trans(x.data(), z.data(), m, n));
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) CHECK(!memcmp(&z[(size_t)j * m + i], &x0[(size_t)i * n + j], sizeof(T)), "transpose", "%s %d x %d: element %d %d", o.name, m, n, i, j);
  CHECK(!memcmp(x.data(), x0.data(), x.size() * sizeof(T)), "input", "%s: transposed matrix changed", o.name);
  hv->state(hv_hash(z.data(), z.size() * sizeof(T), m));
}
template <class T> static void shapes(const Ops<T> &o, int m, int k, int n) {
  std::vector<T> x((size_t)m * k), y((size_t)k * n);
  for (int v : {-1, 1, -2, 2}) { for (size_t i = 0; i < x.size(); i++) x[i] = filler(o, i, v); for (size_t i = 0; i < y.size(); i++) y[i] = filler(o, i + 99, v); if (std::is_same<T, int>::value && v < 0) { for (auto &q : x) q = (T)((long)q % 1000); for (auto &q : y) q = (T)((long)q % 1000); } product(o, m, k, n, x, y); }
  // one unit element each: where does every element go
  if (m * k * n <= 64) for (int a = 0; a < m * k; a++) for (int b = 0; b < k * n; b++) { std::fill(x.begin(), x.end(), 0); std::fill(y.begin(), y.end(), 0); x[a] = 3; y[b] = 5; product(o, m, k, n, x, y); }
}
template <class T> static void every(const Ops<T> &o, int m, int k, int n, int lo, int parts, bool big) {
  std::vector<T> x(m * k), y(k * n);
  int e = m * k + k * n, base = big ? 6 : 4;
  long tot = 1;
  for (int i = 0; i < e; i++) tot *= base;
  for (long a = tot * lo / parts; a < tot * (lo + 1) / parts; a++) { long q = a; for (auto &v : x) { v = (T)o.A[q % base]; q /= base; } for (auto &v : y) { v = (T)o.A[q % base]; q /= base; } product(o, m, k, n, x, y); }
}
// ---------- factorisations: double references
static double det(Mat a, int n) { double d = 1; for (int i = 0; i < n; i++) { int p = i; for (int r = i; r < n; r++) if (fabs(a[r * n + i]) > fabs(a[p * n + i])) p = r; if (a[p * n + i] == 0) return 0; if (p != i) { for (int c = 0; c < n; c++) std::swap(a[p * n + c], a[i * n + c]); d = -d; } d *= a[i * n + i]; for (int r = i + 1; r < n; r++) { double f = a[r * n + i] / a[i * n + i]; for (int c = i; c < n; c++) a[r * n + c] -= f * a[i * n + c]; } } return d; }
static bool inverse(Mat a, Mat &b, int n) {
  b.assign(n * n, 0);
  for (int i = 0; i < n; i++) b[i * n + i] = 1;
  for (int i = 0; i < n; i++) {
    int p = i;
    for (int r = i; r < n; r++) if (fabs(a[r * n + i]) > fabs(a[p * n + i])) p = r;
    if (a[p * n + i] == 0) return false;
    for (int c = 0; c < n; c++) { std::swap(a[p * n + c], a[i * n + c]); std::swap(b[p * n + c], b[i * n + c]); }
    double f = a[i * n + i];
    for (int c = 0; c < n; c++) { a[i * n + c] /= f; b[i * n + c] /= f; }
    for (int r = 0; r < n; r++) if (r != i) { f = a[r * n + i]; for (int c = 0; c < n; c++) { a[r * n + c] -= f * a[i * n + c]; b[r * n + c] -= f * b[i * n + c]; } }
  }
  return true;
}
static double norm1(const Mat &a, int n) { double m = 0; for (int j = 0; j < n; j++) { double s = 0; for (int i = 0; i < n; i++) s += fabs(a[i * n + j]); m = std::max(m, s); } return m; }
static double cond(const Mat &a, int n) { Mat b; if (!inverse(a, b, n)) return 1e300; return norm1(a, n) * norm1(b, n); }
static std::vector<float> fl(const Mat &a) { return std::vector<float>(a.begin(), a.end()); }
static Mat db(const std::vector<float> &a) { return Mat(a.begin(), a.end()); }

static int qr(const Mat &a0, int n) {
  auto a = fl(a0);
  Mat A = db(a);
  double k = cond(A, n), s = norm1(A, n);
  if (!(k < 200)) return 0;
  std::vector<float> q(n * n), r(n * n), a1 = a;
  memset(q.data(), 0xFF, 4 * q.size()); memset(r.data(), 0xFF, 4 * r.size());
  L(matrix_QR_float(a.data(), q.data(), r.data(), n));
  CHECK(a == a1, "input", "the factorised matrix changed");
  double tol = 2e-6 * n * k * k;
  if (tol > 0.3) tol = 0.3;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    double o = 0, p = 0;
    for (int t = 0; t < n; t++) { o += (double)q[t * n + i] * q[t * n + j]; p += (double)q[i * n + t] * r[t * n + j]; }
    CHECK(fabs(o - (i == j)) <= tol, "orthonormal", "columns %d and %d of Q (%d x %d) have product %.9g", i, j, n, n, o);
    CHECK(fabs(p - A[i * n + j]) <= 3e-6 * n * s, "Q times R", "element %d %d of QR (%d x %d) is %.9g, expected %.9g", i, j, n, n, p, A[i * n + j]);
    if (i > j) CHECK(r[i * n + j] == 0, "triangular", "R (%d x %d) has %.9g at %d %d", n, n, r[i * n + j], i, j);
  }
  hv->state(hv_hash(q.data(), 4 * q.size()));
  return 1;
}
static int inv(const Mat &a0, int n) {
  auto a = fl(a0);
  Mat A = db(a), B;
  double k = cond(A, n);
  if (!(k < 3000) || !inverse(A, B, n)) return 0;
  std::vector<float> r(n * n);
  memset(r.data(), 0xFF, 4 * r.size());
  L(invert_matrix_float(r.data(), a.data(), n));
  double s = norm1(B, n);
  for (int i = 0; i < n * n; i++) CHECK(fabs(r[i] - B[i]) <= 4e-6 * n * k * s, "inverse", "element %d %d of the inverse (%d x %d, condition %.3g) is %.9g, expected %.9g", i / n, i % n, n, n, k, r[i], B[i]);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double p = 0; for (int t = 0; t < n; t++) p += (double)r[i * n + t] * A[t * n + j]; CHECK(fabs(p - (i == j)) <= 4e-6 * n * k + 1e-6, "identity", "inverse times matrix (%d x %d) has %.9g at %d %d", n, n, p, i, j); }
  hv->state(hv_hash(r.data(), 4 * r.size()));
  return 1;
}
// Jacobi eigenvalues of a symmetric matrix
static std::vector<double> eig(Mat a, int n) {
  for (int sweep = 0; sweep < 100; sweep++) {
    double off = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) off += a[i * n + j] * a[i * n + j];
    if (off < 1e-300) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (a[p * n + q] == 0) continue;
      double th = (a[q * n + q] - a[p * n + p]) / (2 * a[p * n + q]), t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)), c = 1 / sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double x = a[k * n + p], y = a[k * n + q]; a[k * n + p] = c * x - s * y; a[k * n + q] = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = a[p * n + k], y = a[q * n + k]; a[p * n + k] = c * x - s * y; a[q * n + k] = s * x + c * y; }
    }
  }
  std::vector<double> e(n);
  for (int i = 0; i < n; i++) e[i] = a[i * n + i];
  std::sort(e.begin(), e.end(), std::greater<double>());
  return e;
}
static int eigen(const Mat &a0, int n) {
  auto a = fl(a0);
  Mat A = db(a);
  auto e = eig(A, n);
  double s = 0, gap = 1e300;
  for (double v : e) s = std::max(s, fabs(v));
  for (int i = 1; i < n; i++) gap = std::min(gap, e[i - 1] - e[i]);
  if (n > 1 && !(gap > (n > 12 ? 0.6 / n : 0.05) * s)) return 0;
  if (s == 0) s = 1;
  std::vector<float> ev(e.begin(), e.end()), v(n * n), a1 = a, ev1 = ev;
  memset(v.data(), 0xFF, 4 * v.size());
  L(cal_eigen_vector_float(a.data(), v.data(), ev.data(), n, n));
  CHECK(a == a1 && ev == ev1, "input", "the matrix or its eigenvalues changed");
  for (int c = 0; c < n; c++) {
    double nn = 0;
    for (int i = 0; i < n; i++) { double p = 0; for (int t = 0; t < n; t++) p += A[i * n + t] * v[t * n + c]; nn += (double)v[i * n + c] * v[i * n + c]; CHECK(fabs(p - e[c] * v[i * n + c]) <= 1e-4 * n * s, "eigenvector", "vector %d of %d (eigenvalue %.9g): component %d maps to %.9g, expected %.9g", c, n, e[c], i, p, e[c] * v[i * n + c]); }
    CHECK(fabs(nn - 1) <= 1e-5, "unit", "vector %d of %d has squared norm %.9g", c, n, nn);
  }
  hv->state(hv_hash(ev.data(), 4 * n));
  return 1;
}
// the eigenvalue iteration: repeated factorisation and product in exchanged order
static void iteration(const Mat &a0, int n) {
  auto a = fl(a0);
  auto e = eig(db(a), n);
  double s = std::max(fabs(e[0]), fabs(e[n - 1]));
  std::sort(e.begin(), e.end(), [](double x, double y) { return fabs(x) > fabs(y); });
  for (int i = 1; i < n; i++) if (!(fabs(e[i]) < 0.8 * fabs(e[i - 1]))) return;
  if (!(fabs(e[n - 1]) > 0.02 * s)) return;
  std::vector<float> q(n * n), r(n * n);
  for (int i = 0; i < 120; i++) { L(matrix_QR_float(a.data(), q.data(), r.data(), n)); L(MulMatrix_float(r.data(), q.data(), a.data(), n, n, n)); }
  // decoupled blocks keep their place, so the diagonal is the spectrum up to its order
  std::vector<double> g(n);
  for (int i = 0; i < n; i++) g[i] = a[i * n + i];
  std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end());
  for (int i = 0; i < n; i++) CHECK(fabs(g[i] - e[i]) <= 2e-4 * s * n, "eigenvalue", "value %d of %d is %.9g, expected %.9g", i, n, g[i], e[i]);
  hv->state(hv_hash(a.data(), 4 * n));
}
static const std::vector<double> M2 = {-1e4, -3, -1, -1e-7, 0, 1e-6, 0.5, 1, 2, 1e5};
static void every_square(int n, const std::vector<double> &A, long lo, long hi, double scale) {
  Mat a(n * n);
  for (long x = lo; x < hi; x++) { long q = x; for (auto &v : a) { v = A[q % A.size()] * scale; q /= A.size(); } qr(a, n); inv(a, n); }
}
static void every_symmetric(int n, const std::vector<double> &A, long lo, long hi) {
  Mat a(n * n);
  for (long x = lo; x < hi; x++) { long q = x; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { a[i * n + j] = a[j * n + i] = A[q % A.size()]; q /= A.size(); } eigen(a, n); iteration(a, n); }
}
// well conditioned family: random-like orthogonal times a chosen spectrum, built from plane rotations
static Mat rotmix(int n, int k, const std::vector<double> &d, bool sym) {
  Mat a(n * n, 0);
  for (int i = 0; i < n; i++) a[i * n + i] = d[i];
  for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
    double t = 0.01 + pat(p * n + q, k) * 0.024, c = cos(t), s = sin(t);
    for (int i = 0; i < n; i++) { double x = a[i * n + p], y = a[i * n + q]; a[i * n + p] = c * x - s * y; a[i * n + q] = s * x + c * y; }
    if (!sym) { t = pat(p * n + q, k + 1) * 0.024; c = cos(t); s = sin(t); }
    for (int i = 0; i < n; i++) { double x = a[p * n + i], y = a[q * n + i]; a[p * n + i] = c * x - s * y; a[q * n + i] = s * x + c * y; }
  }
  return a;
}
static void family(int n, int k) {
  std::vector<double> d(n), g(n);
  for (int i = 0; i < n; i++) { d[i] = 1 + (i * 7 + k) % n; g[i] = (k & 1 ? -1 : 1) * pow(0.7, i) * 50; }
  for (double s : {1.0, 1e-6, 1e7}) { auto e = d; for (auto &x : e) x *= s; Mat a = rotmix(n, k, e, false); qr(a, n); inv(a, n); }
  // rows in an order that needs exchanges
  Mat a = rotmix(n, k, d, false), b(n * n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b[((i * 5 + k) % n) * n + j] += (i == j ? 1.0 : 0) * (1 + i);
  inv(b, n);
  for (int i = 0; i < n && n > 1; i++) a[i * n + i] = i % 2 ? 0 : 1e-7;
  inv(a, n);
  for (int i = 0; i < n; i++) g[i] = 1 + (i * 7 + k) % n / (double)n;
  for (double s : {1.0, 1e-3, 1e-8, 3e7}) { auto e = g; for (auto &x : e) x *= s; Mat z = rotmix(n, k + 1, e, false); qr(z, n); inv(z, n); }
  for (int i = 0; i < n; i++) g[i] = (k & 1 ? -1 : 1) * pow(0.7, i) * 50;
  if (n <= 130) { // evenly spaced: well separated relative to the largest
    for (int i = 0; i < n; i++) d[i] = (n - i) - (k % 3) * n / 2.0;
    eigen(rotmix(n, k, d, true), n);
    Mat z(n * n, 0);
    for (int i = 0; i < n; i++) z[i * n + i] = 1 + (i * 7 + k) % n;
    eigen(z, n);
  }
  if (n <= 10) iteration(rotmix(n, k, g, true), n);
}
static void rows(int m, int n) {
  for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) if (a != b) {
    std::vector<float> x(m * n), w;
    for (int i = 0; i < m * n; i++) x[i] = i + 0.5f;
    w = x;
    for (int j = 0; j < n; j++) std::swap(w[a * n + j], w[b * n + j]);
    L(swap_rows_float(x.data(), m, n, a, b));
    CHECK(x == w, "swap", "rows %d and %d of %d x %d", a, b, m, n);
    hv->state(hv_hash(x.data(), 4 * x.size()));
  }
}
static void explore(HV &h) {
  int N = h.thorough ? 7 : 5;
  auto types = [&](auto &o) {
    for (int m = 1; m <= N; m++) for (int k = 1; k <= N; k++) for (int n = 1; n <= N; n++) h.run([&] { shapes(o, m, k, n); }, "%s product %d x %d x %d", o.name, m, k, n);
    for (int p = 0; p < 4; p++) { h.run([&] { every(o, 1, 2, 1, p, 4, true); every(o, 1, 2, 2, p, 4, true); every(o, 2, 1, 2, p, 4, true); every(o, 2, 2, 1, p, 4, true); every(o, 1, 3, 1, p, 4, true); every(o, 1, 1, 1, p, 4, true); every(o, 2, 2, 2, p, 4, h.thorough); }, "every small %s product, part %d", o.name, p); }
    for (int m = 1; m <= 12; m++) for (int n = 1; n <= 12; n++) h.run([&] { transpose(o, m, n, 0); transpose(o, m, n, 1); }, "%s transpose %d x %d", o.name, m, n);
    for (int e : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 32767, 32768, 65536, 65537}) h.run([&] { transpose(o, e, 3, 1); transpose(o, 2, e, 1); shapes(o, 2, e, 2); shapes(o, e, 2, 1); shapes(o, 1, 2, e); }, "%s edge %d", o.name, e);
  };
  types(oc); types(ouc); types(os_); types(ous); types(oi); types(oui); types(of); types(od);
  { long n = 1; for (int i = 0; i < 4; i++) n *= M2.size(); for (int p = 0; p < 8; p++) h.run([&] { every_square(2, M2, n * p / 8, n * (p + 1) / 8, 1); every_square(1, M2, 0, M2.size(), 1); }, "every 2 x 2 matrix, part %d", p); }
  { std::vector<double> A = h.thorough ? std::vector<double>{-1, 0, 1e-6, 1, 2.5} : std::vector<double>{-1, 0, 1, 2.5}; long n = 1; for (int i = 0; i < 9; i++) n *= A.size(); for (int p = 0; p < 64; p++) h.run([&] { every_square(3, A, n * p / 64, n * (p + 1) / 64, 1); }, "every 3 x 3 matrix, part %d", p); }
  for (int p = 0; p < 16; p++) h.run([&] { every_square(3, {1e-7, 1, -2}, 19683L * p / 16, 19683L * (p + 1) / 16, 1); every_square(3, {0, 1, -2}, 19683L * p / 16, 19683L * (p + 1) / 16, p % 2 ? 1e9 : 1e-9); every_square(4, {0, 1}, 65536L * p / 16, 65536L * (p + 1) / 16, 1); }, "every small matrix, part %d", p);
  for (int p = 0; p < 16; p++) h.run([&] { every_symmetric(1, {-2, 0, 1, 5}, 0, 4); every_symmetric(2, {-1e4, -3, -1, 0, 1e-5, 0.5, 1, 2, 7, 1e5}, 1000L * p / 16, 1000L * (p + 1) / 16); every_symmetric(3, {-2, -1, 0, 0.5, 3}, 15625L * p / 16, 15625L * (p + 1) / 16); every_symmetric(4, {-1, 0, 2}, 59049L * p / 16, 59049L * (p + 1) / 16); }, "every symmetric matrix, part %d", p);
  for (int n = 1; n <= (h.thorough ? 40 : 24); n++) for (int k = 0; k < 12; k++) h.run([&] { family(n, k); }, "matrices of %d, family %d", n, k);
  for (int n : {32, 41, 48, 64, 65, 100, h.thorough ? 257 : 129}) h.run([&] { family(n, 3); }, "matrices of %d", n);
  for (int m = 2; m <= 8; m++) for (int n = 1; n <= 8; n++) h.run([&] { rows(m, n); }, "exchange rows of %d x %d", m, n);
  for (int m : {1, 2, 3, 7, 16, 33, 100, 256}) h.run([&] {
    std::vector<float> x(m * m);
    memset(x.data(), 0xFF, 4 * x.size());
    L(set_identity_matrix_float(x.data(), m));
    for (int i = 0; i < m * m; i++) CHECK(x[i] == (i / m == i % m), "identity", "identity of %d has %g at %d %d", m, x[i], i / m, i % m);
    double s = 0;
    for (int i = 0; i < m * m; i++) { x[i] = pat(i, m) * 0.5f - 30; s += (double)x[i] * x[i]; }
    float g = L(matrix_norm_float(x.data(), m * m));
    CHECK(near_(g, sqrt(s), 1e-4, 0), "norm", "norm of %d values is %.9g, expected %.9g", m * m, g, sqrt(s));
    hv->state(hv_hash(x.data(), 4 * x.size()));
  }, "identity and norm of %d", m);
}
int main(int c, char **v) { return hv_main(c, v, "C18", explore); }
