// C33: image arithmetic and numeric helpers against their formulas.
#include "imgref.h"
struct Rect { int r, c; };
// every byte of the destination: sum where both images have a pixel, what it held before elsewhere
template <class T> static void add(Rect a, Rect b, Rect d, int ch, int salt, int inplace) {
  int t = sizeof(T) == 1 ? 1 : 4;
  simple_mat A = mkimg(a.r, a.c, t, ch, salt), B = inplace == 3 ? A : mkimg(b.r, b.c, t, ch, salt + 1), D = inplace == 1 || inplace == 3 ? A : inplace == 2 ? B : mkimg(d.r, d.c, t, ch, salt + 2);
  if (t == 4) {
    for (size_t i = 0; i < (size_t)a.r * a.c * ch; i++) ((float *)A->data)[i] = (pat(i, salt) - 128) * 1.75f;
    if (B != A) for (size_t i = 0; i < (size_t)b.r * b.c * ch; i++) ((float *)B->data)[i] = (pat(i, salt + 1) - 100) * 1e3f;
    if (!inplace) for (size_t i = 0; i < (size_t)d.r * d.c * ch; i++) ((float *)D->data)[i] = pat(i, salt + 2);
  }
  if (inplace) d = inplace == 2 ? b : a;
  Bytes a0 = dump(A), b0 = dump(B), w = dump(D);
  int R = std::min(a.r, b.r), C = std::min(a.c, b.c);
  T *x = (T *)a0.data(), *y = (T *)b0.data(), *z = (T *)w.data();
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int k = 0; k < ch; k++) z[((size_t)i * d.c + j) * ch + k] = (T)(x[((size_t)i * a.c + j) * ch + k] + y[((size_t)i * b.c + j) * ch + k]);
  if (t == 1) L(simple_mat_addition_uchar(A, B, D)); else L(simple_mat_addition_float(A, B, D));
  expect_dims(D, d.r, d.c, t, ch, "dims");
  same_bytes(D->data, w.data(), w.size(), "sum", "sum of two images");
  if (D != A) same_bytes(A->data, a0.data(), a0.size(), "source", "first image");
  if (D != B) same_bytes(B->data, b0.data(), b0.size(), "source", "second image");
  hv->state(hstate(D));
  delete_simple_mat(A); if (B != A) delete_simple_mat(B); if (!inplace) delete_simple_mat(D);
  CHECK(hv_env.live == 0, "leak", "%ld blocks are still allocated", hv_env.live);
}
template <class T> static void adds(HV &h, const char *name) {
  int N = h.thorough ? 4 : 3;
  for (int ch : {1, 3, 2, 4}) for (int a = 1; a <= N; a++) for (int b = 1; b <= N; b++) h.run([&] {
    for (int c = 1; c <= N; c++) for (int d = 1; d <= N; d++) for (int er = 0; er < 3; er++) for (int ec = 0; ec < 3; ec++) { add<T>({a, b}, {c, d}, {std::min(a, c) + er, std::min(b, d) + ec}, ch, a * 7 + d, 0); }
    for (int c = 1; c <= N; c++) for (int d = 1; d <= N; d++) for (int in : {1, 2}) add<T>({a, b}, {c, d}, {a, b}, ch, 5, in);
    add<T>({a, b}, {a, b}, {a, b}, ch, 6, 3);
  }, "%s sums, first image %d x %d, channels %d", name, a, b, ch);
  for (int S : {31, 33, 127, 128, 129, 255, 256, 257, 1025}) for (int ch : {1, 3}) h.run([&] { add<T>({S, 5}, {5, S}, {S, S}, ch, S, 0); add<T>({S, S}, {S, S}, {S, S}, ch, S, 0); for (int in : {1, 2}) add<T>({S, S}, {S - 1, S + 1}, {S, S}, ch, S, in); add<T>({S, S}, {S, S}, {S, S}, ch, S, 3); add<T>({1, S * 300}, {2, S * 299}, {3, S * 301}, ch, S, 0); }, "%s sums about %d, channels %d", name, S, ch);
}
static void logs(const std::vector<float> &v, int R, int C, int ch) {
  simple_mat a = create_simple_mat(R, C, 4, ch), d = mkimg(R, C, 4, ch, 4);
  memcpy(a->data, v.data(), v.size() * 4);
  Bytes a0 = dump(a);
  L(simple_mat_log(a, d));
  expect_dims(d, R, C, 4, ch, "dims");
  same_bytes(a->data, a0.data(), a0.size(), "source", "source image");
  for (size_t i = 0; i < v.size(); i++) {
    float g = ((float *)d->data)[i]; double w = log((double)v[i]);
    CHECK(std::isnan(w) ? std::isnan(g) : g == (float)w || near_(g, w, 3e-7, 1e-9), "log", "log of %.9g (element %zu of %zu, channels %d) is %.9g, expected %.9g", v[i], i, v.size(), ch, g, w);
  }
  hv->state(hstate(d));
  delete_simple_mat(a); delete_simple_mat(d);
}
// exact mean in integers or long double
template <class T, class F> static void mean1(const std::vector<T> &v, F f, const char *name) {
  T *p = (T *)hv_malloc(v.size() * sizeof(T));
  memcpy(p, v.data(), v.size() * sizeof(T));
  double g = L(f(p, (int)v.size()));
  CHECK(memcmp(p, v.data(), v.size() * sizeof(T)) == 0, "source", "%s changed its array", name);
  hv_free(p);
  long double s = 0, m = 0;
  for (T x : v) { s += x; m += fabsl((long double)x); }
  double w = (double)(s / v.size());
  CHECK(fabs(g - w) <= (double)(m / v.size()) * 1e-12 + fabs(w) * 1.2e-7, "mean", "%s of %zu values is %.12g, expected %.12g", name, v.size(), g, w);
  hv->state(hv_hash(&g, 8));
}
template <class T, class F> static void means(HV &h, const char *name, F f, const std::vector<T> &al) {
  int na = (int)al.size(), D = h.thorough ? 6 : 5;
  for (int n = 1; n <= D; n++) h.run([&] { u64 t = 1; for (int i = 0; i < n; i++) t *= na; std::vector<T> v(n); for (u64 c = 0; c < t; c++) { u64 q = c; for (T &x : v) { x = al[q % na]; q /= na; } mean1(v, f, name); } }, "%s: all arrays of %d over %d values", name, n, na);
  for (int n : {31, 32, 33, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 1000000}) h.run([&] { for (int k = 0; k < na; k++) { std::vector<T> v(n, al[k]); mean1(v, f, name); v[n - 1] = al[(k + 1) % na]; mean1(v, f, name); for (int i = 0; i < n; i++) v[i] = al[(i * 7 + k) % na]; mean1(v, f, name); } }, "%s of %d values", name, n);
  h.run([&] { std::vector<T> v(20000003, al[1]); mean1(v, f, name); for (size_t i = 0; i < v.size(); i++) v[i] = al[i % na]; mean1(v, f, name); }, "%s of more than 2^24 values", name);
}
static void sorts(std::vector<float> v) {
  float *p = (float *)hv_malloc(v.size() * 4 + 4);
  memcpy(p, v.data(), v.size() * 4);
  float guard = 1e30f; memcpy(p + v.size(), &guard, 4);
  L(sort_array_down_float(p, (int)v.size()));
  std::sort(v.begin(), v.end(), [](float a, float b) { return a > b; });
  for (size_t i = 0; i < v.size(); i++) CHECK(p[i] == v[i], "sort", "element %zu of %zu sorted is %g, expected %g", i, v.size(), p[i], v[i]);
  CHECK(p[v.size()] == guard, "sort", "sorting touches the element behind the array");
  hv->state(hv_hash(p, v.size() * 4));
  hv_free(p);
}
static void explore(HV &h) {
  // every pair of bytes
  for (int a = 0; a < 256; a += 8) for (int ch : {1, 3}) h.run([&] {
    for (int k = 0; k < 8; k++) {
      simple_mat A = create_simple_mat(2, 384, 1, ch), B = create_simple_mat(2, 384, 1, ch), D = mkimg(2, 384, 1, ch, 1);
      size_t n = 768u * ch;
      for (size_t i = 0; i < n; i++) { ((u8 *)A->data)[i] = (u8)(a + k); ((u8 *)B->data)[i] = (u8)i; }
      L(simple_mat_addition_uchar(A, B, D));
      for (size_t i = 0; i < n; i++) CHECK(((u8 *)D->data)[i] == (u8)(a + k + i), "sum", "%d + %d is %d", a + k, (int)(u8)i, ((u8 *)D->data)[i]);
      delete_simple_mat(A); delete_simple_mat(B); delete_simple_mat(D);
    }
  }, "all byte sums from %d, channels %d", a, ch);
  adds<u8>(h, "8-bit"); adds<float>(h, "float");
  std::vector<float> la = {1, 0, 2.718281828f, 0.5f, 1e-38f, 3e38f, 255, 1e-45f, 10, 100, -1, INFINITY, 0.999999f, 1.000001f, 1024, 65536};
  for (int ch : {1, 2, 3, 4, 7}) for (int R = 1; R <= 5; R++) for (int C = 1; C <= 5; C++) h.run([&] { for (int s = 0; s < 16; s++) { std::vector<float> v((size_t)R * C * ch); for (size_t i = 0; i < v.size(); i++) v[i] = la[(i * 5 + s) % la.size()]; logs(v, R, C, ch); } }, "logarithm %d x %d x %d", R, C, ch);
  for (int e = 0; e < 255; e++) h.run([&] { std::vector<float> v(512); for (int i = 0; i < 512; i++) { u32 b = (u32)e << 23 | (u32)i << 14; memcpy(&v[i], &b, 4); } logs(v, 16, 32, 1); }, "logarithm of numbers of exponent %d", e);
  for (int S : {127, 257, 1025}) h.run([&] { std::vector<float> v((size_t)S * (S + 1) * 3); for (size_t i = 0; i < v.size(); i++) v[i] = 0.01f + i * 0.37f; logs(v, S, S + 1, 3); }, "logarithm of a large image %d", S);
  means<double>(h, "mean_double", mean_double, {1, -2.5, 0, 1e10, 3.25, -1e-3, 7});
  means<u32>(h, "mean_uint", mean_uint, {1, 0, 4294967295u, 2147483648u, 3000000000u, 7});
  means<short>(h, "mean_short", mean_short, {1, -1, 32767, -32768, 0, 255, -256});
  means<u16>(h, "mean_ushort", mean_ushort, {1, 0, 65535, 32768, 255, 256});
  means<float>(h, "mean_float", mean_float, {1, -1, 0.25f, 1e6f, -3.5f, 1e-3f, 255});
  means<u8>(h, "mean_uchar", mean_uchar, {1, 0, 255, 128, 127, 3});
  means<char>(h, "mean_char", mean_char, {1, -1, 127, -128, 0, 50});
  means<int>(h, "mean_int", mean_int, {1, -1, 2147483647, INT_MIN, 0, 65536});
  for (int v = -128; v < 128; v++) h.run([&] { mean1(std::vector<char>(5, (char)v), mean_char, "mean_char"); mean1(std::vector<u8>(5, (u8)v), mean_uchar, "mean_uchar"); }, "means of %d", v);
  const float sa[6] = {0, 1, -1, 2.5f, 1e20f, -1e-20f};
  int D = h.thorough ? 8 : 7;
  for (int n = 0; n <= D; n++) for (int f = 0; f < (n ? 6 : 1); f++) h.run([&] { u64 t = 1; for (int i = 1; i < n; i++) t *= 6; std::vector<float> v(n); for (u64 c = 0; c < t; c++) { u64 q = c; for (int i = 1; i < n; i++) { v[i] = sa[q % 6]; q /= 6; } if (n) v[0] = sa[f]; sorts(v); } }, "sorting all arrays of %d that start with %g", n, sa[f]);
  int P = h.thorough ? 10 : 9;
  for (int n = 1; n <= P; n++) h.run([&] { std::vector<float> v; for (int i = 0; i < n; i++) v.push_back(i * 1.5f); do sorts(v); while (std::next_permutation(v.begin(), v.end())); }, "sorting all permutations of %d", n);
  for (int n : {31, 32, 33, 100, 127, 128, 129, 255, 256, 257, 1000, 2048, 5000}) h.run([&] { std::vector<float> v(n); for (int k = 0; k < 4; k++) { for (int i = 0; i < n; i++) v[i] = k == 0 ? i : k == 1 ? n - i : k == 2 ? pat(i) : i % 2; sorts(v); } }, "sorting %d values", n);
  h.run([&] { u64 f = 1; for (int n = 0; n <= 20; n++) { if (n) f *= n; long g = L(hypercv_factorial(n)); CHECK((u64)g == f, "factorial", "%d! is %ld, expected %llu", n, g, f); } for (int n = 20; n >= 0; n--) { u64 q = 1; for (int i = 2; i <= n; i++) q *= i; CHECK((u64)L(hypercv_factorial(n)) == q, "factorial", "%d! differs on the second call", n); } for (int n : {-1, -2, -7, INT_MIN}) CHECK(L(hypercv_factorial(n)) == -1, "factorial", "the factorial of %d is not reported as -1", n); }, "factorials 0 to 20");
}
int main(int c, char **v) { return hv_main(c, v, "C33", explore); }
