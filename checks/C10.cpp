// C10: threshold rules for every level, threshold and maximum; Otsu against exact variances.
#include "lib.h"

typedef void (*Mode)(simple_mat, simple_mat, int, int);
static const Mode MODE[5] = {hypercv_threshold_binary, hypercv_threshold_binary_inv, hypercv_threshold_trunc, hypercv_threshold_tozero, hypercv_threshold_tozero_inv};
static int rule(int mode, int v, int t, int mx) {
  bool over = v > t;
  switch (mode) { case 0: return over ? mx : 0; case 1: return over ? 0 : mx; case 2: return over ? t : v; case 3: return over ? v : 0; case 4: return over ? 0 : v; }
  return -1;
}
static void one(simple_mat s, const Bytes &k, int mode, int t, int mx, bool direct, int fill, const char *key) {
  simple_mat d = create_simple_mat(s->rows, s->cols, 1, 1);
  memset(d->data, fill, nbytes(d));
  if (direct) L(MODE[mode](s, d, t, mx)); else L(hypercv_threshold(s, d, t, mx, mode));
  expect_dims(d, s->rows, s->cols, 1, 1, "dst-dims");
  const u8 *p = (const u8 *)d->data;
  for (size_t i = 0; i < k.size(); i++) if (p[i] != rule(mode, k[i], t, mx)) hv->fail(key, "mode %d threshold %d maximum %d: pixel %zu of level %d became %d, expected %d", mode, t, mx, i, k[i], p[i], rule(mode, k[i], t, mx));
  same_bytes(s->data, k.data(), k.size(), "src", "source");
  hv->state(hv_hash(d->data, k.size()));
  delete_simple_mat(d);
}
static void levels(int mode, int t, const std::vector<int> &mx) {
  simple_mat s = create_simple_mat(4, 64, 1, 1);
  for (int i = 0; i < 256; i++) ((u8 *)s->data)[i] = (i * 37) & 255;
  Bytes k = dump(s);
  for (int m : mx) for (int q = 0; q < 2; q++) one(s, k, mode, t, m, q, t ^ m, "rule");
  delete_simple_mat(s);
}
static void shape(int R, int C, int mode, int t) {
  simple_mat s = mkimg(R, C, 1, 1, R * 7 + C);
  Bytes k = dump(s);
  for (int q = 0; q < 2; q++) one(s, k, mode, t, 200, q, 0x3C, "shape");
  delete_simple_mat(s);
}
static void otsu(int R, int C, const Bytes &k) {
  simple_mat s = create_simple_mat(R, C, 1, 1);
  memcpy(s->data, k.data(), k.size());
  long hist[256] = {0};
  for (u8 v : k) hist[v]++;
  int t = L(otsuThreshold(s));
  long N = (long)k.size(), all = 0;
  for (int i = 0; i < 256; i++) all += i * hist[i];
  long double best = -1; long double var[256]; long n0 = 0, s0 = 0;
  for (int i = 0; i < 256; i++) {
    n0 += hist[i]; s0 += i * hist[i];
    long n1 = N - n0, s1 = all - s0;
    if (!n0 || !n1) { var[i] = -1; continue; }
    long double d = (long double)s0 * n1 - (long double)s1 * n0;
    var[i] = d * d / ((long double)n0 * n1);
    if (var[i] > best) best = var[i];
  }
  if (best > 0) {
    CHECK(t >= 0 && t <= 255, "otsu-range", "level %d", t);
    CHECK(var[t] >= best * (1 - 1e-12L), "otsu-max", "level %d has variance %Lg, the best is %Lg", t, var[t], best);
    CHECK(hist[t] > 0, "otsu-lowest", "level %d is not the lowest of its split", t);
  }
  for (int q = 0; q < 2; q++) {
    simple_mat d = create_simple_mat(R, C, 1, 1);
    memset(d->data, q ? 0x77 : 255, k.size());
    if (q) L(hypercv_threshold(s, d, 99, 7, 8)); else L(hypercv_threshold_otsu(s, d));
    const u8 *p = (const u8 *)d->data;
    for (size_t i = 0; i < k.size(); i++) if (p[i] != (k[i] <= t ? 0 : 255)) hv->fail("otsu-map", "pixel %zu of level %d became %d with Otsu level %d", i, k[i], p[i], t);
    delete_simple_mat(d);
  }
  same_bytes(s->data, k.data(), k.size(), "otsu-src", "source");
  hv->state(hv_mix(t, hv_hash(k.data(), k.size())));
  delete_simple_mat(s);
}
// colour images: the level of a pixel is its luminance; next to white it is the level Otsu finds
static void colour(int R, int C, const std::vector<int> &c) {
  simple_mat s = create_simple_mat(R, C, 1, 3);
  u8 *p = (u8 *)s->data;
  for (int i = 0; i < R * C; i++) for (int k = 0; k < 3; k++) p[3 * i + k] = c[i] >> 8 * k;
  Bytes b = dump(s);
  std::vector<int> lv(R * C);
  int lo = 1000; bool exact = false;
  for (int i = 0; i < R * C; i++) { int m = 299 * p[3 * i] + 587 * p[3 * i + 1] + 114 * p[3 * i + 2]; lv[i] = m / 1000; if (c[i] != 0xFFFFFF) { lo = std::min(lo, lv[i]); if (m % 1000 == 0) exact = true; } }
  int t = L(otsuThreshold(s));
  same_bytes(s->data, b.data(), b.size(), "colour-src", "colour image");
  // whole luminances may fall just below in binary
  CHECK(t == lo || (exact && t == lo - 1), "otsu-colour", "level %d of a %d x %d image of luminance %d and white (first colour %06X)", t, R, C, lo, c[0]);
  hv->state(hv_mix(t, c[0]));
  delete_simple_mat(s);
}
static void explore(HV &h) {
  std::vector<int> all, few = {0, 1, 2, 3, 15, 16, 64, 99, 127, 128, 129, 200, 253, 254, 255};
  for (int i = 0; i < 256; i++) all.push_back(i);
  for (int mode = 0; mode < 5; mode++) for (int t = 0; t < 256; t++) h.run([&] { levels(mode, t, all); }, "mode %d threshold %d", mode, t);
  for (int mode : {0, 1, 3, 4}) for (int t : {-1000, -2, -1, 256, 257, 1000}) h.run([&] { levels(mode, t, few); }, "mode %d threshold %d", mode, t);
  int N = h.thorough ? 40 : 16;
  for (int mode = 0; mode < 5; mode++) {
    for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) h.run([&] { shape(R, C, mode, 10 * R + C); }, "mode %d on %d x %d", mode, R, C);
    for (int e : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 100003}) { h.run([&] { shape(e, 2, mode, 100); }, "mode %d on %d x 2", mode, e); h.run([&] { shape(3, e, mode, 100); }, "mode %d on 3 x %d", mode, e); }
    h.run([&] { shape(4099, 4111, mode, 100); }, "mode %d on a large image", mode);
  }
  // Otsu: every small image over an alphabet of levels
  static const int A[] = {0, 1, 2, 100, 128, 254, 255};
  int na = 7, mx = h.thorough ? 7 : 6;
  for (int n = 1; n <= mx; n++) {
    int m = 1; for (int i = 0; i < n - 1; i++) m *= na;
    for (int c = 0; c < m; c++) h.run([&] { for (int f = 0; f < na; f++) { Bytes k; k.push_back(A[f]); for (int i = 1, x = c; i < n; i++, x /= na) k.push_back(A[x % na]); otsu(n % 2 ? 1 : 2, n % 2 ? n : n / 2, k); } }, "Otsu of %d pixels, image %d", n, c);
  }
  const int W = 0xFFFFFF;
  for (int a = 0; a < 256; a++) h.run([&] {
    for (int g = 0; g < 256; g++) for (int b = 0; b < 256; b++) {
      int c = a | g << 8 | b << 16, m = 299 * a + 587 * g + 114 * b, r = m % 1000;
      if (m / 1000 >= 254) continue;
      if (!(h.thorough ? r < 4 || r > 995 || (g * 256 + b) % 5 == 0 : r == 999 || r == 1 || (g * 256 + b + a) % 97 == 0)) continue;
      colour(1, 2, {c, W});
    }
  }, "Otsu of colours of red %d", a);
  for (int a = 0; a < 256; a += 5) h.run([&] { for (int k = 0; k < 3; k++) { int c = a << 8 * k; colour(2, 1, {W, c}); colour(2, 2, {W, c, c, W}); colour(1, 3, {W, W, c}); colour(3, 1, {c, W, c}); colour(2, 3, {c, c, c, W, W, c}); colour(3, 2, {W, c, W, c, W, c}); } }, "Otsu of single channel levels %d", a);
  h.run([&] { Bytes k((size_t)1 << 24 | 1, 10); k.back() = 200; otsu(1, k.size(), k); std::fill(k.begin(), k.end(), 200); k[0] = 10; otsu(k.size(), 1, k); }, "Otsu of one odd pixel among 2^24");
  // two populations: every pair of levels
  for (int a = 0; a < 256; a++) h.run([&] { for (int b = a; b < 256; b++) for (int q = 0; q < 4; q++) { static const int CN[4][2] = {{1, 1}, {3, 1}, {1, 4}, {7, 5}}; Bytes k(CN[q][0], a); k.insert(k.end(), CN[q][1], b); otsu(1, k.size(), k); } }, "Otsu of populations at %d and every other", a);
  int st = h.thorough ? 5 : 15;
  for (int a = 0; a < 256; a += st) for (int b = a + st; b < 256; b += st) h.run([&] { for (int c = b + st; c < 256; c += st) for (int q = 0; q < 6; q++) { static const int CN[6][3] = {{1, 1, 1}, {9, 1, 1}, {1, 9, 1}, {1, 1, 9}, {5, 7, 3}, {2, 3, 11}}; Bytes k(CN[q][0], a); k.insert(k.end(), CN[q][1], b); k.insert(k.end(), CN[q][2], c); otsu(k.size(), 1, k); } }, "Otsu of populations at %d, %d and a third", a, b);
  for (int R : {2, 5, 16, 31, 64, 100, 256, 300}) for (int C : {3, 7, 33, 128, 257}) for (int md = 0; md < 6; md++) h.run([&] { Bytes k((size_t)R * C); for (size_t i = 0; i < k.size(); i++) { int p = pat(i, md); k[i] = md == 0 ? p : md == 1 ? p / 3 + (p % 7 == 0) * 150 : md == 2 ? i * 255 / k.size() : md == 3 ? (p < 20 ? 0 : 255) : md == 4 ? p % 3 * 90 : 200 + p % 50; } otsu(R, C, k); }, "Otsu of %d x %d distribution %d", R, C, md);
  h.run([&] { Bytes k((size_t)4099 * 4111); for (size_t i = 0; i < k.size(); i++) k[i] = i % 5 ? 200 + pat(i) % 40 : pat(i) % 60; otsu(4099, 4111, k); }, "Otsu of a large image");
}
int main(int c, char **v) { return hv_main(c, v, "C10", explore); }
