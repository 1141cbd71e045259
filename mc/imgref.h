// imgref.h - reference definitions for images: border extension and neighbourhood sums.
#ifndef HV_IMGREF_H
#define HV_IMGREF_H
#include "lib.h"
static const char *const BN[5] = {"constant", "replicate", "reflect", "wrap", "reflect101"};
// index into [0,n) that the border rule gives position p, -1 for the constant border
static inline int ext(int p, int n, int rule) {
  if (p >= 0 && p < n) return p;
  if (rule == 0) return -1;
  if (rule == 1) return p < 0 ? 0 : n - 1;
  if (rule == 3) return ((p % n) + n) % n;
  if (rule == 2) { int q = ((p % (2 * n)) + 2 * n) % (2 * n); return q < n ? q : 2 * n - 1 - q; }
  if (n == 1) return 0;
  int per = 2 * (n - 1), q = ((p % per) + per) % per;
  return q < n ? q : per - q;
}
struct Img { int R, C, ch; std::vector<u8> d; int get(int i, int j, int c) const { return d[((size_t)i * C + j) * ch + c]; } int at(int i, int j, int c, int rule, int cval = 0) const { int a = ext(i, R, rule), b = ext(j, C, rule); return a < 0 || b < 0 ? cval : get(a, b, c); } };
static inline Img imgof(simple_mat m) { Img g{m->rows, m->cols, m->channels, dump(m)}; return g; }
static inline simple_mat matof(const Img &g) { simple_mat m = create_simple_mat(g.R, g.C, 1, g.ch); memcpy(m->data, g.d.data(), g.d.size()); return m; }
static inline Img pattern(int R, int C, int ch, int kind) {
  Img g{R, C, ch, std::vector<u8>((size_t)R * C * ch)};
  for (size_t i = 0; i < g.d.size(); i++) { int p = pat(i, kind * 3 + R); g.d[i] = kind == 0 ? p : kind == 1 ? (p & 1) * 255 : kind == 2 ? 200 : kind == 3 ? i % 256 : kind == 4 ? (p % 9 == 0) * 255 : kind == 5 ? 255 : p % 4; }
  return g;
}
static inline void same_img(simple_mat m, const Img &g, const char *key, const char *what) { expect_dims(m, g.R, g.C, 1, g.ch, key); same_bytes(m->data, g.d.data(), g.d.size(), key, what); }
#endif
