// C12: border extension for every shape, rule and combination of widths, directly and as filters see it.
#include "imgref.h"

static const int RULES[5] = {0, 1, 2, 3, 4};
static void border(const Img &g, simple_mat s, int t, int b, int l, int r, int rule, int value, int fill) {
  hv_env.fill = fill;
  simple_mat d = L(hypercv_copy_make_border(s, t, b, l, r, rule, value));
  expect_dims(d, g.R + t + b, g.C + l + r, 1, g.ch, "dims");
  CHECK(d != s && d->data != s->data, "shared", "the result shares memory with its source");
  const u8 *p = (const u8 *)d->data;
  for (int i = 0; i < d->rows; i++) for (int j = 0; j < d->cols; j++) for (int c = 0; c < g.ch; c++, p++) {
    int w = g.at(i - t, j - l, c, rule, value);
    if (*p != w) hv->fail(i >= t && i < t + g.R && j >= l && j < l + g.C ? "inside" : "border", "%s border %d %d %d %d: line %d column %d channel %d is %d, expected %d", BN[rule], t, b, l, r, i, j, c, *p, w);
  }
  hv->state(hv_hash(d->data, nbytes(d), d->rows * 1000 + d->cols));
  delete_simple_mat(d);
}
static void widths(int R, int C, int ch, int rule, int t, int b, int wmax) {
  Img g = pattern(R, C, ch, 0);
  simple_mat s = matof(g);
  for (int l = 0; l <= wmax; l++) for (int r = 0; r <= wmax; r++) border(g, s, t, b, l, r, rule, 33 + t, l & 1 ? 0 : 0xA5);
  same_img(s, g, "src", "source");
  delete_simple_mat(s);
}
static void sides(int R, int C, int ch, int rule, int w) {
  Img g = pattern(R, C, ch, 0);
  simple_mat s = matof(g);
  static const int Q[][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {1, 1, 1, 1}, {1, 0, 1, 0}, {0, 1, 0, 1}};
  for (auto &q : Q) for (int v : {0, 1, 128, 255}) border(g, s, q[0] * w, q[1] * w, q[2] * w, q[3] * w, rule, v, 0xA5);
  same_img(s, g, "src", "source");
  delete_simple_mat(s);
}
// a kernel with one tap reads one neighbour: the border as the filter sees it
static void taps(int R, int C, int ch, int rule, int kr, int kc) {
  Img g = pattern(R, C, ch, 0);
  simple_mat s = matof(g), d = create_simple_mat(R, C, 4, ch);
  std::vector<float> k(kr * kc);
  for (int m = 0; m < kr; m++) for (int n = 0; n < kc; n++) {
    std::fill(k.begin(), k.end(), 0.0f);
    k[m * kc + n] = 1;
    memset(d->data, 0xFF, nbytes(d));
    L(hypercv_filter2D(s, d, k.data(), kr, kc, rule));
    const float *p = (const float *)d->data;
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int c = 0; c < ch; c++, p++) {
      int w = g.at(i + m - kr / 2, j + n - kc / 2, c, rule);
      if (*p != w) hv->fail("tap", "%s border, tap %d %d of %d x %d: line %d column %d channel %d is %g, expected %d", BN[rule], m, n, kr, kc, i, j, c, *p, w);
    }
    hv->state(hv_hash(d->data, nbytes(d)));
  }
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d);
}
// one-tap separable kernels: the border the smoothing filter sees, column rule first then rows
static void gtaps(int R, int C, int ch, int rule, int kw, int kh) {
  Img g = pattern(R, C, ch, 0);
  simple_mat s = matof(g), d = create_simple_mat(R, C, 1, ch), x = create_simple_mat(1, kw, 4, 1), y = create_simple_mat(1, kh, 4, 1);
  for (int m = 0; m < kh; m++) for (int n = 0; n < kw; n++) {
    memset(x->data, 0, 4 * kw); memset(y->data, 0, 4 * kh);
    ((float *)x->data)[n] = 1; ((float *)y->data)[m] = 1;
    memset(d->data, 0xEE, nbytes(d));
    L(hypercv_gaussian_blur_with_kernel(s, d, x, y, rule));
    const u8 *p = (const u8 *)d->data;
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int c = 0; c < ch; c++, p++) {
      int w = g.at(i + m - kh / 2, j + n - kw / 2, c, rule);
      if (*p != w) hv->fail("smooth-tap", "%s border, taps %d %d of %d and %d: line %d column %d channel %d is %d, expected %d", BN[rule], m, n, kh, kw, i, j, c, *p, w);
    }
    hv->state(hv_hash(d->data, nbytes(d)));
  }
  delete_simple_mat(s); delete_simple_mat(d); delete_simple_mat(x); delete_simple_mat(y);
}
// gradient filters at every border pixel
static void gradients(int R, int C, int rule, int kind) {
  Img g = pattern(R, C, 1, kind);
  simple_mat s = matof(g), d = create_simple_mat(R, C, 1, 1);
  static const int GX[3][3] = {{-1, 0, 1}, {-2, 0, 2}, {-1, 0, 1}}, GY[3][3] = {{1, 2, 1}, {0, 0, 0}, {-1, -2, -1}}, LP[3][3] = {{0, 1, 0}, {1, -4, 1}, {0, 1, 0}};
  for (int th : {0, 100, 400}) {
    memset(d->data, 0xEE, nbytes(d));
    L(hypercv_sobel(s, d, th, rule));
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
      int x = 0, y = 0;
      for (int m = 0; m < 3; m++) for (int n = 0; n < 3; n++) { int v = g.at(i + m - 1, j + n - 1, 0, rule); x += GX[m][n] * v; y += GY[m][n] * v; }
      int w = std::max(abs(x), abs(y)) > th ? 255 : 0;
      if (((u8 *)d->data)[i * C + j] != w) hv->fail("sobel", "%s border, line %d column %d: %d, expected %d", BN[rule], i, j, ((u8 *)d->data)[i * C + j], w);
    }
    hv->state(hv_hash(d->data, nbytes(d)));
  }
  L(hypercv_laplacian(s, d, 1, rule));
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
    int x = 0;
    for (int m = 0; m < 3; m++) for (int n = 0; n < 3; n++) x += LP[m][n] * g.at(i + m - 1, j + n - 1, 0, rule);
    int w = std::min(255, std::max(0, x));
    if (((u8 *)d->data)[i * C + j] != w) hv->fail("laplacian", "%s border, line %d column %d: %d, expected %d", BN[rule], i, j, ((u8 *)d->data)[i * C + j], w);
  }
  hv->state(hv_hash(d->data, nbytes(d)));
  delete_simple_mat(s); delete_simple_mat(d);
}
static void explore(HV &h) {
  int N = h.thorough ? 6 : 5, W = h.thorough ? 9 : 6;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int ch : {1, 3}) for (int rule : RULES) for (int t = 0; t <= W; t++) for (int b = 0; b <= W; b++)
    h.run([&] { widths(R, C, ch, rule, t, b, W); }, "%d x %d channels %d %s top %d bottom %d", R, C, ch, BN[rule], t, b);
  for (int R = 1; R <= 9; R++) for (int C = 1; C <= 9; C++) for (int ch : {1, 3}) for (int rule : RULES) for (int w : {7, 10, 13, 16, 17, 31, 32, 40, 100}) h.run([&] { sides(R, C, ch, rule, w); }, "%d x %d channels %d %s width %d", R, C, ch, BN[rule], w);
  for (int e : {15, 16, 17, 31, 64, 127, 128, 255, 256, 257, 1000, 4096, 65535, 65536, 65537}) for (int ch : {1, 3}) for (int rule : RULES) { h.run([&] { sides(e, 2, ch, rule, 3); }, "%d x 2 channels %d %s", e, ch, BN[rule]); h.run([&] { sides(3, e, ch, rule, 5); }, "3 x %d channels %d %s", e, ch, BN[rule]); }
  for (int rule : RULES) h.run([&] { sides(100, 130, 3, rule, 200); }, "wide %s border", BN[rule]);
  for (int R = 1; R <= 6; R++) for (int C = 1; C <= 6; C++) for (int ch : {1, 3}) for (int rule : RULES) {
    int M = h.thorough ? 9 : 6;
    for (int kr = 1; kr <= M; kr++) for (int kc = 1; kc <= M; kc++) h.run([&] { taps(R, C, ch, rule, kr, kc); }, "taps of %d x %d on %d x %d channels %d %s", kr, kc, R, C, ch, BN[rule]);
    for (int kr = 1; kr <= 9; kr += 2) for (int kc = 1; kc <= 9; kc += 2) h.run([&] { gtaps(R, C, ch, rule, kr, kc); }, "smoothing taps of %d and %d on %d x %d channels %d %s", kr, kc, R, C, ch, BN[rule]);
  }
  for (int ch : {1, 3}) for (int rule : RULES) for (int kk : {13, 21, 31}) for (int e : {3, 8, 17}) { h.run([&] { taps(4, e, ch, rule, 2, kk); }, "taps of 2 x %d on 4 x %d channels %d %s", kk, e, ch, BN[rule]); h.run([&] { taps(e, 3, ch, rule, kk, 2); }, "taps of %d x 2 on %d x 3 channels %d %s", kk, e, ch, BN[rule]); }
  for (int R = 1; R <= 12; R++) for (int C = 1; C <= 12; C++) for (int rule : RULES) for (int kind = 0; kind < 7; kind++) h.run([&] { gradients(R, C, rule, kind); }, "gradients of %d x %d image %d %s", R, C, kind, BN[rule]);
  for (auto &b : BIG) for (int rule : RULES) for (int ch : {1, 3}) { h.run([&] { sides(b[0], b[1], ch, rule, 4); }, "%d x %d channels %d %s", b[0], b[1], ch, BN[rule]); h.run([&] { taps(b[0], b[1], ch, rule, 3, 2); gtaps(b[0], b[1], ch, rule, 1, 3); gtaps(b[0], b[1], ch, rule, 3, 1); if (ch == 1) gradients(b[0], b[1], rule, 0); }, "taps on %d x %d channels %d %s", b[0], b[1], ch, BN[rule]); }
}
int main(int c, char **v) { return hv_main(c, v, "C12", explore); }
