// C26: drawing, against the definition of the segment and of the square, for every end point around small images.
#define HV_GUI
#include "imgref.h"
static Img copyof(const Img &g) { return g; }
static void put(Img &g, long i, long j, RGB_data c) {
  if (i < 0 || j < 0 || i >= g.R || j >= g.C) return;
  u8 *p = &g.d[((size_t)i * g.C + j) * g.ch];
  p[0] = c.r;
  if (g.ch == 3) { p[1] = c.g; p[2] = c.b; }
}
// nearest integer to num/den (den > 0); up: the upper one on a tie
static long nearest(long num, long den, bool up) {
  long q = num >= 0 ? num / den : -((-num + den - 1) / den), r = num - q * den;
  return 2 * r > den || (2 * r == den && up) ? q + 1 : q;
}
static Img refline(const Img &g, POINT a, POINT b, RGB_data c, int t, bool upx, bool upy) {
  Img o = copyof(g);
  long dx = (long)b.x - a.x, dy = (long)b.y - a.y, n = std::max(labs(dx), labs(dy));
  for (long s = 0; s <= n; s++) {
    long j = a.x + (n ? nearest(dx * s, n, upx) : 0), i = a.y + (n ? nearest(dy * s, n, upy) : 0);
    for (long k = -(t / 2); k <= t / 2; k++) put(o, i, j + k, c);
  }
  return o;
}
static void line(const Img &g, POINT a, POINT b, RGB_data c, int t, u32 garbage) {
  simple_mat s = matof(g), d = mkimg(g.R, g.C, 1, g.ch, garbage);
  L(draw_line(s, d, a, b, c, t));
  same_img(s, g, "source", "the source image changed");
  expect_dims(d, g.R, g.C, 1, g.ch, "dims");
  // where the segment passes exactly between two pixels either of them will do
  bool ok = false;
  for (int k = 0; k < 4 && !ok; k++) ok = refline(g, a, b, c, t, k & 1, k & 2).d == dump(d);
  if (!ok) {
    Img w = refline(g, a, b, c, t, true, true);
    Bytes o = dump(d);
    size_t i = 0;
    while (o[i] == w.d[i]) i++;
    hv->fail("line", "line (%d,%d)-(%d,%d) thickness %d colour %d,%d,%d on %dx%dx%d: row %zu column %zu channel %zu is %d, expected %d", a.x, a.y, b.x, b.y, t, c.r, c.g, c.b, g.R, g.C, g.ch, i / g.ch / g.C, i / g.ch % g.C, i % g.ch, o[i], w.d[i]);
  }
  hv->state(hstate(d));
  delete_simple_mat(s); delete_simple_mat(d);
}
static void points(const Img &g, const std::vector<POINT> &p, RGB_data c, int size, u32 garbage) {
  simple_mat s = matof(g), d = mkimg(g.R, g.C, 1, g.ch, garbage);
  Img o = g;
  for (const POINT &q : p) for (int i = -(size / 2); i <= size / 2; i++) for (int j = -(size / 2); j <= size / 2; j++) put(o, (long)q.y + i, (long)q.x + j, c);
  // the array exactly as long as the points
  POINT *v = (POINT *)hv_malloc(p.size() * sizeof(POINT) + (p.empty()));
  if (!p.empty()) memcpy((void *)v, p.data(), p.size() * sizeof(POINT));
  L(draw_POINT(s, d, v, (int)p.size(), c, size));
  CHECK(p.empty() || memcmp((void *)v, p.data(), p.size() * sizeof(POINT)) == 0, "source", "the points changed");
  same_img(s, g, "source", "the source image changed");
  same_img(d, o, "points", "image with points");
  hv->state(hstate(d));
  hv_free(v); delete_simple_mat(s); delete_simple_mat(d);
}
static POINT P(int x, int y) { POINT p; p.x = x; p.y = y; return p; }
static RGB_data rgb(int r, int g, int b) { RGB_data c; memset(&c, 0, sizeof c); c.r = r; c.g = g; c.b = b; return c; }
static void explore(HV &h) {
  int N = h.thorough ? 7 : 5, MT = h.thorough ? 6 : 4;
  RGB_data cs[4] = {rgb(201, 102, 53), rgb(0, 0, 0), rgb(255, 254, 253), rgb(7, 200, 200)};
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int ch : {1, 3}) {
    Img g = pattern(R, C, ch, 0);
    for (int t = 0; t <= MT; t++) for (int y = -2; y <= R + 1; y++)
      h.run([&] { for (int x = -2; x <= C + 1; x++) for (int y2 = -2; y2 <= R + 1; y2++) for (int x2 = -2; x2 <= C + 1; x2++) line(g, P(x, y), P(x2, y2), cs[(x + 2 + y2 + 2) & 3], t, x2 + 9); }, "all lines from row %d, thickness %d, %dx%dx%d", y, t, R, C, ch);
    for (int size = 0; size <= (h.thorough ? 9 : 6); size++) for (int y = -3; y <= R + 2; y++)
      h.run([&] { for (int x = -3; x <= C + 2; x++) { points(g, {P(x, y)}, cs[(x + 3) & 3], size, x + 9);
        for (int y2 = -1; y2 <= R; y2++) for (int x2 = -1; x2 <= C; x2++) points(g, {P(x, y), P(x2, y2)}, cs[0], size, 3); } }, "points of size %d from row %d, %dx%dx%d", size, y, R, C, ch);
    h.run([&] {
      points(g, {}, cs[0], 5, 1);
      points(g, {P(0, 0), P(C - 1, R - 1), P(C / 2, R / 2), P(0, 0)}, cs[0], 1, 2);
      std::vector<POINT> all;
      for (int k = 0; k < 300; k++) all.push_back(P(k % (C + 2) - 1, k / (C + 2) % (R + 2) - 1));
      points(g, all, cs[2], 1, 2);
      for (int size : {17, 255, 256, 1000}) points(g, {P(-size / 2, R - 1), P(C + size / 2 + 3, 0)}, cs[0], size, 5);
      points(g, {P(-1000000, 5), P(5, 1000000), P(2147480000, 0), P(0, -2147480000)}, cs[0], 7, 5);
    }, "point sets on %dx%dx%d", R, C, ch);
  }
  // every pixel of an image in one call, in rows and in columns
  for (int S : {11, 16, 33, h.thorough ? 300 : 70}) for (int ch : {1, 3}) h.run([&] {
    Img g = pattern(S, S + 2, ch, 3);
    std::vector<POINT> r, c, e;
    for (int i = 0; i < S; i++) for (int j = 0; j < S + 2; j++) { r.push_back(P(j, i)); if (i % 3 == 0 && j % 4 == 0) e.push_back(P(j, i)); }
    for (int j = 0; j < S + 2; j++) for (int i = 0; i < S; i++) c.push_back(P(j, i));
    points(g, r, cs[0], 1, 4); points(g, c, cs[1], 0, 4); points(g, e, cs[2], 1, 4); points(g, e, cs[3], 2, 4);
    while (r.size() > 1) { r.resize(r.size() * 7 / 8); points(g, r, cs[2], 1, 4); }
  }, "points on all pixels of %d x %d channels %d", S, S + 2, ch);
  // longer segments in every direction
  int M = h.thorough ? 41 : 23;
  for (int ch : {1, 3}) for (int t : {1, 3}) for (int k = 0; k < M; k++) h.run([&] {
    Img g = pattern(M, M, ch, 3);
    for (int e = 0; e < M; e++) { line(g, P(k, 0), P(e, M - 1), cs[0], t, 1); line(g, P(0, k), P(M - 1, e), cs[1], t, 1); line(g, P(e, M - 1), P(k, 0), cs[2], t, 1); line(g, P(M / 2, M / 2), P(k, e), cs[3], t, 1); }
  }, "all segments across %dx%dx%d from %d, thickness %d", M, M, ch, k, t);
  for (int S : {127, 128, 129, 255, 256, 257, 1000, h.thorough ? 4097 : 1025}) for (int ch : {1, 3}) h.run([&] {
    Img g = pattern(S, S / 2 + 3, ch, 3);
    line(g, P(0, 0), P(S / 2 + 2, S - 1), cs[0], 1, 1);
    line(g, P(-S, S / 2), P(3 * S, S / 2 + 7), cs[0], 3, 1);
    line(g, P(S / 3, -70000), P(S / 4, 70000), cs[0], 9, 1);
    line(g, P(-66000, -66000), P(66000, 66001), cs[0], 2, 1);
    line(g, P(S / 2, S - 1), P(0, 1), cs[2], 200, 1);
    line(g, P(-66000, -66000), P(66001, 66000), cs[1], 1, 1); line(g, P(70003, -69000), P(-70001, 69999), cs[1], 1, 1); line(g, P(-69000, 70003), P(69999, -70001), cs[2], 3, 1);
    points(g, {P(1, S - 1), P(S / 2 + 2, 0), P(S / 4, S / 2)}, cs[0], 13, 4);
  }, "large image %d, channels %d", S, ch);
  for (int size : {63, 129, 199, 200, 201, 255, 256, 257, 301, 511, 513}) for (int ch : {1, 3}) h.run([&] { Img g = pattern(600, 577, ch, 3); points(g, {P(288, 300)}, cs[0], size, 4); points(g, {P(100, 100), P(560, 590)}, cs[2], size, 5); line(g, P(288, 5), P(280, 590), cs[3], size, 1); }, "points of size %d, channels %d", size, ch);
  // thin images
  for (int n : {256, 257, 40000, 70000}) for (int ch : {1, 3}) h.run([&] {
    Img w = pattern(1, n, ch, 3), t = pattern(n, 1, ch, 3);
    line(w, P(-5, 0), P(n + 5, 0), cs[0], 1, 1); line(w, P(n - 3, 0), P(n - 1, 0), cs[0], 5, 1); line(t, P(0, n + 2), P(0, -2), cs[0], 3, 1); line(t, P(0, n - 1), P(0, n - 1), cs[0], 0, 1);
    points(w, {P(n - 1, 0), P(0, 0)}, cs[0], 9, 4); points(t, {P(0, n - 1), P(0, 0)}, cs[2], 9, 4);
  }, "images of one row and one column, %d pixels, channels %d", n, ch);
  for (auto &b : BIG) for (int ch : {1, 3}) h.run([&] {
    Img g = pattern(b[0], b[1], ch, 3);
    int R = b[0], C = b[1];
    for (int t : {0, 1, 4}) { line(g, P(0, 0), P(C - 1, R - 1), cs[0], t, 1); line(g, P(C - 1, R / 3), P(0, R / 2), cs[1], t, 1); line(g, P(C / 2, R - 1), P(C / 3, 0), cs[2], t, 1); line(g, P(-7, R - 1), P(C + 9, R - 1), cs[3], t, 1); }
    points(g, {P(C - 1, R - 1), P(0, 0), P(C / 2, R - 2), P(C - 2, 1)}, cs[0], 5, 4);
  }, "drawing on %d x %d channels %d", b[0], b[1], ch);
}
int main(int c, char **v) { return hv_main(c, v, "C26", explore); }
