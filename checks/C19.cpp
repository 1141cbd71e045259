// C19: colour conversions apply their formula to every pixel; every one of the 2^24 colours is converted.
#include "imgref.h"

static void gray_of(const Img &g, simple_mat s, int method) {
  simple_mat r = L(sm_rgb2gray(s, method));
  expect_dims(r, g.R, g.C, 1, 1, "gray dims");
  const u8 *p = (const u8 *)r->data, *q = g.d.data();
  for (size_t i = 0; i < (size_t)g.R * g.C; i++, q += 3) {
    bool ok;
    if (method == 1) ok = p[i] == std::max(q[0], std::max(q[1], q[2]));
    else if (method == 2) { double w = q[0] * 0.299 + q[1] * 0.587 + q[2] * 0.114; ok = p[i] >= (int)floor(w - 1e-4) && p[i] <= (int)floor(w + 1e-4); }
    else ok = p[i] == (2 * (q[0] + q[1] + q[2]) + 3) / 6;
    if (!ok) hv->fail("gray", "method %d gives %d for %d %d %d (pixel %zu of %d x %d)", method, p[i], q[0], q[1], q[2], i, g.R, g.C);
  }
  hv->state(hv_hash(p, (size_t)g.R * g.C, method));
  CHECK(r->data != s->data, "shared", "result shares its input");
  delete_simple_mat(r);
}
static void colour(const Img &g) {
  simple_mat s = matof(g);
  for (int m : {0, 1, 2}) gray_of(g, s, m);
  simple_mat d = create_simple_mat(g.R, g.C, 1, 3);
  memset(d->data, 0xEE, nbytes(d));
  L(sm_bgr2rgb(s, d));
  const u8 *p = (const u8 *)d->data;
  for (size_t i = 0; i < g.d.size(); i += 3) CHECK(p[i] == g.d[i + 2] && p[i + 1] == g.d[i + 1] && p[i + 2] == g.d[i], "bgr", "pixel %zu of %d x %d is %d %d %d for %d %d %d", i / 3, g.R, g.C, p[i], p[i + 1], p[i + 2], g.d[i], g.d[i + 1], g.d[i + 2]);
  simple_mat e = create_simple_mat(g.R, g.C, 1, 3);
  L(sm_bgr2rgb(d, e));
  same_img(e, g, "bgr twice", "exchanged twice");
  hv->state(hv_hash(p, g.d.size()));
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d); delete_simple_mat(e);
}
static void gray(const Img &g, bool binary) {
  simple_mat s = matof(g), r = binary ? L(sm_binary2rgb(s)) : L(sm_gray2rgb(s));
  expect_dims(r, g.R, g.C, 1, 3, "rgb dims");
  const u8 *p = (const u8 *)r->data;
  for (size_t i = 0; i < g.d.size(); i++) for (int c = 0; c < 3; c++) CHECK(p[i * 3 + c] == (binary ? g.d[i] * 255 : g.d[i]), binary ? "binary" : "gray2rgb", "channel %d of pixel %zu of %d x %d is %d for %d", c, i, g.R, g.C, p[i * 3 + c], g.d[i]);
  hv->state(hv_hash(p, g.d.size() * 3));
  if (!binary) { Img b{g.R, g.C, 3, dump(r)}; for (int m : {0, 1, 2}) { simple_mat q = L(sm_rgb2gray(r, m)); same_bytes(q->data, g.d.data(), g.d.size(), "round trip", "gray to colour and back"); delete_simple_mat(q); } }
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(r);
}
static void explore(HV &h) {
  for (int r = 0; r < 256; r++) h.run([&] { Img g{256, 256, 3, std::vector<u8>(3 * 65536)}; for (int i = 0; i < 65536; i++) { g.d[3 * i] = r; g.d[3 * i + 1] = i >> 8; g.d[3 * i + 2] = i; } colour(g); }, "every colour with first channel %d", r);
  h.run([&] { for (int v = 0; v < 256; v++) { Img g{1, 1, 1, {(u8)v}}; gray(g, false); if (v < 2) gray(g, true); } }, "every gray level");
  int N = h.thorough ? 40 : 18;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) h.run([&] { for (int k = 0; k < 7; k++) { colour(pattern(R, C, 3, k)); Img g = pattern(R, C, 1, k); gray(g, false); for (auto &x : g.d) x &= 1; gray(g, true); } }, "%d x %d", R, C);
  for (int R = 1; R <= 4; R++) for (int C = 1; C <= 4; C++) h.run([&] { for (int b = 0; b < 1 << R * C; b++) { Img g{R, C, 1, std::vector<u8>(R * C)}; for (int i = 0; i < R * C; i++) g.d[i] = b >> i & 1; gray(g, true); } }, "every binary image of %d x %d", R, C);
  for (int e : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 32767, 32768, 65535, 65536, 65537}) for (int k : {0, 3, 5}) h.run([&] { colour(pattern(e, 2, 3, k)); colour(pattern(1, e, 3, k)); Img g = pattern(e, 3, 1, k), f = pattern(2, e, 1, k); gray(g, false); gray(f, false); for (auto &x : g.d) x &= 1; for (auto &x : f.d) x &= 1; gray(g, true); gray(f, true); }, "edge %d image %d", e, k);
  h.run([&] { colour(pattern(2500, 2700, 3, 0)); gray(pattern(2500, 2700, 1, 0), false); }, "large image");
  // other method numbers average, as documented
  h.run([&] { Img g = pattern(9, 7, 3, 0); simple_mat s = matof(g); for (int m : {-1, 3, 4, 100}) { simple_mat a = L(sm_rgb2gray(s, m)), b = L(sm_rgb2gray(s, 0)); same_bytes(a->data, b->data, 63, "method", "unlisted method"); delete_simple_mat(a); delete_simple_mat(b); } delete_simple_mat(s); }, "unlisted methods");
}
int main(int c, char **v) { return hv_main(c, v, "C19", explore); }
