// C15: flips, pyramids and rotation move pixels by their geometry.
#include "imgref.h"
#include <cmath>
#include <map>

static void flips(int R, int C, int t, int ch) {
  simple_mat s = mkimg(R, C, t, ch, R * 7 + C), d = create_simple_mat(R, C, t, ch), e = create_simple_mat(R, C, t, ch);
  auto src = dump(s);
  int p = tsize(t) * ch;
  for (int code : {1, 0, -1, 2, -2, 77}) for (int op = 0; op < (code == 1 || code == 0 ? 2 : 1); op++) {
    memset(d->data, 0xEE, nbytes(d));
    if (op) { if (code == 1) L(simple_mat_flip_horizontal(s, d)); else L(simple_mat_flip_vertical(s, d)); } else L(simple_mat_flip(s, d, code));
    bool fh = code != 0, fv = code == 0 || code == -1;
    for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) if (memcmp((u8 *)d->data + ((size_t)i * C + j) * p, &src[((size_t)(fv ? R - 1 - i : i) * C + (fh ? C - 1 - j : j)) * p], p)) hv->fail("flip", "code %d: line %d column %d of %d x %d type %d channels %d", code, i, j, R, C, t, ch);
    hv->state(hv_hash(d->data, nbytes(d), code));
    memset(e->data, 0xEE, nbytes(e));
    L(simple_mat_flip(d, e, code));
    same_bytes(e->data, src.data(), src.size(), "twice", "flipped twice");
  }
  same_bytes(s->data, src.data(), src.size(), "src", "source");
  delete_simple_mat(s); delete_simple_mat(d); delete_simple_mat(e);
}
static const double K5[5] = {.0625, .25, .375, .25, .0625};
static double sm(const Img &g, int i, int j, int c, int rule, double gain) {
  double s = 0;
  for (int m = 0; m < 5; m++) for (int n = 0; n < 5; n++) s += gain * gain * K5[m] * K5[n] * g.at(i + m - 2, j + n - 2, c, rule);
  return s;
}
static void down(const Img &g) {
  simple_mat s = matof(g), d = create_simple_mat((g.R + 1) / 2, (g.C + 1) / 2, 1, g.ch);
  memset(d->data, 0xEE, nbytes(d));
  L(hypercv_pyramid_down(s, d));
  const u8 *p = (const u8 *)d->data;
  for (int i = 0; i < d->rows; i++) for (int j = 0; j < d->cols; j++) for (int c = 0; c < g.ch; c++, p++) { double w = sm(g, 2 * i, 2 * j, c, 1, 1); if (fabs(*p - w) > .502) hv->fail("down", "line %d column %d channel %d is %d, expected %.4f", i, j, c, *p, w); }
  hv->state(hv_hash(d->data, nbytes(d)));
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d);
}
static void up(const Img &g) {
  simple_mat s = matof(g), d = create_simple_mat(g.R * 2, g.C * 2, 1, g.ch);
  memset(d->data, 0xEE, nbytes(d));
  L(hypercv_pyramid_up(s, d));
  Img z{2 * g.R, 2 * g.C, g.ch, std::vector<u8>((size_t)4 * g.R * g.C * g.ch, 0)};
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) for (int c = 0; c < g.ch; c++) z.d[((size_t)2 * i * z.C + 2 * j) * g.ch + c] = g.get(i, j, c);
  bool flat = true;
  for (size_t i = g.ch; i < g.d.size(); i++) if (g.d[i] != g.d[i - g.ch]) flat = false;
  const u8 *p = (const u8 *)d->data;
  for (int i = 0; i < z.R; i++) for (int j = 0; j < z.C; j++) for (int c = 0; c < g.ch; c++, p++) {
    double w = sm(z, i, j, c, 4, 2);
    if (fabs(*p - w) > .502) hv->fail("up", "line %d column %d channel %d is %d, expected %.4f", i, j, c, *p, w);
    if (flat && *p != g.d[c]) hv->fail("constant", "a constant image of %d is %d at line %d column %d", g.d[c], *p, i, j);
  }
  hv->state(hv_hash(d->data, nbytes(d)));
  same_img(s, g, "src", "source");
  delete_simple_mat(s); delete_simple_mat(d);
}
static void all_images(int R, int C, std::vector<int> A, long lo, long hi) {
  Img g{R, C, 1, std::vector<u8>(R * C)};
  for (long a = lo; a < hi; a++) { long q = a; for (auto &x : g.d) { x = A[q % A.size()]; q /= A.size(); } down(g); up(g); }
}
// cube whose every sample identifies its place; never zero in any pixel
static hyper_mat marked(int S, int Ln, int B, int t, int il) {
  hyper_mat m = mkcube(S, Ln, B, t, ILV[il], 0);
  int z = tsize(t);
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int k = 0; k < B; k++) { u8 *p = (u8 *)m->data + at(il, S, Ln, B, i, j, k) * z; int id = i * S + j + 1; for (int q = 0; q < z; q++) p[q] = q == 0 ? id : q == 1 ? (id >> 8) + k * 16 + 1 : 17 * k + q; if (z == 1) p[0] = k ? id / 255 + k : id % 255 + 1; }
  return m;
}
static void rotate(int S, int Ln, int B, int t, int il, double angle) {
  hyper_mat m = marked(S, Ln, B, t, il), ref = L(hyper_mat_copy(m));
  int z = tsize(t);
  auto w0 = std::vector<float>(m->wavelength, m->wavelength + B);
  hyper_mat d = L(hyper_mat_rotate(m, angle));
  expect_dims(m, S, Ln, B, t, "bip", "input");
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int k = 0; k < B; k++) CHECK(!memcmp((u8 *)m->data + at(2, S, Ln, B, i, j, k) * z, (u8 *)ref->data + at(il, S, Ln, B, i, j, k) * z, z), "input", "the input changed at %d %d %d", i, j, k);
  double th = angle * M_PI / 180, c = cos(th), s = sin(th), h = Ln / 2.0, w = S / 2.0, fw = 2 * (fabs(w * c) + fabs(h * s)), fh = 2 * (fabs(w * s) + fabs(h * c));
  int W = d->samples, H = d->lines;
  CHECK(W >= ceil(fw - 2e-3) && W <= ceil(fw) && H >= ceil(fh - 2e-3) && H <= ceil(fh), "box", "%d x %d rotated by %g fits in %g x %g, not %d x %d", Ln, S, angle, fh, fw, H, W);
  CHECK(d->bands == B && d->data_type == t && ilis(d, "bip"), "dims", "bands %d type %d layout %.3s", d->bands, d->data_type, d->interleave);
  expect_wave(d, w0.data(), B, "wave");
  CHECK(d != m && d->data != m->data, "shared", "result shares its input");
  std::map<std::pair<int,int>, std::pair<std::vector<int>, bool>> cand;
  const double E = 1e-6;
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) {
    double x = (i + .5 - h) * c + (j + .5 - w) * s + H / 2.0, y = (j + .5 - w) * c - (i + .5 - h) * s + W / 2.0;
    int x0 = floor(x - E), x1 = floor(x + E), y0 = floor(y - E), y1 = floor(y + E);
    bool sure = x0 == x1 && y0 == y1;
    for (int a = x0; a <= x1; a++) for (int b = y0; b <= y1; b++) { auto &q = cand[{a, b}]; q.first.push_back(i * S + j); if (sure) q.second = true; }
  }
  int px = B * z;
  std::vector<u8> zero(px, 0);
  for (int a = 0; a < H; a++) for (int b = 0; b < W; b++) {
    const u8 *p = (u8 *)d->data + ((size_t)a * W + b) * px;
    auto it = cand.find({a, b});
    bool ok = false;
    if (it == cand.end() || !it->second.second) ok = !memcmp(p, zero.data(), px);
    if (it != cand.end()) for (int q : it->second.first) ok = ok || !memcmp(p, (u8 *)m->data + (size_t)q * px, px);
    if (!ok) hv->fail("rotate", "%d lines %d samples rotated by %.9g: line %d column %d holds %s", Ln, S, angle, a, b, it == cand.end() ? "a value but no sample maps there" : "none of the samples that map there");
  }
  // right angles are exact permutations
  double r = fmod(fmod(angle, 360) + 360, 360);
  if (r == 0 || r == 90 || r == 180 || r == 270) {
    bool sw = r == 90 || r == 270;
    CHECK(W == (sw ? Ln : S) && H == (sw ? S : Ln), "right-angle box", "%g gives %d x %d", angle, H, W);
    for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) {
      int a = r == 0 ? i : r == 180 ? Ln - 1 - i : r == 90 ? j : S - 1 - j, b = r == 0 ? j : r == 180 ? S - 1 - j : r == 90 ? Ln - 1 - i : i;
      CHECK(!memcmp((u8 *)d->data + ((size_t)a * W + b) * px, (u8 *)m->data + ((size_t)i * S + j) * px, px), "right-angle", "%g: sample of line %d column %d is not at %d %d", angle, i, j, a, b);
    }
  }
  hv->state(hv_hash(d->data, (size_t)W * H * px, (u64)W * 1000 + H));
  delete_hyper_mat(m); delete_hyper_mat(ref); delete_hyper_mat(d);
}
// offsets of more than 2^31 bytes: the planes of a pixel are long, its first and last bytes carry a mark
static void huge(int kind, int S, int Ln, int B) {
  hv_huge(); hv_env.fill = 0;
  size_t px = (size_t)B * 8;
  auto mark = [&](u8 *d, size_t p, u8 v) { d[p * px] = v; d[p * px + px / 2] = v ^ 0x40; d[p * px + px - 1] = v ^ 0x80; };
  auto has = [&](const void *x, size_t p, u8 v) { const u8 *d = (const u8 *)x; return d[p * px] == v && d[p * px + px / 2] == (v ^ 0x40) && d[p * px + px - 1] == (v ^ 0x80); };
  if (kind < 3) {
    hyper_mat m = create_hyper_mat(S, Ln, B, 5, "bip");
    for (int i = 0; i < S * Ln; i++) mark((u8 *)m->data, i, i + 1);
    hyper_mat d = L(hyper_mat_rotate(m, kind * 90.0));
    int W = kind == 1 ? Ln : S, H = kind == 1 ? S : Ln;
    CHECK(d->samples == W && d->lines == H && d->bands == B, "huge-dims", "%d x %d x %d", d->lines, d->samples, d->bands);
    bool cw = true, ccw = true;
    for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) {
      size_t a = kind == 0 ? i * S + j : kind == 2 ? (Ln - 1 - i) * S + S - 1 - j : j * W + Ln - 1 - i, b = kind == 1 ? (S - 1 - j) * W + i : a;
      cw = cw && has(d->data, a, i * S + j + 1); ccw = ccw && has(d->data, b, i * S + j + 1);
    }
    CHECK(cw || ccw, "huge-rotate", "a cube of %d x %d x %d doubles rotated by %d", Ln, S, B, kind * 90);
    delete_hyper_mat(m); delete_hyper_mat(d);
  } else {
    simple_mat m = create_simple_mat(Ln, S, 5, B), d = create_simple_mat(Ln, S, 5, B);
    for (int i = 0; i < S * Ln; i++) mark((u8 *)m->data, i, i + 1);
    int code = kind - 3;
    L(simple_mat_flip(m, d, code));
    for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) CHECK(has(d->data, (code == 1 ? i : Ln - 1 - i) * S + (code == 0 ? j : S - 1 - j), i * S + j + 1), "huge-flip", "flip %d of a mat of %d x %d with %d channels of doubles: line %d column %d", code, Ln, S, B, i, j);
    delete_simple_mat(m); delete_simple_mat(d);
  }
  hv->state(kind);
}
static void explore(HV &h) {
  for (int k = 0; k < 3; k++) if (k || h.thorough) h.run([&] { huge(k, 3, 3, (1 << 25) + 5); }, "rotating a cube of 2.4 GB by %d", k * 90);
  if (h.thorough) for (int k = 0; k < 2; k++) h.run([&] { huge(3 + k, 3, 3, (1 << 25) + 5); }, "flip %d of a mat of 2.4 GB", k);

  int N = h.thorough ? 12 : 8;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int t : ALLT) for (int ch : {1, 2, 3, 4, 5, 8}) h.run([&] { flips(R, C, t, ch); }, "flip %d x %d type %d channels %d", R, C, t, ch);
  for (int e : {31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1024, 32768, 65536, 65537}) for (int t : {1, 2, 4, 5}) for (int ch : {1, 2, 3, 4}) h.run([&] { flips(e, 2, t, ch); flips(3, e, t, ch); }, "flip edge %d type %d channels %d", e, t, ch);
  int M = h.thorough ? 16 : 10;
  for (int R = 2; R <= M; R++) for (int C = 2; C <= M; C++) for (int ch : {1, 3}) for (int k = 0; k < 7; k++) h.run([&] { down(pattern(R, C, ch, k)); up(pattern(R, C, ch, k)); }, "pyramids of %d x %d channels %d image %d", R, C, ch, k);
  for (int e : {31, 32, 33, 64, 127, 128, 129, 256, 257, 1000, 1025}) for (int ch : {1, 3}) for (int k : {0, 1, 5}) h.run([&] { down(pattern(e, 3, ch, k)); up(pattern(e, 2, ch, k)); down(pattern(2, e, ch, k)); up(pattern(3, e, ch, k)); }, "pyramids edge %d channels %d image %d", e, ch, k);
  for (int v = 0; v < 256; v += 8) h.run([&] { for (int q = v; q < v + 8; q++) for (int ch : {1, 3}) { Img g{3, 4, ch, std::vector<u8>(12 * ch, (u8)q)}; down(g); up(g); } }, "pyramids of constants from %d", v);
  for (int p = 0; p < 16; p++) { h.run([&] { all_images(2, 3, {0, 100, 255}, 729L * p / 16, 729L * (p + 1) / 16); all_images(3, 3, {0, 255}, 512 * p / 16, 512 * (p + 1) / 16); all_images(4, 3, {0, 201}, 4096 * p / 16, 4096 * (p + 1) / 16); }, "pyramids of every small image %d", p); }
  std::vector<double> A;
  for (int a = -720; a <= 720; a += h.thorough ? 1 : 5) A.push_back(a);
  for (double a : {0.01, 0.5, 1.0, 2.5, 26.565051177, 33.3, 44.99, 45.0, 45.01, 63.434948823, 89.0, 89.9, 89.99, 90.1, 134.5, 179.5, 180.25, 269.9, 270.1, 359.0, 359.9, 1e4, 3600.0, -0.01, -45.5, -89.5, -90.5}) A.push_back(a);
  int Q = h.thorough ? 9 : 7;
  for (int S = 1; S <= Q; S++) for (int Ln = 1; Ln <= Q; Ln++) for (int il = 0; il < 3; il++) h.run([&] { for (double a : A) rotate(S, Ln, 1 + (S + Ln) % 3, ALLT[(S * 3 + Ln + il) % 9], il, a); }, "rotate %d samples %d lines layout %s", S, Ln, ILV[il]);
  for (int t : ALLT) for (int il = 0; il < 3; il++) for (int B : {1, 2, 5}) h.run([&] { for (double a : {0.0, 17.0, 45.0, 90.0, 135.0, 180.0, 250.0, 270.0, 360.0, -90.0, 450.0}) { rotate(4, 3, B, t, il, a); rotate(1, 5, B, t, il, a); rotate(6, 2, B, t, il, a); } }, "rotate type %d layout %s bands %d", t, ILV[il], B);
  for (int e : {15, 16, 31, 33, 64, 100, 127, 128, 200}) for (int il = 0; il < 3; il++) h.run([&] { for (double a : {0.0, 1.0, 30.0, 45.0, 60.0, 89.0, 90.0, 123.4, 180.0, 222.0, 270.0, 300.0, 359.0}) { rotate(e, 2, 2, 4, il, a); rotate(3, e, 1, 12, il, a); rotate(e, e / 2 + 1, 2, 2, il, a); } }, "rotate edge %d layout %s", e, ILV[il]);
  for (auto &b : BIG) { for (int t : ALLT) for (int ch : {1, 3}) h.run([&] { flips(b[0], b[1], t, ch); }, "flip %d x %d type %d channels %d", b[0], b[1], t, ch); for (int ch : {1, 3}) for (int k : {0, 5}) { h.run([&] { down(pattern(b[0], b[1], ch, k)); }, "shrink %d x %d channels %d image %d", b[0], b[1], ch, k); h.run([&] { up(pattern(b[0], b[1], ch, k)); }, "enlarge %d x %d channels %d image %d", b[0], b[1], ch, k); } }
  for (auto &b : {std::pair<int,int>{257, 300}, {301, 256}, {1031, 1027}}) for (int il = 0; il < 3; il++) for (double a : {0.0, 30.0, 90.0, 180.0, 222.0, 270.0}) { if (b.first > 1000 && a != 90 && a != 180 && !(a == 30 && il == 2)) continue; h.run([&] { rotate(b.first, b.second, 2, 4, il, a); }, "rotate %d samples %d lines layout %s by %g", b.first, b.second, ILV[il], a); }
}
int main(int c, char **v) { return hv_main(c, v, "C15", explore); }
