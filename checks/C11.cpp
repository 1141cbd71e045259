// C11: erosion, dilation, opening and closing of every small binary image by every small kernel.
#include "lib.h"

typedef std::vector<u8> V;
static bool inside(int i, int j, int R, int C, int w, int h) { return i - h / 2 >= 0 && i + h / 2 < R && j - w / 2 >= 0 && j + w / 2 < C; }
static V model(const V &s, int R, int C, const V &k, int w, int h, bool dilate) {
  V d = s;
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
    if (!inside(i, j, R, C, w, h)) continue;
    bool all = true, any = false;
    for (int m = 0; m < h; m++) for (int n = 0; n < w; n++) if (k[m * w + n] == 1) { if (s[(i - h / 2 + m) * C + j - w / 2 + n]) any = true; else all = false; }
    if (dilate) { if (s[i * C + j] == 0 && any) d[i * C + j] = 1; }
    else if (s[i * C + j] && !all) d[i * C + j] = 0;
  }
  return d;
}
static void cmp(simple_mat d, const V &want, int C, const char *key, const char *what) {
  const u8 *p = (const u8 *)d->data;
  if (memcmp(p, want.data(), want.size())) { size_t i = 0; while (p[i] == want[i]) i++; hv->fail(key, "%s: line %zu column %zu is %d, expected %d", what, i / C, i % C, p[i], want[i]); }
}
static const char *const NAME[4] = {"erosion", "dilation", "opening", "closing"};
struct Rig {
  int R, C, w, h; simple_mat s, d; S_2D q; V k;
  Rig(int R_, int C_, int w_, int h_, const V &k_) : R(R_), C(C_), w(w_), h(h_), k(k_) { s = create_simple_mat(R, C, 1, 1); d = create_simple_mat(R, C, 1, 1); q = create_2D_struct_with_data(w, h, k.data()); }
  void go(const V &img, int op, int it, int fill) {
    memcpy(s->data, img.data(), img.size());
    memset(d->data, fill, img.size());
    if (op == 0) L(hypercv_corrosion(s, d, q)); else if (op == 1) L(hypercv_expend(s, d, q)); else if (op == 2) L(hypercv_open(s, d, q, it)); else L(hypercv_close(s, d, q, it));
    V want = img;
    if (op < 2) want = model(img, R, C, k, w, h, op == 1);
    else for (int i = 0; i < it; i++) { want = model(want, R, C, k, w, h, op == 3); want = model(want, R, C, k, w, h, op == 2); }
    cmp(d, want, C, NAME[op], NAME[op]);
    cmp(s, img, C, "source", "source");
    hv->state(hv_hash(want.data(), want.size(), op * 131 + R));
  }
  void end(const V &kw) {
    expect_dims(s, R, C, 1, 1, "dims"); expect_dims(d, R, C, 1, 1, "dims");
    CHECK(q->width == w && q->height == h && !memcmp(q->data, kw.data(), kw.size()), "kernel", "the kernel changed");
    CHECK(k == kw, "kernel-data", "the caller's kernel data changed");
    delete_S_2D(q); delete_simple_mat(s); delete_simple_mat(d);
  }
};
static V bits(u32 b, int n) { V v(n); for (int i = 0; i < n; i++) v[i] = b >> i & 1; return v; }
// every image of the shape (a slice of them) with one kernel
static void all_images(int R, int C, int w, int h, const V &k, u32 lo, u32 hi, int op, int it) {
  Rig g(R, C, w, h, k);
  for (u32 b = lo; b < hi; b++) g.go(bits(b, R * C), op, it, b & 1 ? 0 : 0xEE);
  g.end(k);
}
static V image(int R, int C, int kind) {
  V v(R * C);
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) {
    int p = pat((size_t)i * C + j, kind);
    v[i * C + j] = kind == 0 ? p & 1 : kind == 1 ? p % 5 == 0 : kind == 2 ? p % 7 != 0 : kind == 3 ? 1 : kind == 4 ? 0 : kind == 5 ? (i + j) % 2 : kind == 6 ? (i / 3 + j / 5) % 2 : j % 4 == 1;
  }
  return v;
}
static V kern(int w, int h, int kind) {
  V v(w * h);
  for (int m = 0; m < h; m++) for (int n = 0; n < w; n++) { int p = pat(m * w + n, 50 + kind); v[m * w + n] = kind == 0 ? 1 : kind == 1 ? (m == h / 2 || n == w / 2) : kind == 2 ? p & 1 : kind == 3 ? (m == 0 && n == 0) : kind == 4 ? (m == h - 1 && n == w - 1) : kind == 5 ? m == n : 0; }
  return v;
}
static void big(int R, int C, int w, int h, int kk, int ik) {
  V k = kern(w, h, kk);
  Rig g(R, C, w, h, k);
  V v = image(R, C, ik);
  for (int op = 0; op < 4; op++) for (int it = 1; it <= (op < 2 ? 1 : 3); it++) g.go(v, op, it, 0x5A);
  g.end(k);
}
// many rounds: opening and closing by lopsided kernels go on changing
static void rounds(int R, int C, int w, int h, int kk, int ik) {
  V k = kern(w, h, kk);
  Rig g(R, C, w, h, k);
  V v = image(R, C, ik);
  for (int op = 2; op < 4; op++) for (int it : {4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 100}) g.go(v, op, it, it);
  g.end(k);
}
// a single set (or cleared) pixel at every place shows the kernel itself
static void impulse(int R, int C, int w, int h, int kk) {
  V k = kern(w, h, kk);
  Rig g(R, C, w, h, k);
  for (int p = 0; p < R * C; p++) { V v(R * C, 0); v[p] = 1; g.go(v, 1, 1, 1); V u(R * C, 1); u[p] = 0; g.go(u, 0, 1, 1); g.go(v, 3, 1, 9); g.go(u, 2, 2, 9); }
  g.end(k);
}
static void gray_levels(int R, int C, int w, int h) {  // set pixels of any non-zero value keep it
  V k = kern(w, h, 0);
  Rig g(R, C, w, h, k);
  V v(R * C);
  for (size_t i = 0; i < v.size(); i++) v[i] = i % 3 == 2 ? 0 : pat(i) | 1;
  for (int op = 0; op < 2; op++) g.go(v, op, 1, 0);
  for (auto &x : v) if (!x) x = pat(&x - &v[0], 3) % 4 ? 255 : 0;
  for (int op = 0; op < 2; op++) g.go(v, op, 1, 0);
  g.end(k);
}
static void too_small(int R, int C, int w, int h) {
  for (int op = 0; op < 4; op++) {
    V k(w * h, 1);
    simple_mat s = mkimg(R, C, 1, 1, 3), d = mkimg(R, C, 1, 1, 4);
    Bytes a = dump(s), b = dump(d);
    S_2D q = create_2D_struct_with_data(w, h, k.data());
    if (op == 0) L(hypercv_corrosion(s, d, q)); else if (op == 1) L(hypercv_expend(s, d, q)); else if (op == 2) L(hypercv_open(s, d, q, 2)); else L(hypercv_close(s, d, q, 2));
    same_bytes(d->data, b.data(), b.size(), "small-dst", "destination of an image smaller than the kernel");
    same_bytes(s->data, a.data(), a.size(), "small-src", "image smaller than the kernel");
    hv->state(hstate(d));
    delete_S_2D(q); delete_simple_mat(s); delete_simple_mat(d);
  }
}
static void explore(HV &h) {
  // every image times every kernel
  static const int SH[][2] = {{3, 3}, {3, 4}, {4, 3}, {2, 5}, {5, 2}, {1, 6}, {6, 1}, {4, 4}, {3, 5}, {5, 3}, {2, 7}, {1, 9}};
  for (auto &s : SH) {
    int n = s[0] * s[1];
    for (int w = 1; w <= std::min(3, s[1]); w++) for (int kh = 1; kh <= std::min(3, s[0]); kh++) {
      int nk = 1 << (w * kh);
      for (int b = 0; b < nk; b++) {
        long cost = (long)nk << n;
        // in the quick tier the largest products keep every image and every eighth to 64th kernel
        int st = h.thorough ? (cost > (1l << 25) ? 8 : 1) : cost > (1l << 23) ? 64 : cost > (1l << 20) ? 16 : cost > (1l << 18) ? 2 : 1;
        if (b % st != st / 2 && b != nk - 1 && b != (0xBA & (nk - 1))) continue;
        V k = bits(b, w * kh);
        for (int op = 0; op < 2; op++) for (u32 lo = 0; lo < 1u << n; lo += 4096) h.run([&] { all_images(s[0], s[1], w, kh, k, lo, std::min(lo + 4096, 1u << n), op, 1); }, "%s of %d x %d images from %u by %d x %d kernel %d", NAME[op], s[0], s[1], lo, w, kh, b);
        if (b % (st * 8) == st / 2 || b == nk - 1 || b == (0xBA & (nk - 1))) for (int op = 2; op < 4; op++) for (int it = 1; it <= 3; it++) for (u32 lo = 0; lo < 1u << n; lo += 4096) { if (!h.thorough && n > 14 && it == 2) continue; h.run([&] { all_images(s[0], s[1], w, kh, k, lo, std::min(lo + 4096, 1u << n), op, it); }, "%s %d times of %d x %d images from %u by %d x %d kernel %d", NAME[op], it, s[0], s[1], lo, w, kh, b); }
      }
    }
  }
  int N = h.thorough ? 9 : 7;
  for (int w = 1; w <= N; w++) for (int kh = 1; kh <= N; kh++) for (int kk = 0; kk < 7; kk++) {
    h.run([&] { impulse(9, 11, w, kh, kk); }, "impulses in 9 x 11 by %d x %d kernel %d", w, kh, kk);
    h.run([&] { impulse(12, N, w, kh, kk); }, "impulses in 12 x %d by %d x %d kernel %d", N, w, kh, kk);
    for (int ik = 0; ik < 8; ik++) { h.run([&] { big(kh + ik, w + 13 - ik, w, kh, kk, ik); }, "%d x %d image %d by %d x %d kernel %d", kh + ik, w + 13 - ik, ik, w, kh, kk); h.run([&] { big(31, 17, w, kh, kk, ik); }, "31 x 17 image %d by %d x %d kernel %d", ik, w, kh, kk); }
  }
  for (int e : {16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 1025}) for (int ik = 0; ik < 3; ik++) { h.run([&] { big(e, 5, 3, 3, ik % 3, ik); }, "%d x 5 image %d", e, ik); h.run([&] { big(7, e, 3, 5, ik % 3, ik); }, "7 x %d image %d", e, ik); h.run([&] { big(e, e > 300 ? 20 : e, 5, 2, ik % 3, ik); }, "%d square image %d", e, ik); }
  for (int w : {15, 16, 31, 33, 64, 127, 129}) { h.run([&] { big(140, w + 3, w, 3, 2, 2); }, "kernel %d x 3", w); h.run([&] { big(w + 2, 140, 2, w, 2, 2); }, "kernel 2 x %d", w); }
  for (int w = 1; w <= 5; w++) for (int kh = 1; kh <= 5; kh++) h.run([&] { gray_levels(7, 9, w, kh); }, "gray levels by %d x %d", w, kh);
  for (int R = 1; R <= 4; R++) for (int C = 1; C <= 4; C++) for (int w = 1; w <= 6; w++) for (int kh = 1; kh <= 6; kh++) if (C < w || R < kh) h.run([&] { too_small(R, C, w, kh); }, "%d x %d image by %d x %d kernel", R, C, w, kh);
  for (auto &b : BIG) for (int ik = 0; ik < 2; ik++) { h.run([&] { big(b[0], b[1], 3, 3, ik, ik); }, "%d x %d image %d", b[0], b[1], ik); h.run([&] { big(b[0], b[1], ik ? 5 : 2, ik ? 2 : 5, 2, ik + 2); }, "%d x %d image %d by an even kernel", b[0], b[1], ik); }
  for (int w = 1; w <= 5; w++) for (int kh = 1; kh <= 5; kh++) for (int kk = 0; kk < 7; kk++) for (int ik : {0, 2, 3, 6}) { h.run([&] { rounds(19, 140, w, kh, kk, ik); }, "many rounds on 19 x 140 image %d by %d x %d kernel %d", ik, w, kh, kk); h.run([&] { rounds(140, 19, w, kh, kk, ik); }, "many rounds on 140 x 19 image %d by %d x %d kernel %d", ik, w, kh, kk); }
  for (int w : {15, 31, 33}) h.run([&] { big(301, 256, w, w, 0, 1); big(257, 300, w + 1, w - 2, 1, 2); }, "kernels about %d on a large image", w);
}
int main(int c, char **v) { return hv_main(c, v, "C11", explore); }
