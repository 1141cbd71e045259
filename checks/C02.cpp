// C02: ranges, bands, splices, reshapes and transpositions move exactly the named samples.
#include "lib.h"

struct Model { int S, Ln, B, t, il; Bytes d; std::vector<float> w; };
static Model model(hyper_mat m, int il) { return {m->samples, m->lines, m->bands, m->data_type, il, dump(m), std::vector<float>(m->wavelength, m->wavelength + m->bands)}; }
static void unchanged(hyper_mat m, const Model &k) {
  expect_dims(m, k.S, k.Ln, k.B, k.t, ILV[k.il], "src-dims");
  same_bytes(m->data, k.d.data(), k.d.size(), "src-data", "source");
  expect_wave(m, k.w.data(), k.B, "src-wave");
}
static void range(hyper_mat m, const Model &k, int r0, int c0, int b0, int r1, int c1, int b1) {
  int es = tsize(k.t), S = c1 - c0, Ln = r1 - r0, B = b1 - b0;
  hyper_mat r = L(hyper_mat_get_range(m, r0, c0, b0, r1, c1, b1));
  expect_dims(r, S, Ln, B, k.t, ILV[k.il], "range-dims");
  Bytes want((size_t)S * Ln * B * es);
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int b = 0; b < B; b++)
    memcpy(&want[at(k.il, S, Ln, B, i, j, b) * es], &k.d[at(k.il, k.S, k.Ln, k.B, i + r0, j + c0, b + b0) * es], es);
  same_bytes(r->data, want.data(), want.size(), "range-data", "range");
  expect_wave(r, k.w.data() + b0, B, "range-wave");
  CHECK(r != m && r->data != m->data, "range-shared", "the range shares memory with its source");
  hv->state(hstate(r));
  delete_hyper_mat(r);
}
static void ranges(int S, int Ln, int B, int t, int il, int r0, int r1) {
  hyper_mat m = mkcube(S, Ln, B, t, ILV[il], S * 5 + Ln);
  Model k = model(m, il);
  for (int c0 = 0; c0 < S; c0++) for (int c1 = c0 + 1; c1 <= S; c1++) for (int b0 = 0; b0 < B; b0++) for (int b1 = b0 + 1; b1 <= B; b1++) range(m, k, r0, c0, b0, r1, c1, b1);
  unchanged(m, k);
  delete_hyper_mat(m);
}
// two cuts in a row equal one cut
static void nested(int S, int Ln, int B, int t, int il, const int *a, const int *b) {
  hyper_mat m = mkcube(S, Ln, B, t, ILV[il], 77);
  hyper_mat x = L(hyper_mat_get_range(m, a[0], a[1], a[2], a[3], a[4], a[5]));
  hyper_mat y = L(hyper_mat_get_range(x, b[0], b[1], b[2], b[3], b[4], b[5]));
  hyper_mat z = L(hyper_mat_get_range(m, a[0] + b[0], a[1] + b[1], a[2] + b[2], a[0] + b[3], a[1] + b[4], a[2] + b[5]));
  expect_dims(y, z->samples, z->lines, z->bands, t, ILV[il], "nested-dims");
  same_bytes(y->data, z->data, nbytes(z), "nested-data", "cut of a cut");
  expect_wave(y, z->wavelength, z->bands, "nested-wave");
  hv->state(hstate(y));
  delete_hyper_mat(m); delete_hyper_mat(x); delete_hyper_mat(y); delete_hyper_mat(z);
}
static void band_out(int S, int Ln, int B, int t, int dr, int dc, int dt, int dch) {
  hyper_mat m = mkcube(S, Ln, B, t, "bsq", 3);
  Model k = model(m, 0);
  size_t bs = (size_t)S * Ln * tsize(t);
  for (int b = 1; b <= B; b++) {
    simple_mat s = mkimg(dr, dc, dt, dch, 9);
    size_t room = nbytes(s);
    Bytes old = dump(s);
    L(hyper_mat_2_simple_mat(m, s, b));
    expect_dims(s, Ln, S, t, 1, "band-dims");
    same_bytes(s->data, &k.d[bs * (b - 1)], bs, "band-data", "extracted band");
    same_bytes((u8 *)s->data + bs, old.data() + bs, room - bs, "band-over", "memory after the extracted band");
    hv->state(hstate(s));
    simple_mat c = L(simple_mat_copy(s));  // the image is complete: it can be copied
    expect_dims(c, Ln, S, t, 1, "band-copy");
    same_bytes(c->data, &k.d[bs * (b - 1)], bs, "band-copy", "copy of the extracted band");
    delete_simple_mat(c); delete_simple_mat(s);
  }
  unchanged(m, k);
  delete_hyper_mat(m);
}
static void band_in(int S, int Ln, int B, int t) {
  size_t bs = (size_t)S * Ln * tsize(t);
  for (int b = 1; b <= B; b++) {
    hyper_mat m = mkcube(S, Ln, B, t, "bsq", 3);
    Model k = model(m, 0);
    simple_mat s = mkimg(Ln, S, t, 1, 40 + b);
    Bytes img = dump(s);
    L(simple_mat_2_hyper_mat(m, s, b));
    memcpy(&k.d[bs * (b - 1)], img.data(), bs);
    unchanged(m, k);
    expect_dims(s, Ln, S, t, 1, "insert-src");
    same_bytes(s->data, img.data(), bs, "insert-src", "inserted image");
    hv->state(hstate(m));
    delete_simple_mat(s); delete_hyper_mat(m);
  }
}
// sequences: extract band a / insert into band b / swap through two images
static void band_seq(int S, int Ln, int t, int depth, int code) {
  const int B = 3;
  hyper_mat m = mkcube(S, Ln, B, t, "bsq", 8);
  Model k = model(m, 0);
  size_t bs = (size_t)S * Ln * tsize(t);
  simple_mat s = mkimg(Ln, S, t, 1, 99);
  Bytes cur = dump(s);
  for (int d = 0; d < depth; d++, code /= 6) {
    int op = code % 6, b = op % 3;
    if (op < 3) { L(hyper_mat_2_simple_mat(m, s, b + 1)); cur.assign(k.d.begin() + bs * b, k.d.begin() + bs * (b + 1)); }
    else { L(simple_mat_2_hyper_mat(m, s, b + 1)); memcpy(&k.d[bs * b], cur.data(), bs); }
    unchanged(m, k);
    expect_dims(s, Ln, S, t, 1, "seq-dims");
    same_bytes(s->data, cur.data(), bs, "seq-data", "image in a sequence of band transfers");
    hv->state(hv_mix(hstate(m), hstate(s)));
  }
  delete_simple_mat(s); delete_hyper_mat(m);
}
static void splice(int S, int Ln, int B, int t, int il, int s, int l, int b) {
  size_t n = (size_t)S * Ln * B, p = (size_t)s * l * b, es = tsize(t);
  for (size_t off = 0; off + p <= n; off++) {
    hyper_mat m = mkcube(S, Ln, B, t, ILV[il], 1), q = mkcube(s, l, b, t, ILV[il], 2);
    Model k = model(m, il), kq = model(q, il);
    L(hyper_mat_splicing(m, q, (int)off));
    memcpy(&k.d[off * es], kq.d.data(), p * es);
    unchanged(m, k);
    unchanged(q, kq);
    hv->state(hstate(m));
    delete_hyper_mat(m); delete_hyper_mat(q);
  }
}
static void reshape(int S, int Ln, int B, int t, int il) {
  hyper_mat m = mkcube(S, Ln, B, t, ILV[il], 6);
  Model k = model(m, il);
  int n = S * Ln * B;
  for (int r = 1; r <= n; r++) if (n % r == 0) {
    simple_mat s = L(reshape_hypermat_2_simplemat(m, r, n / r));
    expect_dims(s, r, n / r, t, 1, "reshape-dims");
    same_bytes(s->data, k.d.data(), k.d.size(), "reshape-data", "reshaped cube");
    CHECK(s->data != m->data, "reshape-shared", "the image shares memory with the cube");
    hv->state(hstate(s));
    delete_simple_mat(s);
  }
  unchanged(m, k);
  delete_hyper_mat(m);
}
static void transp(int R, int C, int t, int ch) {
  simple_mat s = mkimg(R, C, t, ch, 4), d = mkimg(C, R, t, ch, 5), b = mkimg(R, C, t, ch, 6);
  Bytes k = dump(s), want(k.size());
  size_t es = (size_t)tsize(t) * ch;
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) memcpy(&want[((size_t)j * R + i) * es], &k[((size_t)i * C + j) * es], es);
  L(simple_mat_transport(d, s));
  expect_dims(d, C, R, t, ch, "transpose-dims");
  same_bytes(d->data, want.data(), want.size(), "transpose-data", "transposed image");
  expect_dims(s, R, C, t, ch, "transpose-src");
  same_bytes(s->data, k.data(), k.size(), "transpose-src", "source of the transposition");
  L(simple_mat_transport(b, d));
  same_bytes(b->data, k.data(), k.size(), "transpose-back", "image transposed twice");
  hv->state(hstate(d));
  delete_simple_mat(s); delete_simple_mat(d); delete_simple_mat(b);
}
static void htransp(int S, int Ln, int B, int t) {
  hyper_mat m = mkcube(S, Ln, B, t, "bsq", 4), d = mkcube(Ln, S, B, t, "bsq", 5), b = mkcube(S, Ln, B, t, "bsq", 6);
  Model k = model(m, 0);
  Bytes want(k.d.size());
  int es = tsize(t);
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int q = 0; q < B; q++)
    memcpy(&want[at(0, Ln, S, B, j, i, q) * es], &k.d[at(0, S, Ln, B, i, j, q) * es], es);
  L(hyper_mat_transport(d, m));
  expect_dims(d, Ln, S, B, t, "bsq", "htranspose-dims");
  same_bytes(d->data, want.data(), want.size(), "htranspose-data", "cube with transposed bands");
  unchanged(m, k);
  L(hyper_mat_transport(b, d));
  same_bytes(b->data, k.d.data(), k.d.size(), "htranspose-back", "cube transposed twice");
  hv->state(hstate(d));
  delete_hyper_mat(m); delete_hyper_mat(d); delete_hyper_mat(b);
}
static void huge_transport(int S, int Ln, int B) {
  hv_huge(); hv_env.fill = 0;
  hyper_mat m = L(create_hyper_mat(S, Ln, B, 5, "bsq")), d = L(create_hyper_mat(Ln, S, B, 5, "bsq"));
  u64 *p = (u64 *)m->data, *q = (u64 *)d->data;
  size_t n = (size_t)S * Ln;
  for (int k = 0; k < B; k++) for (int i : {0, 1, Ln / 2, Ln - 1}) for (int j : {0, 1, S / 2, S - 2, S - 1}) p[k * n + (size_t)i * S + j] = 0x0101010101010101ull * (i % 5 + 6 * (j % 7) + 42 * k + 1);
  L(hyper_mat_transport(d, m));
  for (int k = 0; k < B; k++) for (int i : {0, 1, Ln / 2, Ln - 1}) for (int j : {0, 1, S / 2, S - 2, S - 1}) CHECK(q[k * n + (size_t)j * Ln + i] == p[k * n + (size_t)i * S + j], "huge-transport", "line %d column %d band %d of %d x %d x %d doubles", i, j, k, Ln, S, B);
  hv->state(S);
  delete_hyper_mat(m); delete_hyper_mat(d);
}
// offsets beyond 2^31 bytes (type 5) and 2^31 elements (type 1)
static void huge(int S, int Ln, int B, int t) {
  hv_huge(); hv_env.fill = 0;
  int z = tsize(t);
  for (int il = 0; il < 3; il++) {
    hyper_mat m = L(create_hyper_mat(S, Ln, B, t, ILV[il]));
    u8 *d = (u8 *)m->data;
    auto val = [&](int i, int j, int k) { return (u8)(i * 7 + j * 3 + k + 1); };
    int i0 = Ln - 3, j0 = S - 4, k0 = B - 1;
    for (int i = i0; i < Ln; i++) for (int j = j0; j < S; j++) for (int k = k0; k < B; k++) memset(d + at(il, S, Ln, B, i, j, k) * z, val(i, j, k), z);
    hyper_mat r = L(hyper_mat_get_range(m, i0, j0, k0, Ln, S, B));
    for (int i = i0; i < Ln; i++) for (int j = j0; j < S; j++) for (int k = k0; k < B; k++) for (int b = 0; b < z; b++)
      CHECK(((u8 *)r->data)[at(il, S - j0, Ln - i0, B - k0, i - i0, j - j0, k - k0) * z + b] == val(i, j, k), "huge-range", "%s: sample %d %d %d of the range", ILV[il], i, j, k);
    delete_hyper_mat(r);
    if (il == 0) {
      simple_mat s = create_simple_mat(Ln, S, t, 1);
      L(hyper_mat_2_simple_mat(m, s, B));
      for (int i = i0; i < Ln; i++) for (int j = j0; j < S; j++) for (int b = 0; b < z; b++) CHECK(((u8 *)s->data)[((size_t)i * S + j) * z + b] == val(i, j, B - 1), "huge-band", "sample %d %d of the last band", i, j);
      for (size_t q = 0; q < (size_t)S * z; q++) CHECK(((u8 *)s->data)[q] == 0, "huge-band", "byte %zu of the last band", q);
      for (int i = i0; i < Ln; i++) for (int j = j0; j < S; j++) memset((u8 *)s->data + ((size_t)i * S + j) * z, 0x77, z);
      L(simple_mat_2_hyper_mat(m, s, B));
      for (int i = i0; i < Ln; i++) for (int j = j0; j < S; j++) for (int b = 0; b < z; b++) CHECK(d[at(0, S, Ln, B, i, j, B - 1) * z + b] == 0x77, "huge-band", "sample %d %d written into the last band", i, j);
      delete_simple_mat(s);
      size_t n = (size_t)S * Ln * B;
      if (n - 8 < 0x7fffffff) {
        hyper_mat p = mkcube(2, 2, 2, t, "bsq", 3);
        L(hyper_mat_splicing(m, p, (int)(n - 8)));
        same_bytes(d + (n - 8) * z, p->data, (size_t)8 * z, "huge-splice", "the end of a spliced cube");
        delete_hyper_mat(p);
        // the whole cube as an image
        if (B == 3) { s = L(reshape_hypermat_2_simplemat(m, Ln * B, S)); same_bytes((u8 *)s->data + (n - 100) * z, d + (n - 100) * z, (size_t)100 * z, "huge-reshape", "the end of a reshaped cube"); delete_simple_mat(s); }
      }
    }
    hv->state(il);
    delete_hyper_mat(m);
  }
}
static void explore(HV &h) {
  int N = h.thorough ? 5 : 4;
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N; B++) for (int t : ALLT) for (int il = 0; il < 3; il++)
    for (int r0 = 0; r0 < Ln; r0++) for (int r1 = r0 + 1; r1 <= Ln; r1++)
      h.run([&] { ranges(S, Ln, B, t, il, r0, r1); }, "all ranges of lines %d to %d of %d x %d x %d type %d %s", r0, r1, S, Ln, B, t, ILV[il]);
  // corner-biased ranges of cubes with one long axis
  for (int e : {7, 16, 33, 64, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1025, 4097, 32769, 65537}) for (int ax = 0; ax < 3; ax++) for (int t : {1, 12, 4, 5}) for (int il = 0; il < 3; il++) {
    int d[3] = {3, 3, 3}; d[ax] = e;
    int cand[3][4][2];
    for (int a = 0; a < 3; a++) { int n = d[a]; int q[4][2] = {{0, n}, {0, 1}, {n - 1, n}, {n / 2, n - 1 > n / 2 ? n - 1 : n}}; memcpy(cand[a], q, sizeof q); }
    h.run([&] {
      hyper_mat m = mkcube(d[0], d[1], d[2], t, ILV[il], 5);
      Model k = model(m, il);
      for (auto &c : cand[0]) for (auto &r : cand[1]) for (auto &b : cand[2]) range(m, k, r[0], c[0], b[0], r[1], c[1], b[1]);
      unchanged(m, k);
      delete_hyper_mat(m);
    }, "corner ranges of %d x %d x %d type %d %s", d[0], d[1], d[2], t, ILV[il]);
  }
  static const int NA[][6] = {{0, 0, 0, 4, 5, 6}, {1, 0, 0, 4, 5, 5}, {0, 1, 2, 3, 4, 6}, {1, 2, 3, 4, 5, 6}, {0, 0, 1, 4, 4, 4}};
  for (int t : ALLT) for (int il = 0; il < 3; il++) for (auto &a : NA) {
    int Ln = a[3] - a[0], S = a[4] - a[1], B = a[5] - a[2];
    for (int r0 = 0; r0 < Ln; r0++) for (int c0 = 0; c0 < S; c0++) for (int b0 = 0; b0 < B; b0++) {
      int b[6] = {r0, c0, b0, Ln, S, B};
      h.run([&] { nested(5, 4, 6, t, il, a, b); }, "nested cut type %d %s at (%d,%d,%d)+(%d,%d,%d)", t, ILV[il], a[0], a[1], a[2], r0, c0, b0);
      int c[6] = {0, 0, 0, r0 + 1, c0 + 1, b0 + 1};
      h.run([&] { nested(5, 4, 6, t, il, a, c); }, "nested cut type %d %s at (%d,%d,%d) up to (%d,%d,%d)", t, ILV[il], a[0], a[1], a[2], r0 + 1, c0 + 1, b0 + 1);
    }
  }
  for (int S = 1; S <= N + 1; S++) for (int Ln = 1; Ln <= N + 1; Ln++) for (int B = 1; B <= N; B++) for (int t : ALLT) {
    h.run([&] { band_out(S, Ln, B, t, Ln, S, t, 1); }, "extract bands of %d x %d x %d type %d", S, Ln, B, t);
    // destinations of other shapes, types and channels that have room
    h.run([&] { band_out(S, Ln, B, t, S * Ln, 2, 5, 1); }, "extract bands of %d x %d x %d type %d into a larger double image", S, Ln, B, t);
    h.run([&] { band_out(S, Ln, B, t, S, Ln, 5, 3); }, "extract bands of %d x %d x %d type %d into a colour image", S, Ln, B, t);
    if (B < 3) for (int dt : ALLT) h.run([&] { band_out(S, Ln, B, t, S * Ln * 8 / tsize(dt), 1, dt, 1 + dt % 2); }, "extract bands of %d x %d x %d type %d into an image of type %d", S, Ln, B, t, dt);
    h.run([&] { band_in(S, Ln, B, t); }, "insert bands of %d x %d x %d type %d", S, Ln, B, t);
    h.run([&] { htransp(S, Ln, B, t); }, "transpose bands of %d x %d x %d type %d", S, Ln, B, t);
    if (S <= N && Ln <= N) for (int il = 0; il < 3; il++) h.run([&] { reshape(S, Ln, B, t, il); }, "reshape %d x %d x %d type %d %s", S, Ln, B, t, ILV[il]);
  }
  for (int e : {31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 32769, 65537}) for (int ax = 0; ax < 3; ax++) for (int t : ALLT) {
    int d[3] = {3, 2, 2}; d[ax] = e;
    if (!(ax == 2 && e > 2000)) {
      h.run([&] { band_out(d[0], d[1], d[2], t, d[1], d[0], t, 1); }, "extract bands of %d x %d x %d type %d", d[0], d[1], d[2], t);
      if (d[2] < 200) h.run([&] { band_in(d[0], d[1], d[2], t); }, "insert bands of %d x %d x %d type %d", d[0], d[1], d[2], t);
    }
    h.run([&] { htransp(d[0], d[1], d[2], t); }, "transpose bands of %d x %d x %d type %d", d[0], d[1], d[2], t);
    h.run([&] { reshape(d[0], d[1], d[2], t, 0); }, "reshape %d x %d x %d type %d", d[0], d[1], d[2], t);
    if (ax < 2) for (int ch : {1, 3}) h.run([&] { transp(d[0], d[1], t, ch); }, "transpose %d x %d type %d channels %d", d[0], d[1], t, ch);
  }
  int D = h.thorough ? 5 : 4, n = 1;
  for (int d = 0; d < D; d++) n *= 6;
  for (int t : ALLT) for (int code = 0; code < n; code++) h.run([&] { band_seq(2 + t % 2, 3, t, D, code); }, "band transfers %d of depth %d type %d", code, D, t);
  static const int SC[][6] = {{2, 2, 2, 1, 1, 1}, {3, 2, 2, 3, 2, 1}, {2, 3, 2, 2, 1, 2}, {3, 3, 2, 3, 3, 2}, {2, 2, 3, 2, 2, 2}, {4, 1, 2, 1, 3, 1}, {5, 3, 2, 2, 2, 3}, {1, 1, 7, 1, 1, 3}};
  for (auto &c : SC) for (int t : ALLT) for (int il = 0; il < 3; il++) h.run([&] { splice(c[0], c[1], c[2], t, il, c[3], c[4], c[5]); }, "splice %d x %d x %d into %d x %d x %d type %d %s at every offset", c[3], c[4], c[5], c[0], c[1], c[2], t, ILV[il]);
  int M = h.thorough ? 12 : 7;
  for (int R = 1; R <= M; R++) for (int C = 1; C <= M; C++) for (int t : ALLT) for (int ch : {1, 3}) h.run([&] { transp(R, C, t, ch); }, "transpose %d x %d type %d channels %d", R, C, t, ch);
  for (int ch : {2, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096, 8191, 8192, 32768, 65537}) for (int t : {1, 2, 4, 5}) h.run([&] { transp(2, 3, t, ch); transp(3, 1, t, ch); }, "transpose type %d channels %d", t, ch);
  h.run([&] { huge(20011, 5003, 3, 5); }, "a cube of 2.4 GB");
  if (h.thorough) h.run([&] { huge_transport(9011, 10007, 3); }, "transport of a cube of 2.2 GB");
  if (h.thorough) h.run([&] { huge(26759, 26777, 3, 1); }, "a cube of more than 2^31 bytes");
  if (h.thorough) h.run([&] { huge(37011, 13003, 9, 1); }, "a cube of more than 2^32 bytes");
  // large cubes: offsets beyond 2^24 elements and 2^31 bits
  for (int t : {1, 4}) {
    h.run([&] { hyper_mat m = mkcube(2051, 1027, 9, t, "bsq", 2); Model k = model(m, 0); range(m, k, 1000, 2000, 7, 1027, 2051, 9); range(m, k, 0, 0, 0, 1027, 2051, 9); unchanged(m, k); delete_hyper_mat(m); }, "large range type %d", t);
    h.run([&] { band_out(2051, 1027, 9, t, 1027, 2051, t, 1); }, "large band extraction type %d", t);
    h.run([&] { htransp(2051, 1027, 9, t); }, "large band transposition type %d", t);
    h.run([&] { transp(4099, 4111, t, 1); }, "large transposition type %d", t);
  }
  // large in all directions
  static const int LC[][3] = {{203, 107, 31}, {107, 203, 33}, {31, 257, 130}, {65, 37, 259}, {513, 300, 5}};
  for (auto &c : LC) for (int t : ALLT) {
    for (int il = 0; il < 3; il++) {
      h.run([&] {
        hyper_mat m = mkcube(c[0], c[1], c[2], t, ILV[il], 5);
        Model k = model(m, il);
        int S = c[0], Ln = c[1], B = c[2];
        range(m, k, 0, 0, 0, Ln, S, B); range(m, k, 1, 1, 1, Ln, S, B); range(m, k, 0, 0, 0, Ln - 1, S - 1, B - 1); range(m, k, Ln / 3, S / 2, B / 2, Ln - 2, S - 3, B - 1); range(m, k, Ln - 1, S - 1, B - 1, Ln, S, B); range(m, k, 0, S / 3, 0, Ln, S / 3 + 1, B); range(m, k, Ln / 2, 0, 0, Ln / 2 + 1, S, B); range(m, k, 0, 0, B / 2, Ln, S, B / 2 + 1);
        unchanged(m, k);
        delete_hyper_mat(m);
      }, "ranges of %d x %d x %d type %d %s", c[0], c[1], c[2], t, ILV[il]);
      h.run([&] {
        hyper_mat m = mkcube(c[0], c[1], c[2], t, ILV[il], 1), q = mkcube(c[1] / 2, c[0] / 3, c[2] / 2, t, ILV[il], 2);
        Model k = model(m, il), kq = model(q, il);
        size_t es = tsize(t), n = k.d.size() / es, p = kq.d.size() / es;
        for (size_t off : {(size_t)0, (size_t)1, n / 3, n - p}) { L(hyper_mat_splicing(m, q, (int)off)); memcpy(&k.d[off * es], kq.d.data(), p * es); unchanged(m, k); unchanged(q, kq); hv->state(hstate(m)); }
        delete_hyper_mat(m); delete_hyper_mat(q);
      }, "splices into %d x %d x %d type %d %s", c[0], c[1], c[2], t, ILV[il]);
      h.run([&] { reshape(c[0], c[1], c[2], t, il); }, "reshape %d x %d x %d type %d %s", c[0], c[1], c[2], t, ILV[il]);
    }
    h.run([&] { band_out(c[0], c[1], c[2], t, c[1], c[0], t, 1); }, "extract bands of %d x %d x %d type %d", c[0], c[1], c[2], t);
    if (c[2] < 100) h.run([&] { band_in(c[0], c[1], c[2], t); }, "insert bands of %d x %d x %d type %d", c[0], c[1], c[2], t);
    h.run([&] { htransp(c[0], c[1], c[2], t); }, "transpose bands of %d x %d x %d type %d", c[0], c[1], c[2], t);
  }
  for (auto &b : BIG) for (int t : ALLT) for (int ch : {1, 3}) h.run([&] { transp(b[0], b[1], t, ch); }, "transpose %d x %d type %d channels %d", b[0], b[1], t, ch);
}
int main(int c, char **v) { return hv_main(c, v, "C02", explore); }
