// C01: interleave conversion against the index function at() for every shape, type and path.
#include "lib.h"

typedef hyper_mat (*conv)(hyper_mat);
static conv TO[3][3] = {{NULL, bsq2bil, bsq2bip}, {bil2bsq, NULL, bil2bip}, {bip2bsq, bip2bil, NULL}};
static void (*const IN[3])(hyper_mat) = {convert2bsq, convert2bil, convert2bip};

static Bytes model(const Bytes &src, int a, int b, int S, int Ln, int B, int es) {
  Bytes r(src.size());
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int k = 0; k < B; k++)
    memcpy(&r[at(b, S, Ln, B, i, j, k) * es], &src[at(a, S, Ln, B, i, j, k) * es], es);
  return r;
}
static hyper_mat cube(int S, int Ln, int B, int t, int il, int wmode) {
  hyper_mat m = mkcube(S, Ln, B, t, ILV[il], S * 31 + Ln * 7 + B);
  if (wmode) for (int k = 0; k < B; k++) m->wavelength[k] = (wmode == 1) ? -1.0f * k : (k % 2 ? 1e-30f : 3e38f);
  return m;
}
static void one(int S, int Ln, int B, int t, int a, int b, int wmode) {
  int es = tsize(t);
  hyper_mat m = cube(S, Ln, B, t, a, wmode);
  Bytes src = dump(m);
  std::vector<float> w(m->wavelength, m->wavelength + B);
  Bytes want = model(src, a, b, S, Ln, B, es);
  if (a != b) {
    hyper_mat r = L(TO[a][b](m));
    expect_dims(r, S, Ln, B, t, ILV[b], "new-dims");
    same_bytes(r->data, want.data(), want.size(), "new-data", "converted cube");
    expect_wave(r, w.data(), B, "new-wave");
    CHECK(r != m && r->data != m->data, "new-shared", "the new cube shares memory with its source");
    expect_dims(m, S, Ln, B, t, ILV[a], "src-dims");
    same_bytes(m->data, src.data(), src.size(), "src-data", "source of the conversion");
    expect_wave(m, w.data(), B, "src-wave");
    hyper_mat q = L(TO[b][a](r));
    expect_dims(q, S, Ln, B, t, ILV[a], "back-dims");
    same_bytes(q->data, src.data(), src.size(), "back-data", "there and back");
    hv->state(hstate(r));
    delete_hyper_mat(q);
    delete_hyper_mat(r);
  }
  L(IN[b](m));
  expect_dims(m, S, Ln, B, t, ILV[b], "in-dims");
  same_bytes(m->data, want.data(), want.size(), "in-data", "cube converted in place");
  expect_wave(m, w.data(), B, "in-wave");
  hv->state(hstate(m));
  delete_hyper_mat(m);
}
// a converter whose input already has the target layout returns an equal, independent cube
static void already(int S, int Ln, int B, int t, int a, int b) {
  hyper_mat m = cube(S, Ln, B, t, b, 0);
  Bytes src = dump(m);
  std::vector<float> w(m->wavelength, m->wavelength + B);
  hyper_mat r = L(TO[a][b](m));
  expect_dims(r, S, Ln, B, t, ILV[b], "same-dims");
  same_bytes(r->data, src.data(), src.size(), "same-data", "cube that already had the target layout");
  expect_wave(r, w.data(), B, "same-wave");
  CHECK(r != m && r->data != m->data, "same-shared", "shares memory with its source");
  memset(r->data, 0x3c, src.size());
  same_bytes(m->data, src.data(), src.size(), "same-alias", "source after the copy changed");
  hv->state(hstate(m));
  delete_hyper_mat(r); delete_hyper_mat(m);
}
static void chain(int S, int Ln, int B, int t, int a, int depth, int code) {
  hyper_mat m = cube(S, Ln, B, t, a, 0);
  Bytes src = dump(m);
  std::vector<float> w(m->wavelength, m->wavelength + B);
  int cur = a;
  for (int d = 0; d < depth; d++, code /= 6) {
    int b = code % 3, inplace = code / 3 % 2;
    if (inplace || b == cur) L(IN[b](m));
    else { hyper_mat r = L(TO[cur][b](m)); CHECK(r != NULL, "chain-null", "conversion returned NULL"); delete_hyper_mat(m); m = r; }
    cur = b;
    expect_dims(m, S, Ln, B, t, ILV[cur], "chain-dims");
    Bytes want = model(src, a, cur, S, Ln, B, tsize(t));
    same_bytes(m->data, want.data(), want.size(), "chain-data", "chain of conversions");
    expect_wave(m, w.data(), B, "chain-wave");
    hv->state(hstate(m));
  }
  delete_hyper_mat(m);
}
// more than 2^32 bytes: marks at the far corner and at the start
static void huge(int S, int Ln, int B, int t, int a, int b) {
  hv_huge((size_t)S * Ln * B * tsize(t) * 2 >> 30); hv_env.fill = 0;
  int z = tsize(t);
  hyper_mat m = create_hyper_mat(S, Ln, B, t, ILV[a]);
  u8 *d = (u8 *)m->data;
  auto each = [&](auto f) { for (int i : {0, 1, Ln / 2, Ln - 2, Ln - 1}) for (int j : {0, 1, S / 2, S - 2, S - 1}) for (int k = 0; k < B; k++) f(i, j, k, (u8)(i * 7 + j * 3 + k + 1)); };
  each([&](int i, int j, int k, u8 v) { memset(d + at(a, S, Ln, B, i, j, k) * z, v, z); });
  hyper_mat r = NULL;
  if (a == 0) r = b == 1 ? L(bsq2bil(m)) : L(bsq2bip(m)); else if (a == 1) r = b == 0 ? L(bil2bsq(m)) : L(bil2bip(m)); else r = b == 0 ? L(bip2bsq(m)) : L(bip2bil(m));
  expect_dims(r, S, Ln, B, t, ILV[b], "huge");
  each([&](int i, int j, int k, u8 v) { for (int q = 0; q < z; q++) CHECK(((u8 *)r->data)[at(b, S, Ln, B, i, j, k) * z + q] == v, "huge", "line %d column %d band %d", i, j, k); });
  hv->state(hv_mix(a, b));
  delete_hyper_mat(m); delete_hyper_mat(r);
}
static void explore(HV &h) {
  int N = h.thorough ? 9 : 5;
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N; B++) for (int t : ALLT) for (int a = 0; a < 3; a++) {
    for (int b = 0; b < 3; b++) h.run([&] { one(S, Ln, B, t, a, b, (S + Ln + B) % 3); }, "%d x %d x %d type %d %s -> %s", S, Ln, B, t, ILV[a], ILV[b]);
    for (int b = 0; b < 3; b++) if (a != b && S + Ln + B <= 9) h.run([&] { already(S, Ln, B, t, a, b); }, "converter %s -> %s on %d x %d x %d type %d already %s", ILV[a], ILV[b], S, Ln, B, t, ILV[b]);
  }
  // chains of conversions
  int D = h.thorough ? 5 : 3, n = 1;
  for (int d = 0; d < D; d++) n *= 6;
  static const int CS[][3] = {{2, 3, 4}, {1, 1, 3}, {5, 1, 2}, {1, 4, 1}, {3, 3, 3}, {64, 2, 3}};
  for (auto &c : CS) for (int t : ALLT) for (int a = 0; a < 3; a++) for (int code = 0; code < n; code++)
    h.run([&] { chain(c[0], c[1], c[2], t, a, D, code); }, "chain %d of depth %d from %s on %d x %d x %d type %d", code, D, ILV[a], c[0], c[1], c[2], t);
  // one long dimension at a time, around the widths counters and buffers like
  std::vector<int> E;
  for (int i = 6; i <= (h.thorough ? 300 : 70); i++) E.push_back(i);
  for (int p = 7; p <= 10; p++) for (int d = -1; d <= 1; d++) E.push_back((1 << p) + d);
  E.insert(E.end(), {100, 224, 300, 320, 640, 1000, 1500, 2000, 4095, 4096, 4097});
  for (int e : E) for (int ax = 0; ax < 3; ax++) for (int sm = 0; sm < 3; sm++) for (int t : {1, 2, 4, 5}) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) {
    static const int O[3][2] = {{1, 1}, {2, 3}, {3, 2}};
    int d[3] = {O[sm][0], O[sm][0], O[sm][0]};
    d[(ax + 1) % 3] = O[sm][1]; d[ax] = e;
    if (a != b) h.run([&] { one(d[0], d[1], d[2], t, a, b, 0); }, "long %d x %d x %d type %d %s -> %s", d[0], d[1], d[2], t, ILV[a], ILV[b]);
  }
  for (int e : {32767, 32768, 32769, 65535, 65536, 65537, 70001}) for (int ax = 0; ax < 3; ax++) for (int t : ALLT) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) {
    int d[3] = {2, 2, 2}; d[ax] = e;
    if (a != b) h.run([&] { one(d[0], d[1], d[2], t, a, b, 0); }, "long %d x %d x %d type %d %s -> %s", d[0], d[1], d[2], t, ILV[a], ILV[b]);
  }
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b) h.run([&] { huge(40009, 17903, 3, 1, a, b); }, "2148843381 samples, %s -> %s", ILV[a], ILV[b]);
  if (h.thorough) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b && (a == 0 || b == 0)) h.run([&] { huge(18011, 10007, 3, 5, a, b); }, "4.3 GB, %s -> %s", ILV[a], ILV[b]);
  // two and three medium dimensions
  static const int M[][3] = {{64, 64, 64}, {65, 33, 17}, {256, 256, 3}, {3, 256, 257}, {257, 3, 256}, {128, 100, 31}, {300, 200, 10}, {7, 1000, 50}};
  for (auto &c : M) for (int t : ALLT) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
    if (a != b) h.run([&] { one(c[0], c[1], c[2], t, a, b, 0); }, "medium %d x %d x %d type %d %s -> %s", c[0], c[1], c[2], t, ILV[a], ILV[b]);
  // more than 2^24 elements, where float indexes lose their last bit
  for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
    if (a != b) h.run([&] { one(4099, 1025, 4, 1, a, b, 0); }, "large 4099 x 1025 x 4 type 1 %s -> %s", ILV[a], ILV[b]);
  if (h.thorough) for (int t : {2, 4, 5}) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
    if (a != b) h.run([&] { one(1027, 513, 129, t, a, b, 0); }, "large 1027 x 513 x 129 type %d %s -> %s", t, ILV[a], ILV[b]);
}
int main(int c, char **v) { return hv_main(c, v, "C01", explore); }
