// C17: radiometric correction multiplies every sample by the coefficient that belongs to it.
#include "lib.h"

static float co(int i, int k) { return k == 0 ? 0.01f * (i + 1) : k == 1 ? (i % 5) - 2.0f : k == 2 ? 1.0f : k == 3 ? 1e20f / (i + 1) : 1e-20f * (i + 3); }
static void relative(int S, int Ln, int B, int k, int kind) {
  hyper_mat m = mkcube(S, Ln, B, 12, "bip", k * 7 + S);
  unsigned short *sd = (unsigned short *)m->data;
  if (kind) for (int i = 0; i < S * Ln * B; i++) sd[i] = kind == 1 ? 65535 - i % 3 : i % 2 * 32768;
  auto src = dump(m);
  std::vector<float> c(B * S), c0;
  for (int i = 0; i < B * S; i++) c[i] = co(i, k);
  c0 = c;
  hyper_mat r = L(relative_radiometric_correction(m, c.data()));
  expect_dims(r, S, Ln, B, 4, "bip", "relative dims");
  expect_wave(r, m->wavelength, B, "relative wavelengths");
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int b = 0; b < B; b++) {
    size_t q = at(2, S, Ln, B, i, j, b);
    double w = (double)sd[q] * c0[b * S + j];
    if (!near_(((float *)r->data)[q], w, 1.2e-7, 1e-44)) hv->fail("relative", "%d x %d x %d: line %d column %d band %d is %.9g, expected %d * %.9g", S, Ln, B, i, j, b, ((float *)r->data)[q], sd[q], c0[b * S + j]);
  }
  expect_dims(m, S, Ln, B, 12, "bip", "source dims");
  same_bytes(m->data, src.data(), src.size(), "source", "source cube");
  CHECK(!memcmp(c.data(), c0.data(), 4 * c.size()), "coefficients", "a coefficient changed");
  // independent of the source
  auto out = dump(r);
  memset(m->data, 0x55, nbytes(m)); m->wavelength[0] = -1;
  same_bytes(r->data, out.data(), out.size(), "shared", "result after the source changed");
  CHECK(r->wavelength[0] != -1, "shared", "result shares wavelengths");
  hv->state(hstate(r));
  delete_hyper_mat(m); delete_hyper_mat(r);
}
static void absolute(int S, int Ln, int B, int k, int kind) {
  hyper_mat m = mkcube(S, Ln, B, 4, "bip", 0);
  float *sd = (float *)m->data;
  for (int i = 0; i < S * Ln * B; i++) { int p = pat(i, k); sd[i] = kind == 0 ? p * 0.25f - 9 : kind == 1 ? (i % 3 - 1) * 1e15f : 1e-15f * (i + 1); }
  auto src = dump(m);
  std::vector<float> c(B), c0;
  for (int i = 0; i < B; i++) c[i] = co(i, k);
  c0 = c;
  hyper_mat r = L(absolute_radiometric_correction(m, c.data()));
  expect_dims(r, S, Ln, B, 4, "bip", "absolute dims");
  expect_wave(r, m->wavelength, B, "absolute wavelengths");
  for (int i = 0; i < Ln; i++) for (int j = 0; j < S; j++) for (int b = 0; b < B; b++) {
    size_t q = at(2, S, Ln, B, i, j, b);
    double w = (double)sd[q] * c0[b];
    if (!near_(((float *)r->data)[q], w, 1.2e-7, 1e-44)) hv->fail("absolute", "%d x %d x %d: line %d column %d band %d is %.9g, expected %.9g * %.9g", S, Ln, B, i, j, b, ((float *)r->data)[q], sd[q], c0[b]);
  }
  expect_dims(m, S, Ln, B, 4, "bip", "source dims");
  same_bytes(m->data, src.data(), src.size(), "source", "source cube");
  CHECK(!memcmp(c.data(), c0.data(), 4 * c.size()), "coefficients", "a coefficient changed");
  auto out = dump(r);
  memset(m->data, 0x55, nbytes(m)); m->wavelength[0] = -1;
  same_bytes(r->data, out.data(), out.size(), "shared", "result after the source changed");
  CHECK(r->wavelength[0] != -1, "shared", "result shares wavelengths");
  hv->state(hstate(r));
  delete_hyper_mat(m); delete_hyper_mat(r);
}
// one coefficient is one at a time, the others zero: exactly the samples that belong to it survive
static void single(int S, int Ln, int B) {
  hyper_mat m = mkcube(S, Ln, B, 12, "bip", 3), f = mkcube(S, Ln, B, 4, "bip", 3);
  for (int i = 0; i < S * Ln * B; i++) { ((unsigned short *)m->data)[i] = i + 1; ((float *)f->data)[i] = i + 1; }
  for (int q = 0; q < S * B; q++) {
    std::vector<float> c(S * B, 0.0f);
    c[q] = 1;
    hyper_mat r = L(relative_radiometric_correction(m, c.data()));
    for (int i = 0; i < S * Ln * B; i++) { int b = i % B, j = i / B % S; float w = b * S + j == q ? i + 1 : 0; CHECK(((float *)r->data)[i] == w, "relative", "coefficient %d: sample %d of %d x %d x %d is %g, expected %g", q, i, S, Ln, B, ((float *)r->data)[i], w); }
    delete_hyper_mat(r);
    if (q < B) {
      r = L(absolute_radiometric_correction(f, c.data()));
      for (int i = 0; i < S * Ln * B; i++) { float w = i % B == q ? i + 1 : 0; CHECK(((float *)r->data)[i] == w, "absolute", "coefficient %d: sample %d of %d x %d x %d is %g, expected %g", q, i, S, Ln, B, ((float *)r->data)[i], w); }
      delete_hyper_mat(r);
    }
  }
  hv->state(S * 10000 + Ln * 100 + B);
  delete_hyper_mat(m); delete_hyper_mat(f);
}
// every 16-bit value
static void values(int lo) {
  hyper_mat m = mkcube(64, 64, 1, 12, "bip", 0);
  for (float k : {0.1f, 1.0f, -3.3f, 255.0f}) {
    for (int i = 0; i < 4096; i++) ((unsigned short *)m->data)[i] = lo + i;
    std::vector<float> c(64, k);
    hyper_mat r = L(relative_radiometric_correction(m, c.data()));
    for (int i = 0; i < 4096; i++) CHECK(near_(((float *)r->data)[i], (double)(lo + i) * k, 1.2e-7, 0), "relative", "value %d times %g is %.9g", lo + i, k, ((float *)r->data)[i]);
    hv->state(hstate(r));
    delete_hyper_mat(r);
  }
  delete_hyper_mat(m);
}
// more than 2^31 samples: 4.3 GB that become 8.6 GB
static void huge(int S, int Ln, int B) {
  hv_huge(); hv_env.fill = 0;
  hyper_mat m = create_hyper_mat(S, Ln, B, 12, "bip");
  unsigned short *p = (unsigned short *)m->data;
  auto each = [&](auto f) { for (int i : {0, 1, Ln / 2, Ln - 2, Ln - 1}) for (int j : {0, 1, S / 2, S - 2, S - 1}) for (int k = 0; k < B; k++) f((size_t)i * S * B + (size_t)j * B + k, j, k, i + 3 * j + 7 * k + 1); };
  each([&](size_t o, int, int, int v) { p[o] = v; });
  std::vector<float> c((size_t)S * B);
  for (size_t i = 0; i < c.size(); i++) c[i] = i % 13 + 1;
  hyper_mat r = L(relative_radiometric_correction(m, c.data()));
  each([&](size_t o, int j, int k, int v) { CHECK(((float *)r->data)[o] == (float)((u16)v * (double)c[(size_t)k * S + j]), "huge-relative", "sample %zu of %d x %d x %d", o, Ln, S, B); });
  delete_hyper_mat(m);
  hyper_mat a = L(absolute_radiometric_correction(r, c.data()));
  each([&](size_t o, int j, int k, int v) { CHECK(((float *)a->data)[o] == (float)((u16)v * (double)c[(size_t)k * S + j] * c[k]), "huge-absolute", "sample %zu of %d x %d x %d", o, Ln, S, B); });
  hv->state(S);
  delete_hyper_mat(r); delete_hyper_mat(a);
}
static void explore(HV &h) {
  if (h.thorough) h.run([&] { huge(30011, 12007, 6); }, "corrections of 2161525266 samples");

  int N = h.thorough ? 11 : 8;
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N; B++) h.run([&] { for (int k = 0; k < 5; k++) for (int q = 0; q < 3; q++) { relative(S, Ln, B, k, q); absolute(S, Ln, B, k, q); } if (S <= 6 && Ln <= 6 && B <= 6) single(S, Ln, B); }, "%d x %d x %d", S, Ln, B);
  for (int e : {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 32767, 32768, 32769, 65535, 65536, 65537}) for (int k = 0; k < 3; k++) h.run([&] { relative(e, 2, 3, k, 0); relative(2, e, 3, k, 0); relative(2, 3, e, k, 1); absolute(e, 2, 3, k, 0); absolute(2, e, 3, k, 0); absolute(2, 3, e, k, 0); relative(1, 1, e, k, 0); relative(e, 1, 1, k, 0); relative(1, e, 1, k, 0); absolute(1, 1, e, k, 0); }, "edge %d coefficients %d", e, k);
  for (int v = 0; v < 65536; v += 4096) h.run([&] { values(v); }, "values from %d", v);
  h.run([&] { relative(700, 300, 100, 0, 0); absolute(300, 700, 100, 0, 0); }, "large cube");
}
int main(int c, char **v) { return hv_main(c, v, "C17", explore); }
