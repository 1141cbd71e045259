// lib.h - the library under test as a user includes it, plus small helpers.
#ifndef HV_LIB_H
#define HV_LIB_H
#include "hv.h"
#ifdef HV_CXX
#include "gdal_priv.h"
#include "cpl_conv.h"
#endif
// the functions the headers expand inline go through the same seams as the library
#define malloc hv_malloc
#define calloc hv_calloc
#define realloc hv_realloc
#define free hv_free
#define exit hv_exit
extern "C" FILE *hv_fopen(const char *, const char *);
#define fopen hv_fopen
extern "C" {
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#include "algorithm/hypercv_algorithm.h"
#ifdef HV_GUI
#include "highgui/draw.h"
#endif
// exported functions that no header declares
float cal_edge_signal_energy(simple_mat mat);
long int hypercv_factorial(int n);
hyper_mat hyper_mat_float2uint(hyper_mat f_mat);
}
#ifdef HV_CXX
using namespace std;
#include "cxx_include/hypercv_core.hpp"
#endif
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef exit
#undef fopen

// Every object the library creates is sealed: the padding around its header, samples and wavelengths
// belongs to nobody, so that an access there is reported although it lies in the same block.
extern "C" {
simple_mat __real_create_simple_mat(int, int, int, int) __attribute__((weak));
simple_mat __real_create_simple_mat_with_data(int, int, int, int, void *) __attribute__((weak));
hyper_mat __real_create_hyper_mat(const int, const int, const int, const int, const char *) __attribute__((weak));
hyper_mat __real_create_hyper_mat_with_data(const int, const int, const int, const int, const char *, void *, float *) __attribute__((weak));
static inline simple_mat hv_sealed(simple_mat m) { if (m) { HvSpan s[2] = {{m, sizeof *m}, {m->data, (size_t)m->rows * m->cols * m->channels * get_elemsize(m->data_type)}}; hv_seal(m, s, 2); } return m; }
static inline hyper_mat hv_sealed_h(hyper_mat m) { if (m) { HvSpan s[3] = {{m, sizeof *m}, {m->data, (size_t)m->samples * m->lines * m->bands * get_elemsize(m->data_type)}, {m->wavelength, 4 * (size_t)m->bands}}; hv_seal(m, s, 3); } return m; }
simple_mat __wrap_create_simple_mat(int a, int b, int t, int c) { return hv_sealed(__real_create_simple_mat(a, b, t, c)); }
simple_mat __wrap_create_simple_mat_with_data(int a, int b, int t, int c, void *d) { return hv_sealed(__real_create_simple_mat_with_data(a, b, t, c, d)); }
hyper_mat __wrap_create_hyper_mat(const int a, const int b, const int c, const int t, const char *i) { return hv_sealed_h(__real_create_hyper_mat(a, b, c, t, i)); }
hyper_mat __wrap_create_hyper_mat_with_data(const int a, const int b, const int c, const int t, const char *i, void *d, float *w) { return hv_sealed_h(__real_create_hyper_mat_with_data(a, b, c, t, i, d, w)); }
}

static const int ALLT[9] = {1, 2, 3, 4, 5, 12, 13, 14, 15};
// shapes large in both directions
static const int BIG[5][2] = {{257, 300}, {301, 256}, {513, 1025}, {1031, 1027}, {2053, 515}};
static const char *const ILV[3] = {"bsq", "bil", "bip"};
static inline int tsize(int t) { switch (t) { case 1: return 1; case 2: case 12: return 2; case 3: case 4: case 13: return 4; case 5: case 14: case 15: return 8; } return 0; }
static inline size_t at(int il, int S, int Ln, int B, int i, int j, int k) {  // sample of line i, column j, band k
  if (il == 0) return ((size_t)k * Ln + i) * S + j;
  if (il == 1) return ((size_t)i * B + k) * S + j;
  return ((size_t)i * S + j) * B + k;
}
// byte pattern that tells neighbouring bytes and elements apart
static inline u8 pat(size_t i, u32 salt = 0) { u64 x = (i + 1) * 0x9E3779B97F4A7C15ull + salt * 0xC2B2AE3D27D4EB4Full; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return (u8)(x >> 56); }
static inline void fillpat(void *p, size_t n, u32 salt = 0) { for (size_t i = 0; i < n; i++) ((u8 *)p)[i] = pat(i, salt); }
static inline hyper_mat mkcube(int S, int Ln, int B, int t, const char *il, u32 salt = 0) {
  hyper_mat m = create_hyper_mat(S, Ln, B, t, il);
  CHECK(m != NULL, "create", "create_hyper_mat returned NULL");
  fillpat(m->data, (size_t)S * Ln * B * tsize(t), salt);
  for (int k = 0; k < B; k++) m->wavelength[k] = 400.5f + 3.25f * k;
  return m;
}
static inline simple_mat mkimg(int R, int C, int t, int ch, u32 salt = 0) {
  simple_mat m = create_simple_mat(R, C, t, ch);
  CHECK(m != NULL, "create", "create_simple_mat returned NULL");
  fillpat(m->data, (size_t)R * C * ch * tsize(t), salt);
  return m;
}
static inline Bytes bytes(const void *p, size_t n) { return Bytes((const u8 *)p, (const u8 *)p + n); }
static inline size_t nbytes(hyper_mat m) { return (size_t)m->samples * m->lines * m->bands * tsize(m->data_type); }
static inline size_t nbytes(simple_mat m) { return (size_t)m->rows * m->cols * m->channels * tsize(m->data_type); }
static inline Bytes dump(hyper_mat m) { return bytes(m->data, nbytes(m)); }
static inline Bytes dump(simple_mat m) { return bytes(m->data, nbytes(m)); }
static inline bool ilis(hyper_mat m, const char *s) { return memcmp(m->interleave, s, 3) == 0; }
static inline void same_bytes(const void *got, const void *want, size_t n, const char *key, const char *what) {
  const u8 *g = (const u8 *)got, *w = (const u8 *)want;
  if (n == 0 || memcmp(g, w, n) == 0) return;
  size_t i = 0;
  while (g[i] == w[i]) i++;
  hv->fail(key, "%s: byte %zu of %zu is %d, expected %d", what, i, n, g[i], w[i]);
}
static inline void expect_dims(hyper_mat m, int S, int Ln, int B, int t, const char *il, const char *key) {
  CHECK(m != NULL, key, "result is NULL");
  CHECK(m->samples == S && m->lines == Ln && m->bands == B && m->data_type == t && ilis(m, il), key, "result is %d x %d x %d type %d %.3s, expected %d x %d x %d type %d %s", m->samples, m->lines, m->bands, m->data_type, m->interleave, S, Ln, B, t, il);
}
static inline void expect_dims(simple_mat m, int R, int C, int t, int ch, const char *key) {
  CHECK(m != NULL, key, "result is NULL");
  CHECK(m->rows == R && m->cols == C && m->data_type == t && m->channels == ch, key, "result is %d x %d type %d channels %d, expected %d x %d type %d channels %d", m->rows, m->cols, m->data_type, m->channels, R, C, t, ch);
  CHECK(m->elem_size == tsize(t), key, "the size of an element of type %d is said to be %d", t, m->elem_size);
}
static inline void expect_wave(hyper_mat m, const float *w, int B, const char *key) {
  CHECK(m->wavelength != NULL, key, "wavelengths are missing");
  for (int k = 0; k < B; k++) CHECK(memcmp(&m->wavelength[k], &w[k], 4) == 0, key, "wavelength of band %d is %g, expected %g", k + 1, m->wavelength[k], w[k]);
}
static inline u64 hstate(hyper_mat m) { int d[5] = {m->samples, m->lines, m->bands, m->data_type, m->interleave[1] * 256 + m->interleave[2]}; return hv_hash(m->data, nbytes(m), hv_hash(m->wavelength, 4 * (size_t)m->bands, hv_hash(d, sizeof d))); }
static inline u64 hstate(simple_mat m) { int d[4] = {m->rows, m->cols, m->data_type, m->channels}; return hv_hash(m->data, nbytes(m), hv_hash(d, sizeof d)); }
// double value of element i
static inline double getv(const void *p, int t, size_t i) {
  switch (t) { case 1: return ((u8 *)p)[i]; case 2: return ((short *)p)[i]; case 3: return ((int *)p)[i]; case 4: return ((float *)p)[i]; case 5: return ((double *)p)[i]; case 12: return ((u16 *)p)[i]; case 13: return ((u32 *)p)[i]; case 14: return (double)((long long *)p)[i]; case 15: return (double)((u64 *)p)[i]; }
  return 0;
}
static inline void putv(void *p, int t, size_t i, double v) {
  switch (t) { case 1: ((u8 *)p)[i] = (u8)v; break; case 2: ((short *)p)[i] = (short)v; break; case 3: ((int *)p)[i] = (int)v; break; case 4: ((float *)p)[i] = (float)v; break; case 5: ((double *)p)[i] = v; break; case 12: ((u16 *)p)[i] = (u16)v; break; case 13: ((u32 *)p)[i] = (u32)v; break; case 14: ((long long *)p)[i] = (long long)v; break; case 15: ((u64 *)p)[i] = (u64)v; break; }
}
static inline bool near_(double a, double b, double rel, double abs_) { if (a == b) return true; if (std::isnan(a) || std::isnan(b)) return false; return fabs(a - b) <= abs_ + rel * std::max(fabs(a), fabs(b)); }
// a deterministic stream for filling large inputs (never for choosing what to explore)
struct Lcg { u64 s; Lcg(u64 x) : s(x * 2654435761u + 12345) {} u32 next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return (u32)(s >> 33); } u32 operator()(u32 n) { return next() % n; } };
// the sparse content of an object of gigabytes: zero except for marks
static inline u8 mark_at(u64 i, u64 n) { return i < 16 || i + 16 >= n || i % 65521 == 0 ? (u8)(1 + (i * 2654435761u >> 13) % 255) : 0; }
static inline void mark_fill(u64 off, char *b, size_t n, u64 size) {
  memset(b, 0, n);
  auto put = [&](u64 i) { if (i >= off && i < off + n) b[i - off] = (char)mark_at(i, size); };
  for (u64 i = 0; i < 16; i++) { put(i); put(size - 16 + i); }
  for (u64 i = (off + 65520) / 65521 * 65521; i < off + n; i += 65521) put(i);
}
static inline void mark_check(u64 off, const char *b, size_t n, u64 size, const char *key, const char *what) {
  static std::vector<char> k;
  for (size_t p = 0; p < n; p += 1 << 20) {
    size_t c = std::min(n - p, (size_t)1 << 20);
    k.resize(c);
    mark_fill(off + p, k.data(), c, size);
    if (memcmp(k.data(), b + p, c)) for (size_t i = 0; i < c; i++) if (k[i] != b[p + i]) { hv->fail(key, "%s: byte %llu of %llu is %d and not %d", what, (unsigned long long)(off + p + i), (unsigned long long)size, (u8)b[p + i], (u8)k[i]); return; }
  }
}
static inline void zero_check(const void *p, size_t n, const char *key, const char *what) {
  const u8 *b = (const u8 *)p;
  if (n && (b[0] || memcmp(b, b + 1, n - 1))) for (size_t i = 0; i < n; i++) if (b[i]) { hv->fail(key, "%s: byte %zu of %zu is %d", what, i, n, b[i]); return; }
}
#endif
