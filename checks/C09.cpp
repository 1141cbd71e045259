// C09: conversions for every value class, and the number parser for every short string.
#include "lib.h"

typedef hyper_mat (*Conv)(hyper_mat);
struct Q { const char *name; Conv f; int from, to; double lo, hi; };
static const Q QS[] = {
  {"uchar2short", hyper_mat_uchar2short, 1, 2, -32768, 32767}, {"uchar2int", hyper_mat_uchar2int, 1, 3, -2147483648.0, 2147483647.0}, {"uchar2float", hyper_mat_uchar2float, 1, 4, 0, 0}, {"uchar2ushort", hyper_mat_uchar2ushort, 1, 12, 0, 65535}, {"ushort2float", hyper_mat_ushort2float, 12, 4, 0, 0},
  {"float2char", hyper_mat_float2char, 4, 1, -128, 127}, {"float2int", hyper_mat_float2int, 4, 3, -2147483648.0, 2147483647.0}, {"float2short", hyper_mat_float2short, 4, 2, -32768, 32767}, {"float2ushort", hyper_mat_float2ushort, 4, 12, 0, 65535}, {"float2uint", hyper_mat_float2uint, 4, 13, 0, 4294967295.0}, {"float2uchar", hyper_mat_float2uchar, 4, 1, 0, 255}};
static const int NQ = sizeof QS / sizeof *QS;
// the two nearest representable values (they differ at a tie only)
static inline bool fits(double x, double got, double lo, double hi) {
  if (x <= lo) return got == lo;
  if (x >= hi) return got == hi;
  double d = fabs(got - x);
  return got == floor(got) && got >= lo && got <= hi && d <= 0.5;
}
static inline double result(const Q &q, const void *p, size_t i) { return q.to == 1 && q.lo < 0 ? (double)((signed char *)p)[i] : getv(p, q.to, i); }
static void values(const Q &q, const void *src, const void *dst, size_t n, const char *key) {
  if (q.from == 4) {
    const float *s = (const float *)src;
    for (size_t i = 0; i < n; i++) {
      if (std::isnan(s[i])) continue;
      double g = result(q, dst, i);
      if (!fits(s[i], g, q.lo, q.hi)) hv->fail(key, "%s: sample %zu of value %.9g became %.9g", q.name, i, s[i], g);
    }
  } else for (size_t i = 0; i < n; i++) {
    double g = getv(dst, q.to, i), w = getv(src, q.from, i);
    if (g != w) hv->fail(key, "%s: sample %zu of value %.9g became %.9g", q.name, i, w, g);
  }
}
static const float FV[] = {0, 0.25f, 0.5f, 0.75f, 1, 1.5f, 2.5f, 126.5f, 127, 127.5f, 128, 254.5f, 255, 255.5f, 256, 32766.5f, 32767, 32767.5f, 32768, 65534.5f, 65535, 65535.5f, 65536, 8388607.5f, 16777216, 2147483520.0f, 2147483648.0f, 2147483904.0f, 4294967040.0f, 4294967296.0f, 1e10f, 1e20f, 3.4e38f, 1e-30f, INFINITY};
static void shape(const Q &q, int S, int Ln, int B, int il, int fill) {
  hv_env.fill = fill;
  hyper_mat m = mkcube(S, Ln, B, q.from, ILV[il], S + Ln + B);
  size_t n = (size_t)S * Ln * B;
  if (q.from == 4) for (size_t i = 0; i < n; i++) ((float *)m->data)[i] = FV[(i * 5 + S) % 35] * (i % 3 == 1 ? -1 : 1);
  Bytes k = dump(m);
  std::vector<float> w(m->wavelength, m->wavelength + B);
  hyper_mat r = L(q.f(m));
  expect_dims(r, S, Ln, B, q.to, ILV[il], "dims");
  expect_wave(r, w.data(), B, "wave");
  CHECK(r != m && r->data != m->data, "shared", "the result shares memory with its source");
  values(q, k.data(), r->data, n, "shape-value");
  expect_dims(m, S, Ln, B, q.from, ILV[il], "src-dims");
  same_bytes(m->data, k.data(), k.size(), "src-data", "source");
  expect_wave(m, w.data(), B, "src-wave");
  hv->state(hstate(r));
  delete_hyper_mat(r); delete_hyper_mat(m);
}
static void image(int R, int C, int ch) {
  simple_mat m = mkimg(R, C, 4, ch, R + C);
  size_t n = (size_t)R * C * ch;
  for (size_t i = 0; i < n; i++) ((float *)m->data)[i] = FV[(i * 5 + R) % 35] * (i % 3 == 1 ? -1 : 1);
  Bytes k = dump(m);
  simple_mat r = L(simple_mat_float2uchar(m));
  expect_dims(r, R, C, 1, ch, "image-dims");
  values(QS[10], k.data(), r->data, n, "image-value");
  same_bytes(m->data, k.data(), k.size(), "image-src", "source image");
  hv->state(hstate(r));
  delete_simple_mat(r); delete_simple_mat(m);
}
// all source values of the integer types; for floats the patterns base, base+step, ...
static void sweep(const Q &q, u64 base, u64 step, u32 n) {
  hyper_mat m = create_hyper_mat(n, 1, 1, q.from, "bsq");
  for (u32 i = 0; i < n; i++) {
    u64 v = base + step * i;
    if (q.from == 1) ((u8 *)m->data)[i] = v; else if (q.from == 12) ((u16 *)m->data)[i] = v;
    else { u32 b = (u32)v; float f; memcpy(&f, &b, 4); if (std::isnan(f)) f = 0; ((float *)m->data)[i] = f; }
  }
  hyper_mat r = L(q.f(m));
  expect_dims(r, n, 1, 1, q.to, "bsq", "sweep-dims");
  values(q, m->data, r->data, n, "value");
  hv->state(hv_hash(r->data, 4096 < nbytes(r) ? 4096 : nbytes(r), base));
  if (q.f == hyper_mat_float2uchar) {
    simple_mat s = create_simple_mat(1, n, 4, 1);
    memcpy(s->data, m->data, 4 * (size_t)n);
    simple_mat t = L(simple_mat_float2uchar(s));
    values(q, s->data, t->data, n, "image-sweep");
    delete_simple_mat(s); delete_simple_mat(t);
  }
  delete_hyper_mat(r); delete_hyper_mat(m);
}
// integers and halves and their float neighbours
static void around(const Q &q, long from, long to) {
  std::vector<float> v;
  for (long i = from; i < to; i++) for (double h : {0.0, 0.25, 0.5, 0.75}) { float f = (float)(i + h); v.push_back(f); v.push_back(nextafterf(f, INFINITY)); v.push_back(nextafterf(f, -INFINITY)); }
  hyper_mat m = create_hyper_mat(1, (int)v.size(), 1, 4, "bip");
  memcpy(m->data, v.data(), 4 * v.size());
  hyper_mat r = L(q.f(m));
  values(q, m->data, r->data, v.size(), "around");
  hv->state(hv_hash(r->data, std::min(nbytes(r), (size_t)4096), from));
  delete_hyper_mat(r); delete_hyper_mat(m);
}
// more than 2^31 samples: zero except for marks
static void huge(const Q &q, int S, int Ln, int B) {
  size_t n = (size_t)S * Ln * B;
  int a = tsize(q.from), b = tsize(q.to);
  hv_huge((n * (a + b) * 5 / 4 >> 30) + 1); hv_env.fill = 0xA5;
  hyper_mat m = create_hyper_mat(S, Ln, B, q.from, "bil");
  auto each = [&](auto f) { for (size_t i = 0; i < n; i += i < 8 || i + 9 > n ? 1 : std::min((size_t)1000003, n - 8 - i)) f(i, (int)(i % 127 + 1)); };
  each([&](size_t i, int v) { putv(m->data, q.from, i, v); });
  hyper_mat r = L(q.f(m));
  expect_dims(r, S, Ln, B, q.to, "bil", "huge-dims");
  size_t marks = 0, seen = 0;
  each([&](size_t i, int v) { marks++; CHECK(result(q, r->data, i) == v, "huge", "%s: sample %zu of %zu became %.9g, expected %d", q.name, i, n, result(q, r->data, i), v); });
  if (b == 1) for (size_t i = 0; i < n; i++) seen += ((u8 *)r->data)[i] != 0; else if (b == 2) for (size_t i = 0; i < n; i++) seen += ((u16 *)r->data)[i] != 0; else for (size_t i = 0; i < n; i++) seen += ((u32 *)r->data)[i] != 0;
  CHECK(seen == marks, "huge-rest", "%s: %zu samples are not zero, expected %zu", q.name, seen, marks);
  hv->state(hv_mix(q.from, q.to));
  delete_hyper_mat(r);
  if (q.f == hyper_mat_float2uchar) {
    simple_mat s = create_simple_mat(1, 1, 4, 1);
    void *own = s->data;
    s->rows = Ln * B; s->cols = S / 2; s->channels = 2; s->data = m->data;
    simple_mat t = L(simple_mat_float2uchar(s));
    each([&](size_t i, int v) { CHECK(((u8 *)t->data)[i] == v, "huge-image", "sample %zu of %zu became %d, expected %d", i, n, ((u8 *)t->data)[i], v); });
    delete_simple_mat(t);
    s->data = own; delete_simple_mat(s);
  }
  delete_hyper_mat(m);
}
// ---- numbers ----
static int plen;  // characters of the longest number at the start
static bool number(const std::string &s) {
  size_t i = 0; int dig = 0;
  while (i < s.size() && s[i] == ' ') i++;
  if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
  while (i < s.size() && isdigit(s[i])) i++, dig++;
  if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) i++, dig++; }
  if (!dig) return false;
  plen = i;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { size_t j = i + 1; if (j < s.size() && (s[j] == '-' || s[j] == '+')) j++; if (j < s.size() && isdigit(s[j])) { while (j < s.size() && isdigit(s[j])) j++; plen = j; } }
  return true;
}
static void parse(const std::string &s) {
  if (!number(s)) return;
  double want = strtod(s.substr(0, plen).c_str(), NULL);
  float w = (float)want;
  std::vector<char> buf(s.begin(), s.end());
  buf.push_back(0);
  float g = L(hypercv_atof(buf.data()));
  CHECK(near_(g, w, 2e-6, 1e-42) || (std::isinf(w) && std::isinf(g) && (w > 0) == (g > 0)), "atof", "'%s' became %.9g, expected %.9g", s.c_str(), g, w);
  u32 b; memcpy(&b, &g, 4);
  hv->state(b);
}
static void parse_block(const char *alpha, int n, int len, int first, int second) {
  std::string s(len, ' ');
  int m = 1; for (int i = 2; i < len; i++) m *= n;
  s[0] = alpha[first]; if (len > 1) s[1] = alpha[second];
  for (int c = 0; c < m; c++) { int x = c; for (int i = 2; i < len; i++, x /= n) s[i] = alpha[x % n]; parse(s); }
}
static void explore(HV &h) {
  int N = h.thorough ? 7 : 4;
  for (auto &q : QS) {
    for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N; B++) for (int il = 0; il < 3; il++) for (int fill : {0xA5, 0}) h.run([&] { shape(q, S, Ln, B, il, fill); }, "%s %d x %d x %d %s fill %d", q.name, S, Ln, B, ILV[il], fill);
    for (int e : {16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 100003}) for (int ax = 0; ax < 3; ax++) { int d[3] = {2, 3, 2}; d[ax] = e; h.run([&] { shape(q, d[0], d[1], d[2], e % 3, 0xA5); }, "%s %d x %d x %d", q.name, d[0], d[1], d[2]); }
    h.run([&] { shape(q, 4099, 2053, 2, 1, 0); }, "%s large", q.name);
    if (q.from == 1) h.run([&] { sweep(q, 0, 1, 256); }, "%s every value", q.name);
    if (q.from == 12) h.run([&] { sweep(q, 0, 1, 65536); }, "%s every value", q.name);
    if (q.from == 4) {
      for (long i = -70000; i < 70000; i += 2000) h.run([&] { around(q, i, i + 2000); }, "%s integers from %ld", q.name, i);
      for (long c : {8388608L, 16777216L, 2147483648L, 4294967296L, 1L << 40, -8388608L, -2147483648L, -4294967296L}) h.run([&] { around(q, c - 1000, c + 1000); }, "%s integers around %ld", q.name, c);
      if (h.thorough) for (u64 b = 0; b < 4096; b++) h.run([&] { sweep(q, b << 20, 1, 1 << 20); }, "%s every float from pattern %llx", q.name, b << 20);
      else for (int lowb : {0, 1, 31, 32, 33, 63}) for (u64 b = 0; b < 256; b++) h.run([&] { sweep(q, (b << 24) + lowb, 64, 1 << 18); }, "%s floats from pattern %llx step 64", q.name, (b << 24) + lowb);
    }
  }
  for (int R = 1; R <= 12; R++) for (int C = 1; C <= 12; C++) for (int ch : {1, 2, 3, 4}) h.run([&] { image(R, C, ch); }, "image %d x %d channels %d", R, C, ch);
  for (int e : {64, 255, 256, 257, 4096, 65536, 65537}) for (int ch : {1, 3}) { h.run([&] { image(e, 3, ch); }, "image %d x 3 channels %d", e, ch); h.run([&] { image(2, e, ch); }, "image 2 x %d channels %d", e, ch); }
  for (auto &q : QS) if (h.thorough || tsize(q.from) + tsize(q.to) <= 5) h.run([&] { huge(q, 40010, 17903, 3); }, "%s of 2148897090 samples", q.name);
  static const char A1[] = "019.-+eE x", A2[] = "0123456789.-";
  for (int len = 1; len <= (h.thorough ? 8 : 6); len++) for (int a = 0; a < 10; a++) for (int b = 0; b < (len > 1 ? 10 : 1); b++) h.run([&] { parse_block(A1, 10, len, a, b); }, "numbers of %d characters starting '%c%c'", len, A1[a], A1[b]);
  for (int len = 1; len <= (h.thorough ? 6 : 5); len++) for (int a = 0; a < 12; a++) for (int b = 0; b < (len > 1 ? 12 : 1); b++) h.run([&] { parse_block(A2, 12, len, a, b); }, "decimals of %d characters starting '%c%c'", len, A2[a], A2[b]);
  for (int z = 0; z <= (h.thorough ? 120 : 60); z++) h.run([&] { for (int e = -(h.thorough ? 120 : 60); e <= 120; e++) for (const char *d : {"1", "5", "99", "123456789"}) for (int f = 0; f < 4; f++) {
    if (fabs((double)e + (f < 2 ? -z : z)) > 60) continue;
    std::string s = f < 2 ? (f ? "." : "-0.") + std::string(z, '0') + d : d + std::string(z, '0') + (f == 3 ? "." : ".000");
    if (e) s += (z % 2 ? "e" : "E") + std::to_string(e);
    parse(s);
  } }, "numbers with %d zeros", z);
  for (int i = 0; i < 2000; i++) h.run([&] { char b[80]; double v = (i * 7919 % 100003) * pow(10, i % 23 - 11) * (i % 2 ? -1 : 1); for (const char *f : {"%f", "%.9g", "%e", "%.3f", "   %g", "%.12f abc", "%+E,", "%030.5f"}) { snprintf(b, sizeof b, f, v); parse(b); } }, "printed number %d", i);
}
int main(int c, char **v) { return hv_main(c, v, "C09", explore); }
