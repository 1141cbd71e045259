// C28: the C++ cube type against an index model, and against the C interface.
#define HV_CXX
#include "lib.h"
typedef hypercv::HyMat HM;
static const int FM[3] = {HYPERCV_BSQ, HYPERCV_BIL, HYPERCV_BIP};
// what a cube holds: bytes of every sample by (line, column, band), and wavelengths
struct Model {
  int S = 0, Ln = 0, B = 0, t = 0, f = 0;
  Bytes v;
  std::vector<float> w;
  bool empty() const { return S == 0; }
};
static size_t mi(const Model &m, int i, int j, int k) { return (((size_t)i * m.S + j) * m.B + k) * tsize(m.t); }
static Model mkmodel(int S, int Ln, int B, int t, int f, int salt) {
  Model m; m.S = S; m.Ln = Ln; m.B = B; m.t = t; m.f = f;
  m.v.resize((size_t)S * Ln * B * tsize(t)); fillpat(m.v.data(), m.v.size(), salt);
  for (int k = 0; k < B; k++) m.w.push_back(400.5f + 3.25f * k + salt * 0.125f);
  return m;
}
static Bytes layout(const Model &m, int f) {
  Bytes r(m.v.size()); int z = tsize(m.t);
  for (int i = 0; i < m.Ln; i++) for (int j = 0; j < m.S; j++) for (int k = 0; k < m.B; k++) memcpy(&r[at(f, m.S, m.Ln, m.B, i, j, k) * z], &m.v[mi(m, i, j, k)], z);
  return r;
}
static Model cut(const Model &m, int r0, int c0, int b0, int r1, int c1, int b1) {
  Model d; d.S = c1 - c0; d.Ln = r1 - r0; d.B = b1 - b0; d.t = m.t; d.f = m.f;
  int z = tsize(m.t);
  d.v.resize((size_t)d.S * d.Ln * d.B * z);
  for (int i = 0; i < d.Ln; i++) for (int j = 0; j < d.S; j++) for (int k = 0; k < d.B; k++) memcpy(&d.v[mi(d, i, j, k)], &m.v[mi(m, i + r0, j + c0, k + b0)], z);
  d.w.assign(m.w.begin() + b0, m.w.begin() + b1);
  return d;
}
static void expect(HM &m, const Model &k, const char *key, const char *what) {
  if (k.empty()) {
    CHECK(L(m.empty()) != 0, key, "%s is not empty", what);
    CHECK(m.data == NULL && m.wavelength == NULL, key, "%s is empty but holds memory", what);
    return;
  }
  CHECK(L(m.empty()) == 0, key, "%s is empty", what);
  CHECK(m.samples == k.S && m.lines == k.Ln && m.bands == k.B && m.dataType == k.t && m.format == FM[k.f], key, "%s is %d x %d x %d type %d format %d, expected %d x %d x %d type %d format %d", what, m.samples, m.lines, m.bands, m.dataType, m.format, k.S, k.Ln, k.B, k.t, FM[k.f]);
  CHECK(memcmp(m.interleave, ILV[k.f], 3) == 0, key, "%s: interleave is %.3s, expected %s", what, m.interleave, ILV[k.f]);
  CHECK(m.elemSize == tsize(k.t), key, "%s: element size is %d, expected %d", what, m.elemSize, tsize(k.t));
  CHECK((size_t)m.dataSize == k.v.size(), key, "%s: data size is %ld, expected %zu", what, m.dataSize, k.v.size());
  Bytes e = layout(k, k.f);
  same_bytes(m.data, e.data(), e.size(), key, what);
  for (int b = 0; b < k.B; b++) CHECK(memcmp(&m.wavelength[b], &k.w[b], 4) == 0, key, "%s: wavelength of band %d is %g, expected %g", what, b + 1, m.wavelength[b], k.w[b]);
}
static void put(HM &m, const Model &k) {
  Bytes e = layout(k, k.f);
  L(m.CopyData(e.data()));
  L(m.CopyWaveLength((float *)k.w.data()));
}
static u64 mstate(const Model &k) { int d[5] = {k.S, k.Ln, k.B, k.t, k.f}; return hv_hash(k.v.data(), k.v.size(), hv_hash(k.w.data(), 4 * k.w.size(), hv_hash(d, sizeof d))); }
// the C interface on the same cube
static hyper_mat cmat(const Model &k) {
  hyper_mat m = create_hyper_mat(k.S, k.Ln, k.B, k.t, ILV[k.f]);
  Bytes e = layout(k, k.f);
  memcpy(m->data, e.data(), e.size());
  for (int b = 0; b < k.B; b++) m->wavelength[b] = k.w[b];
  return m;
}
static void same_c(HM &m, hyper_mat c, const char *key) {
  CHECK(c->samples == m.samples && c->lines == m.lines && c->bands == m.bands && c->data_type == m.dataType && memcmp(c->interleave, m.interleave, 3) == 0, key, "the C interface gives another shape, type or layout");
  same_bytes(m.data, c->data, nbytes(c), key, "C++ against C result");
  for (int b = 0; b < c->bands; b++) CHECK(memcmp(&m.wavelength[b], &c->wavelength[b], 4) == 0, key, "C++ against C result: wavelength of band %d is %g, expected %g", b + 1, m.wavelength[b], c->wavelength[b]);
}
typedef HM (*Conv)(HM &);
static HM convert(HM &m, int from, int to) {
  static const Conv F[3][3] = {{hypercv::bip2bsq, hypercv::bsq2bil, hypercv::bsq2bip}, {hypercv::bil2bsq, hypercv::bip2bil, hypercv::bil2bip}, {hypercv::bip2bsq, hypercv::bip2bil, hypercv::bsq2bip}};
  return F[from][to](m);
}
static void creation(int S, int Ln, int B, int t, int f) {
  long live = hv_env.live;
  Model z = mkmodel(S, Ln, B, t, f, 0);
  std::fill(z.v.begin(), z.v.end(), 0); std::fill(z.w.begin(), z.w.end(), 0.0f);
  Model k = mkmodel(S, Ln, B, t, f, 3);
  for (int way = 0; way < 9; way++) {
    hv_env.fill = way % 2 ? 0xA5 : 0x5A;
    HM m;
    CHECK(L(m.empty()), "new", "a new mat is not empty");
    bool owns = false;
    if (way == 0) m = HM(S, Ln, B, t, FM[f]);
    if (way == 1) L(m.create(S, Ln, B, t, FM[f]));
    if (way == 2) { m.samples = S; m.lines = Ln; m.bands = B; m.dataType = t; m.format = FM[f]; L(m.create()); }
    if (way == 3) { L(m.create(3, 2, 4, 5, FM[(f + 1) % 3])); L(m.create(S, Ln, B, t, FM[f])); }
    if (way == 4) { L(m.create(S, Ln, B, t, FM[f])); L(m.release()); L(m.create(S, Ln, B, t, FM[f])); }
    if (way >= 5) {
      owns = true;
      void *d = hv_malloc(k.v.size()); Bytes e = layout(k, f); memcpy(d, e.data(), e.size());
      float *w = (float *)hv_malloc(4 * (size_t)B); memcpy(w, k.w.data(), 4 * (size_t)B);
      if (way == 5) m = HM(S, Ln, B, t, FM[f], d, w);
      if (way == 6) L(m.create(S, Ln, B, t, FM[f], d, w));
      if (way == 7) { hv_free(w); w = NULL; m = HM(S, Ln, B, t, FM[f], d); }
      if (way == 8) { L(m.create(2, 2, 2, 1, FM[f])); hv_free(w); w = NULL; L(m.create(S, Ln, B, t, FM[f], d)); }
      CHECK(m.data == d, "create-data", "the mat does not hold the data it was created with");
      if (w) CHECK(m.wavelength == w, "create-data", "the mat does not hold the wavelengths it was created with");
    }
    Model x = owns ? k : z;
    if (way >= 7) x.w = z.w;
    expect(m, x, "create", "created mat");
    if (!owns && f == 0 && way == 1) { HM d(S, Ln, B, t, HYPERCV_BSQ), e; L(e.create(S, Ln, B, t)); expect(e, z, "create-default", "mat of the default layout"); L(d.release()); L(e.release()); }
    hv->state(mstate(x) + way);
    L(m.release());
    expect(m, Model(), "release", "released mat");
    L(m.release());
    expect(m, Model(), "release", "mat released twice");
    HM c = L(m.copy());
    expect(c, Model(), "copy-empty", "copy of an empty mat");
    CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live);
  }
}
static void conversions(int S, int Ln, int B, int t, int f) {
  long live = hv_env.live;
  hv_env.fill = 0xA5;
  Model k = mkmodel(S, Ln, B, t, f, 1);
  HM m(S, Ln, B, t, FM[f]);
  put(m, k);
  expect(m, k, "put", "filled mat");
  hyper_mat c = cmat(k);
  for (int g = 0; g < 3; g++) {
    Model kg = k; kg.f = g;
    hyper_mat cg = hyper_mat_copy(c);
    static void (*const IN[3])(hyper_mat) = {convert2bsq, convert2bil, convert2bip};
    if (g != f) IN[g](cg);
    hyper_mat cr = cg;
    {  // in place
      HM n = L(m.copy());
      L(n.convertTo(FM[g]));
      expect(n, kg, "convertTo", "converted mat");
      same_c(n, cr, "convertTo-c");
      L(n.convertTo(FM[f]));
      expect(n, k, "convert-back", "mat converted there and back");
      hv->state(mstate(kg));
      L(n.release());
    }
    if (!(f == 1 && g == 1)) {
      HM n = f == g && f == 1 ? HM() : L(convert(m, f, g));
      expect(n, kg, "conversion", "conversion result");
      expect(m, k, "conversion-src", "source of a conversion");
      CHECK(n.data != m.data && n.wavelength != m.wavelength, "conversion-shared", "the result of a conversion shares memory with its source");
      same_c(n, cr, "conversion-c");
      L(n.release());
    } else for (Conv q : {(Conv)hypercv::bsq2bil, (Conv)hypercv::bip2bil}) {
      HM n = L(q(m));
      expect(n, kg, "conversion", "conversion to the layout it has");
      CHECK(n.data != m.data && n.wavelength != m.wavelength, "conversion-shared", "the result of a conversion shares memory with its source");
      L(n.release());
    }
    delete_hyper_mat(cg);
  }
  delete_hyper_mat(c);
  L(m.release());
  CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live);
}
static void ranges(int S, int Ln, int B, int t, int f, int r0, int r1, bool corners) {
  long live = hv_env.live;
  hv_env.fill = 0xA5;
  Model k = mkmodel(S, Ln, B, t, f, 2);
  HM m(S, Ln, B, t, FM[f]);
  put(m, k);
  hyper_mat c = cmat(k);
  for (int c0 = 0; c0 < S; c0++) for (int c1 = c0 + 1; c1 <= S; c1++) for (int b0 = 0; b0 < B; b0++) for (int b1 = b0 + 1; b1 <= B; b1++) {
    if (corners) { auto in = [](int a, int b, int n) { return (a == 0 || a == n / 2) && (b == n || b == n - 1); }; if (!in(c0, c1, S) || !in(b0, b1, B)) continue; }
    HM r = L(m.range(r0, c0, b0, r1, c1, b1));
    Model kr = cut(k, r0, c0, b0, r1, c1, b1);
    expect(r, kr, "range", "range");
    CHECK(r.data != m.data && r.wavelength != m.wavelength, "range-shared", "a range shares memory with its source");
    hyper_mat cr = hyper_mat_get_range(c, r0, c0, b0, r1, c1, b1);
    same_c(r, cr, "range-c");
    delete_hyper_mat(cr);
    hv->state(mstate(kr));
    L(r.release());
  }
  expect(m, k, "range-src", "source of ranges");
  delete_hyper_mat(c);
  L(m.release());
  CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live);
}
static void copies(int S, int Ln, int B, int t, int f) {
  long live = hv_env.live;
  hv_env.fill = 0xA5;
  Model k = mkmodel(S, Ln, B, t, f, 4), k2 = mkmodel(S, Ln, B, t, f, 5);
  HM m(S, Ln, B, t, FM[f]);
  put(m, k);
  HM n = L(m.copy());
  expect(n, k, "copy", "copy");
  CHECK(n.data != m.data && n.wavelength != m.wavelength, "copy-shared", "a copy shares memory with its source");
  put(m, k2);
  expect(n, k, "copy-shared", "copy after its source changed");
  HM o = L(n.copy());
  L(n.release());
  expect(o, k, "copy-shared", "copy of a copy after release");
  expect(m, k2, "copy-shared", "source after its copy was released");
  // partial copies: exactly the given bytes change
  Bytes all = layout(k2, f);
  size_t N = all.size();
  Bytes src(N + 8, 0x3C);
  for (size_t n : {(size_t)1, (size_t)tsize(t), N / 2, N - 1, N}) if (n > 0) {
    L(m.CopyData(src.data(), n));
    memcpy(all.data(), src.data(), n);
    same_bytes(m.data, all.data(), N, "copy-data", "mat after a partial copy of data");
    std::fill(src.begin(), src.end(), (u8)(0x40 + n));
  }
  L(m.CopyData(NULL)); L(m.CopyData(NULL, 5)); L(m.CopyWaveLength(NULL)); L(m.CopyWaveLength(NULL, 1));
  same_bytes(m.data, all.data(), N, "copy-null", "mat after copying from NULL");
  std::vector<float> w(k2.w), s(B);
  for (int n = 1; n <= B; n++) {
    for (int q = 0; q < B; q++) s[q] = n * 100 + q;
    L(m.CopyWaveLength(s.data(), n));
    for (int q = 0; q < n; q++) w[q] = s[q];
    CHECK(memcmp(m.wavelength, w.data(), 4 * (size_t)B) == 0, "copy-wave", "wavelengths after a partial copy of %d", n);
  }
  same_bytes(m.data, all.data(), N, "copy-wave", "data after copying wavelengths");
  hv->state(mstate(k));
  L(m.release()); L(o.release());
  CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live);
}
// every sequence of operations on two mats
static const int NOP = 14;
static void seq(int t, int depth, long code) {
  long live = hv_env.live;
  HM m[2]; Model k[2];
  hv_env.fill = 0xA5;
  u64 st = 0;
  for (int d = 0; d < depth; d++, code /= NOP) {
    int op = code % NOP;
    int salt = 10 + d;
    switch (op) {
      case 0: L(m[0].create(2, 3, 2, t, HYPERCV_BSQ)); k[0] = mkmodel(2, 3, 2, t, 0, salt); put(m[0], k[0]); break;
      case 1: L(m[0].create(3, 2, 4, t, HYPERCV_BIP)); k[0] = mkmodel(3, 2, 4, t, 2, salt); put(m[0], k[0]); break;
      case 2: case 3: case 4: if (k[0].empty()) continue; L(m[0].convertTo(FM[op - 2])); k[0].f = op - 2; break;
      case 5: L(m[1].release()); m[1] = L(m[0].copy()); k[1] = k[0]; if (k[0].empty()) k[1] = Model(); break;
      case 6: std::swap(m[0], m[1]); std::swap(k[0], k[1]); break;
      case 7: L(m[0].release()); k[0] = Model(); break;
      case 8: if (k[0].empty() || k[0].Ln < 2 || k[0].B < 2) continue; { HM r = L(m[0].range(1, 0, 1, k[0].Ln, k[0].S, k[0].B)); L(m[1].release()); m[1] = r; k[1] = cut(k[0], 1, 0, 1, k[0].Ln, k[0].S, k[0].B); } break;
      case 9: if (k[0].empty()) continue; { Model n = mkmodel(k[0].S, k[0].Ln, k[0].B, t, k[0].f, salt); Bytes e = layout(n, n.f); L(m[0].CopyData(e.data())); k[0].v = n.v; } break;
      case 10: if (k[0].empty()) continue; { Model n = mkmodel(1, 1, k[0].B, 1, 0, salt); L(m[0].CopyWaveLength(n.w.data())); k[0].w = n.w; } break;
      case 11: case 12: case 13: {
        int g = op - 11;
        if (k[0].empty() || (k[0].f == 1 && g == 1)) continue;
        HM r = L(convert(m[0], k[0].f, g)); L(m[1].release()); m[1] = r; k[1] = k[0]; k[1].f = g; break;
      }
    }
    expect(m[0], k[0], "sequence", "first mat"); expect(m[1], k[1], "sequence", "second mat");
    st = hv_mix(mstate(k[0]), mstate(k[1]));
    hv->state(st);
    CHECK(hv_env.live - live == 2 * (!k[0].empty() + !k[1].empty()), "leak", "%ld blocks are held by %d mats", hv_env.live - live, !k[0].empty() + !k[1].empty());
  }
  L(m[0].release()); L(m[1].release());
  CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live);
}
static void huge(int S, int Ln, int B, int t, bool all) {
  hv_huge(); hv_env.fill = 0;
  int z = tsize(t);
  for (int f = 0; f < 3; f++) for (int g = 0; g < 3; g++) if (f != g && (all || g == (f + 1) % 3)) {
    HM m(S, Ln, B, t, FM[f]);
    auto val = [&](int i, int j, int k) { return (u8)(i * 7 + j * 3 + k + 1); };
    int i0 = Ln - 3, j0 = S - 4, k0 = B - 1;
    for (int i = i0; i < Ln; i++) for (int j = j0; j < S; j++) for (int k = k0; k < B; k++) memset((u8 *)m.data + at(f, S, Ln, B, i, j, k) * z, val(i, j, k), z);
    if (g == (f + 1) % 3) {
      HM r = L(m.range(i0, j0, k0, Ln, S, B));
      for (int i = i0; i < Ln; i++) for (int j = j0; j < S; j++) for (int k = k0; k < B; k++) for (int b = 0; b < z; b++)
        CHECK(((u8 *)r.data)[at(f, S - j0, Ln - i0, B - k0, i - i0, j - j0, k - k0) * z + b] == val(i, j, k), "huge-range", "%s: sample %d %d %d of the range", ILV[f], i, j, k);
      L(r.release());
    }
    if (g == 1) { L(m.convertTo(FM[g])); } else { HM r = L(convert(m, f, g)); L(m.release()); m = r; }
    for (int i = i0; i < Ln; i++) for (int j = j0; j < S; j++) for (int k = k0; k < B; k++) for (int b = 0; b < z; b++)
      CHECK(((u8 *)m.data)[at(g, S, Ln, B, i, j, k) * z + b] == val(i, j, k), "huge-conversion", "%s to %s: sample %d %d %d", ILV[f], ILV[g], i, j, k);
    L(m.release());
    hv->state(f * 3 + g);
  }
}
static void explore(HV &h) {
  int N = h.thorough ? 5 : 4;
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N; B++) for (int t : ALLT) for (int f = 0; f < 3; f++) {
    h.run([&] { creation(S, Ln, B, t, f); }, "creation of %d x %d x %d type %d %s", S, Ln, B, t, ILV[f]);
    h.run([&] { conversions(S, Ln, B, t, f); }, "conversions of %d x %d x %d type %d %s", S, Ln, B, t, ILV[f]);
    h.run([&] { copies(S, Ln, B, t, f); }, "copies of %d x %d x %d type %d %s", S, Ln, B, t, ILV[f]);
    for (int r0 = 0; r0 < Ln; r0++) for (int r1 = r0 + 1; r1 <= Ln; r1++)
      h.run([&] { ranges(S, Ln, B, t, f, r0, r1, false); }, "all ranges of lines %d to %d of %d x %d x %d type %d %s", r0, r1, S, Ln, B, t, ILV[f]);
  }
  for (int e : {31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, 32769, 65536, 65537}) for (int ax = 0; ax < 3; ax++) for (int t : ALLT) for (int f = 0; f < 3; f++) {
    int d[3] = {3, 2, 2}; d[ax] = e;
    h.run([&] { creation(d[0], d[1], d[2], t, f); }, "creation of %d x %d x %d type %d %s", d[0], d[1], d[2], t, ILV[f]);
    h.run([&] { conversions(d[0], d[1], d[2], t, f); }, "conversions of %d x %d x %d type %d %s", d[0], d[1], d[2], t, ILV[f]);
    if (e <= 1025) h.run([&] { copies(d[0], d[1], d[2], t, f); }, "copies of %d x %d x %d type %d %s", d[0], d[1], d[2], t, ILV[f]);
    if (e <= 1025) for (int r0 : {0, d[1] / 2}) for (int r1 : {d[1] - 1, d[1]}) if (r0 < r1)
      h.run([&] { ranges(d[0], d[1], d[2], t, f, r0, r1, true); }, "corner ranges of lines %d to %d of %d x %d x %d type %d %s", r0, r1, d[0], d[1], d[2], t, ILV[f]);
  }
  for (int S : {17, 40}) for (int Ln : {9, 33}) for (int B : {5, 37}) for (int t : ALLT) for (int f = 0; f < 3; f++) {
    h.run([&] { conversions(S, Ln, B, t, f); }, "conversions of %d x %d x %d type %d %s", S, Ln, B, t, ILV[f]);
    h.run([&] { ranges(S, Ln, B, t, f, 1, Ln - 2, true); }, "corner ranges of lines %d to %d of %d x %d x %d type %d %s", 1, Ln - 2, S, Ln, B, t, ILV[f]);
  }
  int D = h.thorough ? 5 : 4;
  long n = 1;
  for (int d = 0; d < D; d++) n *= NOP;
  for (int t : {1, 12, 4, 5}) for (long c = 0; c < n; c++) h.run([&] { seq(t, D, c); }, "sequence %ld of %d operations type %d", c, D, t);
  h.run([&] { huge(20011, 5003, 3, 5, h.thorough); }, "a cube of 2.4 GB");
  if (h.thorough) h.run([&] { huge(37011, 13003, 9, 1, true); }, "a cube of more than 2^32 bytes");
  static const int LC[][3] = {{203, 107, 31}, {31, 257, 130}, {65, 37, 259}, {513, 300, 5}};
  for (auto &c : LC) for (int t : ALLT) for (int f = 0; f < 3; f++) {
    h.run([&] { conversions(c[0], c[1], c[2], t, f); creation(c[0], c[1], c[2], t, f); copies(c[0], c[1], c[2], t, f); }, "conversions and copies of %d x %d x %d type %d %s", c[0], c[1], c[2], t, ILV[f]);
    h.run([&] { ranges(c[0], c[1], c[2], t, f, 1, c[1] - 2, true); }, "corner ranges of %d x %d x %d type %d %s", c[0], c[1], c[2], t, ILV[f]);
  }
}
int main(int c, char **v) { return hv_main(c, v, "C28", explore); }
