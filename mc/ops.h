// ops.h - every public operation of the C interface in one uniform form, for the checks that
// quantify over operations: memory discipline, independence of history, unmodified inputs.
#ifndef HV_OPS_H
#define HV_OPS_H
#include "lib.h"

struct Ctx {
  int dstfill = 0;       // what destinations hold before the call
  bool snap = true;      // keep snapshots of inputs
  Bytes out;             // everything the operation delivered
  struct In { const void *p; Bytes was; std::string name; };
  std::vector<In> in;
  std::vector<simple_mat> sm; std::vector<hyper_mat> hm; std::vector<void *> mem;
  int n = 0;
  int special = 0;       // 1: extreme values and numbers that are none, 2: all zero, 3: all the largest, 4: all the smallest
  int id = 0;            // keeps the files of two contexts apart
  void watch(const void *p, size_t sz, const char *nm) { if (snap) in.push_back({p, bytes(p, sz), nm}); }
  void own(simple_mat m) { sm.push_back(m); }
  void own(hyper_mat m) { hm.push_back(m); }
  void fill(void *p, int t, size_t n, u32 salt, bool pos) {
    static const double F[] = {NAN, INFINITY, -INFINITY, 3.4e38, -3.4e38, 1e-45, -0.0, 1e-39}, I[] = {0, 1, -1, 1e30, -1e30};
    if (special > 1) { for (size_t i = 0; i < n; i++) putx(p, t, i, special == 2 ? 0 : special == 3 ? 1e300 : -1e300); return; }
    fill0(p, t, n, salt, pos);
    if (special == 1) for (size_t i = 0; i < n; i++) { int v = pat(i, salt + 3); if (v % 3 == 0 || n == 1) putx(p, t, i, t == 4 || t == 5 ? F[v / 3 % 8] : I[v / 3 % 5]); }
  }
  // the nearest value of the type
  static void putx(void *p, int t, size_t i, double v) {
    switch (t) {
      case 1: ((u8 *)p)[i] = v > 255 ? 255 : v < 0 ? 0 : v; break;
      case 2: ((short *)p)[i] = v > 32767 ? 32767 : v < -32768 ? -32768 : v; break;
      case 3: ((int *)p)[i] = v > 2147483647.0 ? 2147483647 : v < -2147483648.0 ? -2147483647 - 1 : v; break;
      case 4: ((float *)p)[i] = v > 1e200 && v < 1e301 ? 3.4028235e38f : v < -1e200 && v > -1e301 ? -3.4028235e38f : (float)v; break;
      case 5: ((double *)p)[i] = v; break;
      case 12: ((unsigned short *)p)[i] = v > 65535 ? 65535 : v < 0 ? 0 : v; break;
      case 13: ((u32 *)p)[i] = v > 4294967295.0 ? 4294967295u : v < 0 ? 0 : v; break;
      case 14: ((long long *)p)[i] = v > 9e18 ? 9223372036854775807LL : v < -9e18 ? -9223372036854775807LL - 1 : (long long)v; break;
      case 15: ((u64 *)p)[i] = v > 1e19 ? ~0ull : v < 0 ? 0 : (u64)v; break;
    }
  }
  static void fill0(void *p, int t, size_t n, u32 salt, bool pos) {
    for (size_t i = 0; i < n; i++) {
      int v = pat(i, salt);
      if (t == 4 || t == 5) putv(p, t, i, pos ? 1 + v * 0.75 : v * 1.5 - 120);
      else if (t == 1) ((u8 *)p)[i] = v;
      else putv(p, t, i, (t == 2 || t == 3 || t == 14) && !pos ? v * 100 - 9000 : v * 200);
    }
  }
  void watch_img(simple_mat m, const char *nm) { watch(m, sizeof *m, nm); watch(m->data, nbytes(m), nm); }
  // input image; mode 0 any values, 1 positive, 2 zeros and ones
  simple_mat img(int R, int C, int t, int ch = 1, int mode = 0) {
    simple_mat m = create_simple_mat(R, C, t, ch);
    n++;
    fill(m->data, t, (size_t)R * C * ch, 100 + n, mode != 0);
    if (mode == 2) for (size_t i = 0; i < (size_t)R * C * ch; i++) putv(m->data, t, i, pat(i, n + 5) % 3 != 0);
    own(m); watch_img(m, "input image");
    return m;
  }
  hyper_mat cube(int S, int Ln, int B, int t, int il, int mode = 0, bool watched = true) {
    hyper_mat m = create_hyper_mat(S, Ln, B, t, ILV[il]);
    n++;
    fill(m->data, t, (size_t)S * Ln * B, 200 + n, mode != 0);
    for (int k = 0; k < B; k++) m->wavelength[k] = 400 + 10.25f * k;
    own(m);
    if (watched) { watch(m, sizeof *m, "input cube"); watch(m->data, nbytes(m), "input cube samples"); watch(m->wavelength, 4 * (size_t)B, "input cube wavelengths"); }
    return m;
  }
  simple_mat dst(int R, int C, int t, int ch = 1) {
    simple_mat m = create_simple_mat(R, C, t, ch);
    if (dstfill == 1) memset(m->data, 0xFF, nbytes(m)); else if (dstfill == 2) memset(m->data, 0x3C, nbytes(m)); else if (dstfill == 3) fillpat(m->data, nbytes(m), 9);
    own(m);
    return m;
  }
  hyper_mat hdst(int S, int Ln, int B, int t, int il) {
    hyper_mat m = create_hyper_mat(S, Ln, B, t, ILV[il]);
    if (dstfill == 1) memset(m->data, 0xFF, nbytes(m)); else if (dstfill == 2) memset(m->data, 0x3C, nbytes(m)); else if (dstfill == 3) fillpat(m->data, nbytes(m), 9);
    own(m);
    return m;
  }
  template <class T> T *arr(size_t k, const std::function<T(size_t)> &f, const char *nm = "input array") { T *p = (T *)hv_sure_malloc(k * sizeof(T)); for (size_t i = 0; i < k; i++) p[i] = f(i); if constexpr (std::is_floating_point<T>::value) if (special) for (size_t i = 0; i < k; i += 2) p[i] = -p[i]; mem.push_back(p); watch(p, k * sizeof(T), nm); return p; }
  template <class T> T *res(size_t k) { T *p = (T *)hv_sure_malloc(k * sizeof(T)); static const u8 F[4] = {0, 0xFF, 0x3C, 0x81}; memset(p, F[dstfill & 3], k * sizeof(T)); mem.push_back(p); return p; }
  void put(const void *p, size_t k) { out.insert(out.end(), (const u8 *)p, (const u8 *)p + k); }
  void put(double v) { put(&v, 8); }
  void put(simple_mat m) { if (!m) { put(-77.0); return; } int d[4] = {m->rows, m->cols, m->data_type, m->channels}; put(d, sizeof d); put(m->data, nbytes(m)); }
  void put(hyper_mat m) { if (!m) { put(-78.0); return; } int d[4] = {m->samples, m->lines, m->bands, m->data_type}; put(d, sizeof d); put(m->interleave, 3); put(m->data, nbytes(m)); put(m->wavelength, 4 * (size_t)m->bands); }
  template <class M> void got(M m) { put(m); if (m) own(m); }  // a new object the caller must delete
  void file(const std::string &p) { Bytes b; if (hv_read_file(p, b)) put(b.data(), b.size()); else put(-79.0); }
  std::string path(const char *nm) { return hv->tmp + "/" + (id ? std::to_string(id) : "") + nm; }
  const In *changed() { for (auto &i : in) if (memcmp(i.p, i.was.data(), i.was.size())) return &i; return NULL; }
  void release() {
    for (auto m : sm) delete_simple_mat(m);
    for (auto m : hm) delete_hyper_mat(m);
    for (auto p : mem) hv_free(p);
    sm.clear(); hm.clear(); mem.clear(); in.clear();
  }
};
struct Op {
  std::string name;
  int dims;      // 2: rows, columns; 3: samples, lines, bands; 1: a length
  int lo;        // smallest row/column/line count it takes
  bool full;     // destinations are written completely
  std::function<void(Ctx &, int, int, int)> f;
};
static std::vector<Op> &ops() {
  static std::vector<Op> v;
  if (!v.empty()) return v;
  auto I = [&](std::string n, int lo, std::function<void(Ctx &, int, int)> f, bool full = true) { v.push_back({n, 2, lo, full, [f](Ctx &c, int a, int b, int) { f(c, a, b); }}); };
  auto H = [&](std::string n, std::function<void(Ctx &, int, int, int)> f, bool full = true) { v.push_back({n, 3, 1, full, f}); };
  auto A = [&](std::string n, std::function<void(Ctx &, int)> f) { v.push_back({n, 1, 1, true, [f](Ctx &c, int a, int, int) { f(c, a); }}); };
  std::string T;
  // ---- images ----
  for (int t : ALLT) for (int ch : {1, 3}) {
    T = " type " + std::to_string(t) + " channels " + std::to_string(ch);
    I("create image" + T, 1, [=](Ctx &c, int r, int k) { c.got(L(create_simple_mat(r, k, t, ch))); });
    I("create image with data" + T, 1, [=](Ctx &c, int r, int k) { size_t n = (size_t)r * k * ch * tsize(t); void *p = hv_sure_malloc(n); fillpat(p, n, 3); c.got(L(create_simple_mat_with_data(r, k, t, ch, p))); });
    I("copy image" + T, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, t, ch); c.got(L(simple_mat_copy(s))); });
    I("transpose image" + T, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, t, ch), d = c.dst(k, r, t, ch); L(simple_mat_transport(d, s)); c.put(d); });
    for (int code : {-1, 0, 1}) I("flip " + std::to_string(code) + T, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, t, ch), d = c.dst(r, k, t, ch); L(simple_mat_flip(s, d, code)); c.put(d); });
    I("read raw image" + T, 1, [=](Ctx &c, int r, int k) { size_t n = (size_t)r * k * ch * tsize(t); Bytes b(n); fillpat(b.data(), n, 6); std::string p = c.path("raw"); hv_write_file(p, b.data(), n); c.got(L(smread(p.c_str(), r, k, t, ch))); });
    I("read short raw image" + T, 1, [=](Ctx &c, int r, int k) { size_t n = (size_t)r * k * ch * tsize(t) - 1; Bytes b(n + 1); fillpat(b.data(), n, 6); std::string p = c.path("raw"); hv_write_file(p, b.data(), n); c.got(L(smread(p.c_str(), r, k, t, ch))); });
  }
  for (int t : {1, 2, 3, 4, 12}) {
    T = " type " + std::to_string(t);
    I("mean" + T, 1, [=](Ctx &c, int r, int k) { c.put(L(simple_mat_mean(c.img(r, k, t)))); });
    I("variance" + T, 1, [=](Ctx &c, int r, int k) { c.put(L(simple_mat_variance(c.img(r, k, t)))); });
  }
  for (int ch : {1, 3}) {
    T = " channels " + std::to_string(ch);
    I("contrast" + T, 2, [=](Ctx &c, int r, int k) { c.put(L(simple_mat_contrast_ratio(c.img(r, k, 1, ch)))); });
    I("histogram" + T, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch); int *h = c.res<int>(256); L(simple_mat_grayscale_statistics(s, h)); c.put(h, 1024); });
    I("entropy" + T, 1, [=](Ctx &c, int r, int k) { c.put(L(simple_mat_entropy(c.img(r, k, 1, ch)))); });
    I("write bmp" + T, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch); std::string p = c.path("w.bmp"); unlink(p.c_str()); L(smwrite_bmp(p.c_str(), s)); c.file(p); });
    I("read bmp" + T, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch); std::string p = c.path("w.bmp"); L(smwrite_bmp(p.c_str(), s)); c.got(L(smread_bmp(p.c_str()))); });
    I("add uchar" + T, 1, [=](Ctx &c, int r, int k) { simple_mat a = c.img(r, k, 1, ch), b = c.img(r + 1, k, 1, ch), d = c.dst(r, k, 1, ch); L(simple_mat_addition_uchar(a, b, d)); c.put(d); });
    I("add float" + T, 1, [=](Ctx &c, int r, int k) { simple_mat a = c.img(r, k + 2, 4, ch), b = c.img(r, k, 4, ch), d = c.dst(r, k, 4, ch); L(simple_mat_addition_float(a, b, d)); c.put(d); });
    I("log" + T, 1, [=](Ctx &c, int r, int k) { simple_mat a = c.img(r, k, 4, ch, 1), d = c.dst(r, k, 4, ch); L(simple_mat_log(a, d)); c.put(d); });
    I("float image to uchar" + T, 1, [=](Ctx &c, int r, int k) { c.got(L(simple_mat_float2uchar(c.img(r, k, 4, ch)))); });
    for (int b = 0; b < 5; b++) {
      std::string BT = T + " border " + std::to_string(b);
      for (int kr : {1, 2, 3}) for (int kc : {1, 3, 4}) I("filter " + std::to_string(kr) + " by " + std::to_string(kc) + BT, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch), d = c.dst(r, k, 4, ch); float *w = c.arr<float>(kr * kc, [](size_t i) { return (float)((int)(i * 7 % 11) - 5); }); L(hypercv_filter2D(s, d, w, kr, kc, b)); c.put(d); });
      for (int kw : {1, 3, 5, 9}) I("gaussian blur " + std::to_string(kw) + BT, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch), d = c.dst(r, k, 1, ch); L(hypercv_gaussian_blur(s, d, kw, kw == 9 ? 3 : kw, kw == 5 ? 0 : 1.2, 0, b)); c.put(d); });
      I("gaussian blur of two deviations" + BT, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch), d = c.dst(r, k, 1, ch); L(hypercv_gaussian_blur(s, d, 3, 3, 1.5, 0.7, b)); c.put(d); });
      I("gaussian blur with kernels" + BT, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch), d = c.dst(r, k, 1, ch), x = c.img(1, 3, 4, 1, 1), y = c.img(1, 5, 4, 1, 1); L(hypercv_gaussian_blur_with_kernel(s, d, x, y, b)); c.put(d); });
      for (int w = 0; w < 4; w++) I("border " + std::to_string(w) + BT, 1, [=](Ctx &c, int r, int k) { static const int W[4][4] = {{0, 0, 0, 0}, {1, 2, 3, 1}, {0, 5, 0, 2}, {3, 0, 4, 0}}; c.got(L(hypercv_copy_make_border(c.img(r, k, 1, ch), W[w][0], W[w][1], W[w][2], W[w][3], b, 77))); });
      if (ch == 1) {
        for (int ks : {1, 2}) I("laplacian " + std::to_string(ks) + BT, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 1); L(hypercv_laplacian(s, d, ks, b)); c.put(d); });
        I("sobel" + BT, 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 1); L(hypercv_sobel(s, d, 100, b)); c.put(d); });
      }
    }
    I("pyramid down" + T, 2, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch), d = c.dst((r + 1) / 2, (k + 1) / 2, 1, ch); L(hypercv_pyramid_down(s, d)); c.put(d); });
    I("pyramid up" + T, 2, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, ch), d = c.dst(r * 2, k * 2, 1, ch); L(hypercv_pyramid_up(s, d)); c.put(d); });
    I("draw points" + T, 1, [=](Ctx &c, int r, int k) {
      simple_mat s = c.img(r, k, 1, ch), d = c.dst(r, k, 1, ch);
      POINT *p = c.arr<POINT>(4, [=](size_t i) { POINT q; q.x = (int)i * 2 - 1; q.y = r - (int)i; return q; });
      RGB_data col; col.r = 200; col.g = 100; col.b = 50;
      for (int sz : {0, 1, 3}) { L(draw_POINT(s, d, p, 4, col, sz)); c.put(d); } });
    I("draw lines" + T, 1, [=](Ctx &c, int r, int k) {
      simple_mat s = c.img(r, k, 1, ch), d = c.dst(r, k, 1, ch);
      RGB_data col; col.r = 200; col.g = 100; col.b = 50;
      static const int E[][4] = {{0, 0, 5, 5}, {-3, 2, 9, -1}, {2, 7, 2, -4}, {0, 0, 0, 0}, {5, 1, -2, 1}};
      for (auto &e : E) for (int th : {1, 3}) { POINT a, b; a.x = e[0]; a.y = e[1]; b.x = e[2]; b.y = e[3]; L(draw_line(s, d, a, b, col, th)); c.put(d); } });
    for (int kind : {1, 2, 3}) I("k-means " + std::to_string(kind) + T, 1, [=](Ctx &c, int r, int k) {
      simple_mat s = c.img(r, k, 1, ch, 2);
      POINT *p = NULL; POINT z; z.x = z.y = c.dstfill; for (int i = 0; i < kind; i++) vector_push_back(p, z);
      hv_env.rnd = {1, 3, 0, 2, 5}; hv_env.rnd_pos = 0;
      L(hypercv_k_means(s, p, kind, 0)); for (int i = 0; i < kind; i++) { c.put(p[i].x); c.put(p[i].y); } vector_free(p); });
  }
  for (int mth : {0, 1, 2}) I("rgb to gray " + std::to_string(mth), 1, [=](Ctx &c, int r, int k) { c.got(L(sm_rgb2gray(c.img(r, k, 1, 3), mth))); });
  I("gray to rgb", 1, [=](Ctx &c, int r, int k) { c.got(L(sm_gray2rgb(c.img(r, k, 1)))); });
  I("binary to rgb", 1, [=](Ctx &c, int r, int k) { c.got(L(sm_binary2rgb(c.img(r, k, 1, 1, 2)))); });
  I("bgr to rgb", 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, 3), d = c.dst(r, k, 1, 3); L(sm_bgr2rgb(s, d)); c.put(d); });
  for (int m = 0; m < 5; m++) I("threshold mode " + std::to_string(m), 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 1); L(hypercv_threshold(s, d, 120, 200, m)); c.put(d); });
  I("threshold by otsu", 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 1); L(hypercv_threshold(s, d, 0, 255, 8)); c.put(d); });
  I("otsu level", 1, [=](Ctx &c, int r, int k) { c.put(L(otsuThreshold(c.img(r, k, 1)))); });
  for (int w = 1; w <= 3; w++) for (int h = 1; h <= 3; h++) for (int op = 0; op < 6; op++) I("morphology " + std::to_string(op) + " kernel " + std::to_string(w) + " x " + std::to_string(h), 3, [=](Ctx &c, int r, int k) {
    simple_mat s = c.img(r, k, 1, 1, 2), d = c.dst(r, k, 1);
    u8 *kd = c.arr<u8>(w * h, [](size_t i) { return (u8)(i % 4 != 1); }, "kernel");
    S_2D q = op % 2 ? L(create_2D_struct(w, h)) : L(create_2D_struct_with_data(w, h, kd));
    if (op == 0 || op == 1) L(hypercv_corrosion(s, d, q)); else if (op == 2 || op == 3) L(hypercv_expend(s, d, q)); else if (op == 4) L(hypercv_open(s, d, q, 2)); else L(hypercv_close(s, d, q, 2));
    c.put(d); delete_S_2D(q); });
  for (int sz : {1, 3, 5}) I("median " + std::to_string(sz), 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 1); L(hypercv_medianblur(s, d, sz)); c.put(d); });
  for (int sz : {1, 2, 3, 4}) I("mean blur " + std::to_string(sz), 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 1); L(hypercv_meanblur(s, d, sz)); c.put(d); });
  I("integral", 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 3); L(hypercv_integral(s, d)); c.put(d); });
  I("dft uchar", 1, [=](Ctx &c, int r, int k) { if (r * k > 400) return; simple_mat s = c.img(r, k, 1), a = c.dst(r, k, 4), b = c.dst(r, k, 4); L(hypercv_dft(s, a, b)); c.put(a); c.put(b); });
  I("dft ushort", 1, [=](Ctx &c, int r, int k) { if (r * k > 400) return; simple_mat s = c.img(r, k, 12), a = c.dst(r, k, 4), b = c.dst(r, k, 4); L(hypercv_dft(s, a, b)); c.put(a); c.put(b); });
  I("dft spectrum", 1, [=](Ctx &c, int r, int k) { if (r * k > 400 || r * k < 3) return; simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 1); L(hypercv_dft_frespectrum(s, d)); c.put(d); });
  I("inverse dft uchar", 1, [=](Ctx &c, int r, int k) { if (r * k > 400) return; simple_mat a = c.img(r, k, 4), b = c.img(r, k, 4), d = c.dst(r, k, 1); L(hypercv_idft(a, b, d)); c.put(d); });
  I("inverse dft ushort", 1, [=](Ctx &c, int r, int k) { if (r * k > 400) return; simple_mat a = c.img(r, k, 4), b = c.img(r, k, 4), d = c.dst(r, k, 12); L(hypercv_idft(a, b, d)); c.put(d); });
  I("magnitude", 1, [=](Ctx &c, int r, int k) { simple_mat a = c.img(r, k, 4), b = c.img(r, k, 4), d = c.dst(r, k, 4); L(hypercv_magnitude(a, b, d)); c.put(d); });
  I("equalize", 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1), d = c.dst(r, k, 1); L(HisEqualization(s, d)); c.put(d); });
  for (int nt : {1, 2, 4, 32}) for (int t : {1, 4}) I("normalize " + std::to_string(nt) + " type " + std::to_string(t), 1, [=](Ctx &c, int r, int k) { if (r * k < 2) return; simple_mat s = c.img(r, k, t), d = c.dst(r, k, t); L(hypercv_normalize(s, d, 200, 10, nt)); c.put(d); });
  I("edge energy", 1, [=](Ctx &c, int r, int k) { c.put(L(cal_edge_signal_energy(c.img(r, k, 1)))); });
  I("moments", 1, [=](Ctx &c, int r, int k) { simple_mat s = c.img(r, k, 1, 1, 1); double *h = c.res<double>(7); L(calc_hu_moment(h, s)); c.put(h, 56); });
  I("match shapes", 3, [=](Ctx &c, int r, int k) { simple_mat a = c.img(r, k, 1, 1, 1), b = c.img(r + 1, k, 1, 1, 1); c.put(L(hypercv_match_shapes(a, b))); });
  // ---- cubes ----
  static hyper_mat (*const CV[6])(hyper_mat) = {bsq2bil, bsq2bip, bil2bsq, bil2bip, bip2bsq, bip2bil};
  static void (*const CI[3])(hyper_mat) = {convert2bsq, convert2bil, convert2bip};
  for (int t : ALLT) {
    T = " type " + std::to_string(t);
    for (int q = 0; q < 6; q++) for (int same = 0; same < 2; same++) {
      if (same && t != 4) continue;
      static const int to[6] = {1, 2, 0, 2, 0, 1};
      H("convert " + std::to_string(q) + (same ? " of a converted cube" : "") + T, [=](Ctx &c, int s, int l, int b) { c.got(L(CV[q](c.cube(s, l, b, t, same ? to[q] : q / 2)))); });
    }
    for (int il = 0; il < 3; il++) {
      std::string TI = T + " " + ILV[il];
      for (int q = 0; q < 3; q++) H("convert in place to " + std::string(ILV[q]) + TI, [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, t, il, 0, false); L(CI[q](m)); c.put(m); });
      H("create cube" + TI, [=](Ctx &c, int s, int l, int b) { c.got(L(create_hyper_mat(s, l, b, t, ILV[il]))); });
      H("create cube with data" + TI, [=](Ctx &c, int s, int l, int b) { size_t n = (size_t)s * l * b * tsize(t); u8 *d = c.arr<u8>(n, [](size_t i) { return pat(i, 8); }); float *w = c.arr<float>(b, [](size_t i) { return 5.5f * i; }); c.got(L(create_hyper_mat_with_data(s, l, b, t, ILV[il], d, w))); });
      H("copy cube" + TI, [=](Ctx &c, int s, int l, int b) { c.got(L(hyper_mat_copy(c.cube(s, l, b, t, il)))); });
      H("copy cube into another" + TI, [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, t, il), d = c.hdst(s, l, b, t, (il + 1) % 3); L(hyper_mat_copy_to(m, d)); c.put(d); });
      H("range" + TI, [=](Ctx &c, int s, int l, int b) { c.got(L(hyper_mat_get_range(c.cube(s, l, b, t, il), l / 2, s / 2, b / 2, l, s, b))); });
      H("range from the start" + TI, [=](Ctx &c, int s, int l, int b) { c.got(L(hyper_mat_get_range(c.cube(s, l, b, t, il), 0, 0, 0, (l + 1) / 2, (s + 1) / 2, (b + 1) / 2))); });
      H("range inside" + TI, [=](Ctx &c, int s, int l, int b) { c.got(L(hyper_mat_get_range(c.cube(s, l, b, t, il), l / 3, s / 3, b / 3, (2 * l + 2) / 3, (2 * s + 2) / 3, (2 * b + 2) / 3))); });
      H("reshape" + TI, [=](Ctx &c, int s, int l, int b) { c.got(L(reshape_hypermat_2_simplemat(c.cube(s, l, b, t, il), b, s * l))); });
      H("splice" + TI, [=](Ctx &c, int s, int l, int b) { hyper_mat p = c.cube(s, l, b, t, il), m = c.cube(s, l + 1, b + 1, t, il, 0, false); L(hyper_mat_splicing(m, p, s)); c.put(m); });
      H("save and load" + TI, [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, t, il); std::string p = c.path("cube.img"); unlink(p.c_str()); unlink((p + ".hdr").c_str()); L(hmsave(p.c_str(), m)); c.file(p); c.file(p + ".hdr"); c.got(L(hmread_with_hdr(p.c_str(), (p + ".hdr").c_str()))); });
      H("load with size" + TI, [=](Ctx &c, int s, int l, int b) { size_t n = (size_t)s * l * b * tsize(t); Bytes d(n); fillpat(d.data(), n, 2); std::string p = c.path("sz.img"); hv_write_file(p, d.data(), n); c.got(L(hmread_with_size(p.c_str(), s, l, b, t, ILV[il]))); });
      H("load short with size" + TI, [=](Ctx &c, int s, int l, int b) { size_t n = (size_t)s * l * b * tsize(t); Bytes d(n); fillpat(d.data(), n, 2); std::string p = c.path("sz.img"); hv_write_file(p, d.data(), n - 1); c.got(L(hmread_with_size(p.c_str(), s, l, b, t, ILV[il]))); });
    }
    H("band to image" + T, [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, t, 0); simple_mat d = c.dst(l, s, t); L(hyper_mat_2_simple_mat(m, d, b)); c.put(d); });
    H("image to band" + T, [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, t, 0, 0, false); simple_mat d = c.img(l, s, t); L(simple_mat_2_hyper_mat(m, d, b)); c.put(m); });
    H("transpose bands" + T, [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, t, 0), d = c.hdst(l, s, b, t, 0); L(hyper_mat_transport(d, m)); c.put(d); });
    for (double a : {0.0, 30.0, 90.0, 135.0, 270.0, -45.0}) H("rotate " + std::to_string((int)a) + T, [=](Ctx &c, int s, int l, int b) { c.got(L(hyper_mat_rotate(c.cube(s, l, b, t, 2), a))); });
    H("rotate a bsq cube" + T, [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, t, 0, 0, false); c.got(L(hyper_mat_rotate(m, 60))); c.put(m); });
  }
  H("copy wavelengths", [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, 1, 0), d = c.hdst(l, s, b, 4, 1); for (int i = 0; i < b; i++) d->wavelength[i] = c.dstfill; memset(d->data, 0, nbytes(d)); L(hyper_mat_copy_wavelength(m, d)); c.put(d); });
  H("show info", [=](Ctx &c, int s, int l, int b) { L(hyper_mat_showinfo(c.cube(s, l, b, 1, 0))); });
  H("write header", [=](Ctx &c, int s, int l, int b) { float *w = c.arr<float>(b, [](size_t i) { return 400.5f + i; }); std::string p = c.path("h.img"); unlink((p + ".hdr").c_str()); L(writehdr(p.c_str(), s, l, b, 12, "bil", w)); c.file(p + ".hdr"); });
  struct DC { const char *n; hyper_mat (*f)(hyper_mat); int t; };
  static const DC dc[] = {{"uchar2short", hyper_mat_uchar2short, 1}, {"uchar2int", hyper_mat_uchar2int, 1}, {"uchar2float", hyper_mat_uchar2float, 1}, {"uchar2ushort", hyper_mat_uchar2ushort, 1}, {"float2char", hyper_mat_float2char, 4}, {"float2int", hyper_mat_float2int, 4}, {"float2short", hyper_mat_float2short, 4}, {"float2ushort", hyper_mat_float2ushort, 4}, {"ushort2float", hyper_mat_ushort2float, 12}, {"float2uchar", hyper_mat_float2uchar, 4}};
  for (auto &d : dc) for (int il = 0; il < 3; il++) { auto f = d.f; int t = d.t; H(std::string(d.n) + " " + ILV[il], [=](Ctx &c, int s, int l, int b) { c.got(L(f(c.cube(s, l, b, t, il)))); }); }
  H("mean spectrum", [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, 4, 2); simple_mat d = c.dst(l, s, 4); L(hyper_mat_mean(m, d)); c.put(d); });
  H("match spectrum", [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, 4, 2, 1); float *w = c.arr<float>(b, [](size_t i) { return 3.f + i; }); c.got(L(spectrum_SAM_match(m, w, 0.4f))); });
  H("relative correction", [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, 12, 2); float *w = c.arr<float>((size_t)s * b, [](size_t i) { return 0.5f + i; }); c.got(L(relative_radiometric_correction(m, w))); });
  H("absolute correction", [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, 4, 2); float *w = c.arr<float>(b, [](size_t i) { return 0.5f + i; }); c.got(L(absolute_radiometric_correction(m, w))); });
  H("linear stretch", [=](Ctx &c, int s, int l, int b) { hyper_mat m = c.cube(s, l, b, 4, 0), d = c.hdst(s, l, b, 1, 0); L(hyper_mat_linear_tension(m, d)); c.put(d); });
  for (int il = 0; il < 3; il++) H(std::string("target detection ") + ILV[il], [=](Ctx &c, int s, int l, int b) { if (b > 12) return; hyper_mat m = c.cube(s, l, b, 4, il, 1, il == 0); float *w = c.arr<float>(b, [](size_t i) { return 1.f + i * i; }); c.got(L(hyper_mat_cem(m, w))); });
  H("principal components", [=](Ctx &c, int s, int l, int b) { if (s * l <= b || b > 6) return; hyper_mat m = c.cube(s, l, b, 4, 2, 1), d = c.hdst(s, l, b, 4, 2); L(hyper_mat_pca(m, d, 20)); c.put(d); });
  // ---- arrays and matrices ----
  auto fl = [](size_t i) { return (float)(pat(i, 31) % 19) - 9 + 0.5f; };
#define MATOPS(T, N) \
  A("product " #N, [=](Ctx &c, int n) { int m = n % 5 + 1, k = n % 4 + 1; T *x = c.arr<T>(m * n, [](size_t i) { return (T)(pat(i, 1) % 100); }), *y = c.arr<T>(n * k, [](size_t i) { return (T)(pat(i, 2) % 50); }), *z = c.res<T>(m * k); L(MulMatrix_##N(x, y, z, m, n, k)); c.put(z, m * k * sizeof(T)); }); \
  A("transpose " #N, [=](Ctx &c, int n) { int m = n % 5 + 1; T *x = c.arr<T>(m * n, [](size_t i) { return (T)pat(i, 1); }), *z = c.res<T>(m * n); L(TransMatrix_##N(x, z, m, n)); c.put(z, m * n * sizeof(T)); });
#define COROPS(T, N) A("correlation " #N, [=](Ctx &c, int n) { int l = n % 3 + 1, m = n % 4 + 1; T *x = c.arr<T>(l * n, [](size_t i) { return (T)(pat(i, 1) % 10); }), *y = c.arr<T>(n * m, [](size_t i) { return (T)(pat(i, 2) % 9); }), *z = c.res<T>(l * m); L(correlation_matrix_##N(z, x, y, l, n, m)); c.put(z, l * m * sizeof(T)); });
#define MEANOPS(T, N) A("mean " #N, [=](Ctx &c, int n) { T *x = c.arr<T>(n, [](size_t i) { return (T)pat(i, 1); }); c.put(L(mean_##N(x, n))); });
  MATOPS(char, char) MATOPS(unsigned char, uchar) MATOPS(short, short) MATOPS(unsigned short, ushort) MATOPS(int, int) MATOPS(unsigned int, uint) MATOPS(float, float) MATOPS(double, double)
  COROPS(char, char) COROPS(unsigned char, uchar) COROPS(short, short) COROPS(unsigned short, ushort) COROPS(int, int) COROPS(unsigned int, uint) COROPS(float, float)
  MEANOPS(char, char) MEANOPS(unsigned char, uchar) MEANOPS(short, short) MEANOPS(unsigned short, ushort) MEANOPS(int, int) MEANOPS(unsigned int, uint) MEANOPS(float, float) MEANOPS(double, double)
  A("sort", [=](Ctx &c, int n) { float *x = c.res<float>(n); for (int i = 0; i < n; i++) x[i] = fl(i); L(sort_array_down_float(x, n)); c.put(x, 4 * n); });
  A("norm", [=](Ctx &c, int n) { c.put(L(matrix_norm_float(c.arr<float>(n, fl), n))); });
  auto dd = [](int n) { return [n](size_t i) { return (float)(i / n == i % n ? 20 + i / n : pat(i, 7) % 5); }; };
  A("inverse", [=](Ctx &c, int n) { if (n > 12) n = n % 12 + 1; float *x = c.res<float>(n * n), *z = c.res<float>(n * n); for (int i = 0; i < n * n; i++) x[i] = dd(n)(i); L(invert_matrix_float(z, x, n)); c.put(z, 4 * n * n); });
  A("qr", [=](Ctx &c, int n) { if (n > 12) n = n % 12 + 1; float *x = c.arr<float>(n * n, dd(n)), *q = c.res<float>(n * n), *r = c.res<float>(n * n); L(matrix_QR_float(x, q, r, n)); c.put(q, 4 * n * n); c.put(r, 4 * n * n); });
  A("eigenvectors", [=](Ctx &c, int n) { if (n > 5) n = n % 5 + 1; float *x = c.arr<float>(n * n, [n](size_t i) { int a = i / n, b = i % n; return a == b ? 10.f * (n - a) : 1.f; }), *e = c.res<float>(n * n), *w = c.arr<float>(n, [n](size_t i) { return 10.f * (n - i) + 0.1f; }); L(cal_eigen_vector_float(x, e, w, n, n)); c.put(e, 4 * n * n); });
  A("swap rows", [=](Ctx &c, int n) { float *x = c.res<float>(3 * n); for (int i = 0; i < 3 * n; i++) x[i] = fl(i); L(swap_rows_float(x, 3, n, 0, 2)); c.put(x, 12 * n); });
  A("identity", [=](Ctx &c, int n) { if (n > 40) n = 40; float *x = c.res<float>(n * n); L(set_identity_matrix_float(x, n)); c.put(x, 4 * n * n); });
  A("spectral angle", [=](Ctx &c, int n) { float *x = c.arr<float>(n, fl), *y = c.arr<float>(n, [](size_t i) { return 1.f + i; }); c.put(L(spectral_angle_mapper(x, y, n))); });
  A("distance", [=](Ctx &c, int n) { float *x = c.arr<float>(n, fl), *y = c.arr<float>(n, [](size_t i) { return 1.f + i; }); c.put(L(euclidean_distance(x, y, n))); });
  A("read spectrum", [=](Ctx &c, int n) { std::string t; for (int i = 0; i < n; i++) t += std::to_string(fl(i)) + "\n"; std::string p = c.path("sp.txt"); hv_write_file(p, t.data(), t.size()); float *f = L(read_spectrum_file(p.c_str(), n)); if (f) { c.put(f, 4 * n); c.mem.push_back(f); } else c.put(-80.0); });
  A("read short spectrum", [=](Ctx &c, int n) { std::string t = "1.5\n"; for (int i = 2; i < n; i++) t += "2\n"; std::string p = c.path("sp.txt"); hv_write_file(p, t.data(), t.size()); float *f = L(read_spectrum_file(p.c_str(), n + 1)); if (f) { c.put(f, 4 * n); c.mem.push_back(f); } else c.put(-80.0); });
  A("gaussian kernel", [=](Ctx &c, int n) { c.got(L(gaussian_kernel(n, n % 2 ? 0 : 1.5, 4 + n % 2))); });
  A("factorial", [=](Ctx &c, int n) { c.put((double)L(hypercv_factorial(n % 21))); });
  A("optimal size", [=](Ctx &c, int n) { c.put(L(get_optimal_DFT_size(n))); });
  A("parse number", [=](Ctx &c, int n) { std::string s = std::to_string(n * 1.5); c.put(L(hypercv_atof(s.c_str()))); });
  A("growable array", [=](Ctx &c, int n) { int *p = NULL; for (int i = 0; i < n; i++) vector_push_back(p, i * 3); if (n > 2) vector_erase(p, 1); vector_pop_back(p); c.put((double)vector_size(p)); c.put(p, vector_size(p) * 4); vector_free(p); });
  return v;
}
static inline void run_op(const Op &o, Ctx &c, int a, int b, int k) { o.f(c, a, b, k); }
#endif
