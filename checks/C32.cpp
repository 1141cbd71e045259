// C32: calls whose arguments do not fit are refused before any damage.
// Every public operation with arguments around a fitting call: every data type, channel count, layout and
// neighbouring size of every argument, missing objects and wrong numbers, alone and in every combination.
#define HV_CXX
#define HV_GUI
#include "lib.h"
#include <fcntl.h>

struct Spec {
  char k;          // 'i' image: a rows, b columns, x channels; 'c' cube: a samples, b lines, c bands, x layout; '-' no object
  int a, b, c, t, x;
  bool null() const { return k == '-'; }
};
static Spec im(int r, int c, int t = 1, int ch = 1) { return {'i', r, c, 1, t, ch}; }
static Spec cu(int s, int l, int b, int t, int il) { return {'c', s, l, b, t, il}; }
struct Obj {
  simple_mat s = NULL; hyper_mat h = NULL; Bytes was;
  void make(const Spec &p, int salt) {
    if (p.k == 'i') { s = create_simple_mat(p.a, p.b, p.t, p.x); fill(s->data, p.t, (size_t)p.a * p.b * p.x, salt); was = look(); }
    if (p.k == 'c') { h = create_hyper_mat(p.a, p.b, p.c, p.t, ILV[p.x]); fill(h->data, p.t, (size_t)p.a * p.b * p.c, salt); for (int k = 0; k < p.c; k++) h->wavelength[k] = 400 + 2.5f * k; was = look(); }
  }
  static void fill(void *p, int t, size_t n, int salt) { for (size_t i = 0; i < n; i++) putv(p, t, i, 1 + pat(i, salt) % 120); }
  Bytes look() const {
    Bytes r;
    auto add = [&](const void *p, size_t n) { r.insert(r.end(), (const u8 *)p, (const u8 *)p + n); };
    if (s) { add(s, sizeof *s); add(s->data, was.empty() ? nbytes(s) : was.size() - sizeof *s); }
    if (h) { add(h, sizeof *h); if (was.empty()) { add(h->data, nbytes(h)); add(h->wavelength, 4 * (size_t)h->bands); } else { hyper_mat o = (hyper_mat)was.data(); add(o->data, (size_t)o->samples * o->lines * o->bands * tsize(o->data_type)); add(o->wavelength, 4 * (size_t)o->bands); } }
    return r;
  }
  void drop() { if (s) delete_simple_mat(s); if (h) delete_hyper_mat(h); s = NULL; h = NULL; }
};
typedef std::vector<Spec> Specs;
typedef std::vector<int> Ints;
// what a call delivers
struct Res { int kind = 0; void *p = NULL; };      // 0 nothing or a number, 1 image, 2 cube, 3 memory
static Res img(simple_mat m) { return {1, m}; }
static Res cub(hyper_mat m) { return {2, m}; }
static Res mem(void *m) { return {3, m}; }
static Res num(double) { return {0, NULL}; }
enum { NO = 0, FITS = 1, OPEN = 2 };                // OPEN: the requirements do not say; only memory is watched
struct Row {
  std::string name;
  Specs base;
  std::vector<Ints> ints;                           // every number with its values, the first one fits
  std::function<int(const Specs &, const Ints &)> fit;
  std::function<Res(std::vector<Obj> &, const Ints &)> call;
};
static bool ty(const Spec &s, int t) { return s.t == t; }
static bool same2(const Spec &a, const Spec &b) { return a.a == b.a && a.b == b.b; }
static bool gray8(const Spec &s) { return s.t == 1 && s.x == 1; }
static bool any0(const Specs &s) { for (auto &x : s) if (x.null()) return true; return false; }
static bool in(int v, std::initializer_list<int> l) { for (int x : l) if (x == v) return true; return false; }

static std::string show(const Row &r, const Specs &s, const Ints &n) {
  std::string o = r.name + "(";
  for (auto &p : s) o += p.k == '-' ? "NULL " : p.k == 'i' ? "image " + std::to_string(p.a) + "x" + std::to_string(p.b) + " type " + std::to_string(p.t) + " channels " + std::to_string(p.x) + ", " : "cube " + std::to_string(p.a) + "x" + std::to_string(p.b) + "x" + std::to_string(p.c) + " type " + std::to_string(p.t) + " " + ILV[p.x] + ", ";
  for (int x : n) o += std::to_string(x) + " ";
  return o + ")";
}
static void probe(const Row &r, const Specs &s, const Ints &n) {
  int fit = any0(s) ? NO : FITS;
  int f = r.fit(s, n);
  if (!(any0(s) && f == FITS)) fit = f;             // a row may say that a missing object fits (OPEN) itself
  std::vector<Obj> o(s.size());
  for (size_t i = 0; i < s.size(); i++) o[i].make(s[i], (int)i + 3);
  bool io = r.base.size() < 2 && (r.name.find("rea") != r.name.npos || r.name.find("sav") != r.name.npos || r.name.find("write") != r.name.npos);
  long told = hv_stdout_bytes(), fds = io ? hv_open_fds() : 0;
  Res res;

  int ended = hv_call([&] { L(res = r.call(o, n)); });
  long said = hv_stdout_bytes() - told;
  bool nothing = ended || (res.kind != 0 && res.p == NULL);
  std::string w = show(r, s, n);
  if (ended) { if (hv_status == 0) hv->fail("status", "%s ends the program with status 0", w.c_str()); if (said <= 0) hv->fail("silent", "%s ends the program without a diagnosis", w.c_str()); }
  if (fit == FITS && nothing) hv->fail("refused", "%s is refused although the arguments fit", w.c_str());
  if (fit == NO) {
    if (!nothing && !(res.kind == 0 && said > 0)) hv->fail("accepted", "%s is accepted", w.c_str());
    for (size_t i = 0; i < o.size(); i++) if (o[i].look() != o[i].was) hv->fail("damage", "%s is refused, but argument %zu is modified", w.c_str(), i + 1);
    if (io && !ended && hv_open_fds() != fds) hv->fail("file", "%s leaves a file open", w.c_str());
  }
  hv->state(hv_hash(w.data(), w.size(), ended * 2 + nothing));
  if (!ended && res.p) { if (res.kind == 1) delete_simple_mat((simple_mat)res.p); else if (res.kind == 2) delete_hyper_mat((hyper_mat)res.p); else if (res.kind == 3) hv_free(res.p); }
  for (auto &x : o) x.drop();
}
// all the deviations of one argument; small: the ones used in combinations
static std::vector<Spec> around(const Spec &b, bool small) {
  std::vector<Spec> v{b};
  auto add = [&](Spec s) { for (auto &q : v) if (!memcmp(&q, &s, sizeof s)) return; if (s.a > 0 && s.b > 0 && s.c > 0 && s.x >= (s.k == 'i')) v.push_back(s); };
  std::vector<std::array<int, 3>> D;
  if (b.k == 'i') {
    for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) if (!small || !i || !j) D.push_back({b.a + i, b.b + j, 1});
    D.push_back({b.b, b.a, 1}); D.push_back({1, b.a * b.b, 1});
    if (!small) { D.push_back({2 * b.a, b.b, 1}); D.push_back({b.a, 2 * b.b, 1}); D.push_back({1, 1, 1}); }
  } else {
    for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int k = -1; k <= 1; k++) if (!small || (!!i + !!j + !!k) <= 1) D.push_back({b.a + i, b.b + j, b.c + k});
    D.push_back({b.b, b.a, b.c}); D.push_back({b.c, b.b, b.a}); D.push_back({b.a * b.b, 1, b.c});
    if (!small) { D.push_back({b.a, b.b, b.c * 2}); D.push_back({1, 1, 1}); }
  }
  Ints X; if (b.k == 'i') X = {1, 2, 3, 4}; else X = {0, 1, 2};
  for (int t : ALLT) for (int x : X) for (auto &d : D) {
    int dev = (t != b.t) + (x != b.x) + (d[0] != b.a || d[1] != b.b || d[2] != b.c);
    if (small && dev > 1) continue;
    add({b.k, d[0], d[1], d[2], t, x});
  }
  v.push_back({'-', 0, 0, 0, 0, 0});
  return v;
}
static std::vector<Row> rows(bool h3) {
  std::vector<Row> v;
  auto R = [&](std::string n, Specs b, std::vector<Ints> k, std::function<int(const Specs &, const Ints &)> fit, std::function<Res(std::vector<Obj> &, const Ints &)> call) { v.push_back({n, b, k, fit, call}); };
  // an operation on one 8-bit gray image and a result of the same size
  auto G = [&](std::string n, std::vector<Ints> k, std::function<bool(const Ints &)> okn, std::function<void(simple_mat, simple_mat, const Ints &)> f) {
    R(n, {im(4, 6), im(4, 6)}, k, [=](const Specs &s, const Ints &q) -> int { return !any0(s) && gray8(s[0]) && gray8(s[1]) && same2(s[0], s[1]) && okn(q); }, [=](std::vector<Obj> &o, const Ints &q) { f(o[0].s, o[1].s, q); return Res(); });
  };
  auto yes = [](const Ints &) { return true; };
  typedef const Specs &S; typedef const Ints &N; typedef std::vector<Obj> &O;
  const Ints BORDERS{0, 1, 2, 3, 4, 5, 16, -1, 100};
  auto bok = [](int b) { return b >= 0 && b <= 4; };
  // ---- geometry ----
  for (int q = 0; q < 3; q++) R(q == 0 ? "simple_mat_flip" : q == 1 ? "simple_mat_flip_horizontal" : "simple_mat_flip_vertical", {im(4, 6), im(4, 6)}, q ? std::vector<Ints>{} : std::vector<Ints>{{1, 0, -1}},
    [](S s, N) -> int { return !any0(s) && same2(s[0], s[1]) && s[0].t == s[1].t && s[0].x == s[1].x; }, [=](O o, N n) { if (q == 0) simple_mat_flip(o[0].s, o[1].s, n[0]); else if (q == 1) simple_mat_flip_horizontal(o[0].s, o[1].s); else simple_mat_flip_vertical(o[0].s, o[1].s); return Res(); });
  R("hypercv_pyramid_down", {im(4, 6), im(2, 3)}, {}, [](S s, N) -> int { return !any0(s) && s[0].a >= 2 && s[0].b >= 2 && s[1].a == (s[0].a + 1) / 2 && s[1].b == (s[0].b + 1) / 2 && s[0].t == 1 && s[1].t == 1 && in(s[0].x, {1, 3}) && s[0].x == s[1].x; }, [](O o, N) { hypercv_pyramid_down(o[0].s, o[1].s); return Res(); });
  R("hypercv_pyramid_up", {im(3, 4), im(6, 8)}, {}, [](S s, N) -> int { return !any0(s) && s[0].a >= 2 && s[0].b >= 2 && s[1].a == s[0].a * 2 && s[1].b == s[0].b * 2 && s[0].t == 1 && s[1].t == 1 && in(s[0].x, {1, 3}) && s[0].x == s[1].x; }, [](O o, N) { hypercv_pyramid_up(o[0].s, o[1].s); return Res(); });
  R("hyper_mat_rotate", {cu(3, 2, 2, 4, 2)}, {{30, 90}}, [](S s, N) -> int { return any0(s) ? NO : FITS; }, [](O o, N n) { return cub(hyper_mat_rotate(o[0].h, n[0])); });
  // ---- thresholds ----
  static void (*const TH[5])(simple_mat, simple_mat, int, int) = {hypercv_threshold_binary, hypercv_threshold_binary_inv, hypercv_threshold_trunc, hypercv_threshold_tozero, hypercv_threshold_tozero_inv};
  for (int q = 0; q < 5; q++) G("hypercv_threshold function " + std::to_string(q), {}, yes, [=](simple_mat s, simple_mat d, N) { TH[q](s, d, 100, 200); });
  G("hypercv_threshold_otsu", {}, yes, [](simple_mat s, simple_mat d, N) { hypercv_threshold_otsu(s, d); });
  G("hypercv_threshold", {{0, 1, 2, 3, 4, 8, 5, 6, 9, -1, 15, 17, 32, 256}}, [](N n) { return in(n[0], {0, 1, 2, 3, 4, 8}); }, [](simple_mat s, simple_mat d, N n) { hypercv_threshold(s, d, 100, 200, n[0]); });
  R("otsuThreshold", {im(4, 6)}, {}, [](S s, N) -> int { return !any0(s) && s[0].t == 1 && in(s[0].x, {1, 3}); }, [](O o, N) { return num(otsuThreshold(o[0].s)); });
  // ---- filters ----
  G("hypercv_sobel", {BORDERS}, [=](N n) { return bok(n[0]); }, [](simple_mat s, simple_mat d, N n) { hypercv_sobel(s, d, 100, n[0]); });
  G("hypercv_laplacian", {{1, 2, 0, -1}, BORDERS}, [=](N n) { return n[0] > 0 && bok(n[1]); }, [](simple_mat s, simple_mat d, N n) { hypercv_laplacian(s, d, n[0], n[1]); });
  G("hypercv_medianblur", {{3, 1, 5, 2, 4, 0, -1, -3}}, [](N n) { return n[0] > 0 && n[0] % 2; }, [](simple_mat s, simple_mat d, N n) { hypercv_medianblur(s, d, n[0]); });
  G("hypercv_meanblur", {{3, 1, 2, 4, 0, -1, -2}}, [](N n) { return n[0] > 0; }, [](simple_mat s, simple_mat d, N n) { hypercv_meanblur(s, d, n[0]); });
  R("hypercv_filter2D", {im(4, 6), im(4, 6, 4)}, {{1, 0}, BORDERS}, [=](S s, N n) -> int { return !any0(s) && n[0] && bok(n[1]) && s[0].t == 1 && in(s[0].x, {1, 3}) && s[1].t == 4 && s[1].x == s[0].x && same2(s[0], s[1]); }, [](O o, N n) { float k[9] = {0, 1, 0, 1, -4, 1, 0, 1, 0}; hypercv_filter2D(o[0].s, o[1].s, n[0] ? k : NULL, 3, 3, n[1]); return Res(); });
  R("hypercv_gaussian_blur", {im(4, 6), im(4, 6)}, {{3, 1, 5, 2, 4, 0, -1, -3}, {3, 5, 2, 0, -3}, BORDERS}, [=](S s, N n) -> int { if (!s[0].null() && s[1].null()) return OPEN; return !any0(s) && s[0].t == 1 && s[1].t == 1 && in(s[0].x, {1, 3}) && s[0].x == s[1].x && same2(s[0], s[1]) && n[0] > 0 && n[0] % 2 && n[1] > 0 && n[1] % 2 && bok(n[2]); }, [](O o, N n) { hypercv_gaussian_blur(o[0].s, o[1].s, n[0], n[1], 1.2, 1.2, n[2]); return Res(); });
  for (int a = 0; a < 2; a++) R("hypercv_gaussian_blur_with_kernel", {im(4, 6), a ? im(1, 5, 4) : im(4, 6), im(1, 3, 4)}, {BORDERS}, [=](S s, N n) -> int {
    if (s[0].null() || s[2].null() || (a && s[1].null())) return NO;
    if (s[0].t != 1 || !in(s[0].x, {1, 3}) || !bok(n[0]) || s[2].t != 4 || (a && s[1].t != 4)) return NO;
    if (!a && !s[1].null() && (s[1].t != 1 || s[1].x != s[0].x || !same2(s[0], s[1]))) return NO;
    if (s[2].a != 1 || s[2].x != 1 || s[2].b % 2 == 0 || (a ? s[1].a != 1 || s[1].x != 1 || s[1].b % 2 == 0 : s[1].null())) return OPEN;
    return FITS; }, [=](O o, N n) { simple_mat d = a && o[0].s ? create_simple_mat(o[0].s->rows, o[0].s->cols, 1, o[0].s->channels) : NULL; hypercv_gaussian_blur_with_kernel(o[0].s, a ? d : o[1].s, o[2].s, a ? o[1].s : o[2].s, n[0]); if (d) delete_simple_mat(d); return Res(); });
  R("gaussian_kernel", {}, {{3, 1, 5, 7, 0, -1, -7}, {4, 5, 0, 1, 3, 6, 12, -4}}, [](S, N n) -> int { return n[0] > 0 && in(n[1], {4, 5}); }, [](O, N n) { return img(gaussian_kernel(n[0], 1.5, n[1])); });
  R("hypercv_integral", {im(4, 6), im(4, 6, 3)}, {}, [](S s, N) -> int { if (s[0].null() || !gray8(s[0])) return NO; if (s[1].null()) return OPEN; return s[1].t == 3 && s[1].x == 1 && same2(s[0], s[1]); }, [](O o, N) { hypercv_integral(o[0].s, o[1].s); return Res(); });
  R("hypercv_copy_make_border", {im(4, 6)}, {{1, 0, 3, -1}, {2, 0, -1}, {0, 1, -1}, {1, -2}, BORDERS}, [=](S s, N n) -> int { return !any0(s) && s[0].t == 1 && n[0] >= 0 && n[1] >= 0 && n[2] >= 0 && n[3] >= 0 && bok(n[4]); }, [](O o, N n) { return img(hypercv_copy_make_border(o[0].s, n[0], n[1], n[2], n[3], n[4], 9)); });
  for (int q = 0; q < 4; q++) R("morphology " + std::to_string(q), {im(4, 6), im(4, 6)}, {{1, 0}, {3, 1, 5, 7}, {3, 2, 4, 5}}, [](S s, N n) -> int {
    if (s[0].null() || !n[0] || !gray8(s[0])) return NO;
    if (s[1].null()) return OPEN;
    if (!gray8(s[1]) || !same2(s[0], s[1])) return NO;
    return n[1] > s[0].b || n[2] > s[0].a ? OPEN : FITS; }, [=](O o, N n) { S_2D k = n[0] ? create_2D_struct(n[1], n[2]) : NULL; if (q == 0) hypercv_corrosion(o[0].s, o[1].s, k); else if (q == 1) hypercv_expend(o[0].s, o[1].s, k); else if (q == 2) hypercv_open(o[0].s, o[1].s, k, 1); else hypercv_close(o[0].s, o[1].s, k, 1); if (k) delete_S_2D(k); return Res(); });
  R("create_2D_struct", {}, {{1, 3, 0, -1}, {1, 3, 0, -1}, {0, 1}}, [](S, N n) -> int { return n[0] > 0 && n[1] > 0; }, [](O, N n) { static u8 d[9]; return mem(n[2] ? create_2D_struct_with_data(n[0], n[1], d) : create_2D_struct(n[0], n[1])); });
  // ---- image statistics, colours, files ----
  R("simple_mat_mean", {im(4, 6)}, {}, [](S s, N) -> int { return !any0(s) && s[0].x == 1 && in(s[0].t, {1, 2, 3, 4, 12}); }, [](O o, N) { return num(simple_mat_mean(o[0].s)); });
  R("simple_mat_variance", {im(4, 6)}, {}, [](S s, N) -> int { return !any0(s) && s[0].x == 1 && in(s[0].t, {1, 2, 3, 4, 12}); }, [](O o, N) { return num(simple_mat_variance(o[0].s)); });
  auto st = [](S s) -> int { return any0(s) || s[0].t != 1 ? NO : in(s[0].x, {1, 3}) ? FITS : NO; };
  R("simple_mat_grayscale_statistics", {im(4, 6)}, {{1, 0}}, [=](S s, N n) -> int { return n[0] ? st(s) : NO; }, [](O o, N n) { int h[256]; simple_mat_grayscale_statistics(o[0].s, n[0] ? h : NULL); return Res(); });
  R("simple_mat_contrast_ratio", {im(4, 6)}, {}, [=](S s, N) -> int { int f = st(s); return f && (s[0].a < 2 || s[0].b < 2) ? OPEN : f; }, [](O o, N) { return num(simple_mat_contrast_ratio(o[0].s)); });
  R("simple_mat_entropy", {im(4, 6)}, {}, [=](S s, N) { return st(s); }, [](O o, N) { return num(simple_mat_entropy(o[0].s)); });
  for (int q = 0; q < 2; q++) R(q ? "sm_gray2rgb" : "sm_binary2rgb", {im(4, 6)}, {}, [](S s, N) -> int { return !any0(s) && gray8(s[0]); }, [=](O o, N) { return img(q ? sm_gray2rgb(o[0].s) : sm_binary2rgb(o[0].s)); });
  R("sm_rgb2gray", {im(4, 6, 1, 3)}, {{0, 1, 2}}, [](S s, N) -> int { return !any0(s) && s[0].t == 1 && s[0].x == 3; }, [](O o, N n) { return img(sm_rgb2gray(o[0].s, n[0])); });
  R("sm_bgr2rgb", {im(4, 6, 1, 3), im(4, 6, 1, 3)}, {}, [](S s, N) -> int { return !any0(s) && s[0].t == 1 && s[0].x == 3 && s[1].t == 1 && s[1].x == 3 && same2(s[0], s[1]); }, [](O o, N) { sm_bgr2rgb(o[0].s, o[1].s); return Res(); });
  R("create_simple_mat", {}, {{4, 1, 0, -1}, {6, 1, 0, -6}, {1, 2, 3, 4, 5, 12, 13, 14, 15, 0, 6, 7, 8, 9, 10, 11, 16, -1, 99}, {1, 3, 0, -1}}, [](S, N n) -> int { return n[0] > 0 && n[1] > 0 && tsize(n[2]) && n[3] > 0; }, [](O, N n) { return img(create_simple_mat(n[0], n[1], n[2], n[3])); });
  R("simple_mat_copy", {im(4, 6)}, {}, [](S s, N) -> int { return !any0(s); }, [](O o, N) { return img(simple_mat_copy(o[0].s)); });
  R("smwrite_bmp", {im(4, 6)}, {{1, 0, 2}}, [](S s, N n) -> int { return !any0(s) && n[0] == 1 && s[0].t == 1 && in(s[0].x, {1, 3}); }, [](O o, N n) { std::string p = n[0] == 2 ? hv->tmp + "/none/w.bmp" : hv->tmp + "/w.bmp"; smwrite_bmp(n[0] ? p.c_str() : NULL, o[0].s); return Res(); });
  R("smread_bmp", {}, {{0, 1}}, [](S, N) -> int { return NO; }, [](O, N n) { return img(smread_bmp(n[0] ? (hv->tmp + "/none.bmp").c_str() : NULL)); });
  R("smread", {}, {{1, 0, 2}, {4, 0, -1}, {6, 0, -1}, {1, 4, 0, 6, 99}, {1, 0, -2}}, [](S, N n) -> int { return n[0] == 1 && n[1] > 0 && n[2] > 0 && tsize(n[3]) && n[4] > 0; }, [](O, N n) { std::string p = hv->tmp + "/raw"; hv_write_file(p, Bytes(200, 7).data(), 200); return img(smread(n[0] == 1 ? p.c_str() : n[0] == 2 ? (hv->tmp + "/none").c_str() : NULL, n[1], n[2], n[3], n[4])); });
  // ---- arithmetic ----
  for (int t : {1, 4}) R(t == 1 ? "simple_mat_addition_uchar" : "simple_mat_addition_float", {im(3, 4, t), im(3, 4, t), im(3, 4, t)}, {}, [=](S s, N) -> int { return !any0(s) && s[0].t == t && s[1].t == t && s[2].t == t && s[0].x == s[1].x && s[0].x == s[2].x && s[2].a >= std::min(s[0].a, s[1].a) && s[2].b >= std::min(s[0].b, s[1].b); }, [=](O o, N) { if (t == 1) simple_mat_addition_uchar(o[0].s, o[1].s, o[2].s); else simple_mat_addition_float(o[0].s, o[1].s, o[2].s); return Res(); });
  R("simple_mat_log", {im(4, 6, 4), im(4, 6, 4)}, {}, [](S s, N) -> int { return !any0(s) && s[0].t == 4 && s[1].t == 4 && s[0].x == s[1].x && same2(s[0], s[1]); }, [](O o, N) { simple_mat_log(o[0].s, o[1].s); return Res(); });
  R("simple_mat_transport", {im(6, 4), im(4, 6)}, {}, [](S s, N) -> int { return !any0(s) && s[0].t == s[1].t && s[0].x == s[1].x && s[0].a == s[1].b && s[0].b == s[1].a; }, [](O o, N) { simple_mat_transport(o[0].s, o[1].s); return Res(); });
  R("simple_mat_float2uchar", {im(4, 6, 4)}, {}, [](S s, N) -> int { return !any0(s) && s[0].t == 4; }, [](O o, N) { return img(simple_mat_float2uchar(o[0].s)); });
  // ---- algorithms on images ----
  G("HisEqualization", {}, yes, [](simple_mat s, simple_mat d, N) { HisEqualization(s, d); });
  G("hypercv_dft_frespectrum", {}, yes, [](simple_mat s, simple_mat d, N) { hypercv_dft_frespectrum(s, d); });
  for (int q = 0; q < 3; q++) R(q == 0 ? "hypercv_dft" : q == 1 ? "hypercv_dft_uchar" : "hypercv_dft_ushort", {im(3, 4, q == 2 ? 12 : 1), im(3, 4, 4), im(3, 4, 4)}, {}, [=](S s, N) -> int { return !any0(s) && (q == 0 ? in(s[0].t, {1, 12}) : s[0].t == (q == 1 ? 1 : 12)) && s[1].t == 4 && s[2].t == 4 && s[0].x == 1 && s[1].x == 1 && s[2].x == 1 && same2(s[0], s[1]) && same2(s[0], s[2]); }, [=](O o, N) { if (q == 0) hypercv_dft(o[0].s, o[1].s, o[2].s); else if (q == 1) hypercv_dft_uchar(o[0].s, o[1].s, o[2].s); else hypercv_dft_ushort(o[0].s, o[1].s, o[2].s); return Res(); });
  for (int q = 0; q < 4; q++) R(q == 0 ? "hypercv_idft" : q == 1 ? "hypercv_idft_uchar" : q == 2 ? "hypercv_idft_ushort" : "hypercv_magnitude", {im(3, 4, 4), im(3, 4, 4), im(3, 4, q == 2 ? 12 : q == 3 ? 4 : 1)}, {}, [=](S s, N) -> int { return !any0(s) && (q == 0 ? in(s[2].t, {1, 12}) : s[2].t == (q == 1 ? 1 : q == 2 ? 12 : 4)) && s[0].t == 4 && s[1].t == 4 && s[0].x == 1 && s[1].x == 1 && s[2].x == 1 && same2(s[0], s[1]) && same2(s[0], s[2]); }, [=](O o, N) { if (q == 0) hypercv_idft(o[0].s, o[1].s, o[2].s); else if (q == 1) hypercv_idft_uchar(o[0].s, o[1].s, o[2].s); else if (q == 2) hypercv_idft_ushort(o[0].s, o[1].s, o[2].s); else hypercv_magnitude(o[0].s, o[1].s, o[2].s); return Res(); });
  for (int q = 0; q < 3; q++) for (int t : {1, 4}) if (q == 0 || (q == 1) == (t == 1)) R(q == 0 ? "hypercv_normalize" : q == 1 ? "hypercv_normalize_uchar" : "hypercv_normalize_float", {im(4, 6, t), im(4, 6, t)}, {{1, 2, 4, 32, 0, 3, 5, 8, 31, -1, 64}}, [=](S s, N n) -> int { return !any0(s) && in(n[0], {1, 2, 4, 32}) && (q == 0 ? in(s[0].t, {1, 4}) : s[0].t == t) && s[1].t == s[0].t && s[0].x == s[1].x && same2(s[0], s[1]); }, [=](O o, N n) { if (q == 0) hypercv_normalize(o[0].s, o[1].s, 200, 10, n[0]); else if (q == 1) hypercv_normalize_uchar(o[0].s, o[1].s, 200, 10, n[0]); else hypercv_normalize_float(o[0].s, o[1].s, 200, 10, n[0]); return Res(); });
  R("cal_edge_signal_energy", {im(4, 6)}, {}, [](S s, N) -> int { return !any0(s) && gray8(s[0]); }, [](O o, N) { return num(cal_edge_signal_energy(o[0].s)); });
  R("calc_hu_moment", {im(4, 6)}, {{1, 0}}, [](S s, N n) -> int { return !any0(s) && n[0] && gray8(s[0]); }, [](O o, N n) { double h[7]; calc_hu_moment(n[0] ? h : NULL, o[0].s); return Res(); });
  R("hypercv_match_shapes", {im(4, 6), im(5, 4)}, {}, [](S s, N) -> int { return !any0(s) && gray8(s[0]) && gray8(s[1]); }, [](O o, N) { return num(hypercv_match_shapes(o[0].s, o[1].s)); });
  R("hypercv_k_means", {im(4, 6)}, {{2, 1, 3, 0, -1, -2}, {0, 1, -1}}, [](S s, N n) -> int { return !any0(s) && s[0].t == 1 && in(s[0].x, {1, 3}) && n[0] >= 1 && n[1] == 0; }, [](O o, N n) { POINT *p = NULL; POINT z; z.x = z.y = 0; for (int i = 0; i < n[0] + n[1]; i++) vector_push_back(p, z); hypercv_k_means(o[0].s, p, n[0], 0); vector_free(p); return Res(); });
  R("draw_POINT", {im(4, 6, 1, 3), im(4, 6, 1, 3)}, {{1, 0, 3}}, [](S s, N) -> int { if (any0(s) || s[0].t != 1 || s[1].t != 1 || !same2(s[0], s[1]) || s[0].x != s[1].x) return NO; return in(s[0].x, {1, 3}) ? FITS : OPEN; }, [](O o, N n) { POINT p[2]; p[0].x = 1; p[0].y = 2; p[1].x = 5; p[1].y = 3; RGB_data c; c.r = c.g = c.b = 9; draw_POINT(o[0].s, o[1].s, p, 2, c, n[0]); return Res(); });
  R("draw_line", {im(4, 6, 1, 3), im(4, 6, 1, 3)}, {{1, 0, 3}}, [](S s, N) -> int { if (any0(s) || s[0].t != 1 || s[1].t != 1 || !same2(s[0], s[1]) || s[0].x != s[1].x) return NO; return in(s[0].x, {1, 3}) ? FITS : OPEN; }, [](O o, N n) { POINT p, q; p.x = 1; p.y = 2; q.x = 5; q.y = 3; RGB_data c; c.r = c.g = c.b = 9; draw_line(o[0].s, o[1].s, p, q, c, n[0]); return Res(); });
  // ---- cubes ----
  static hyper_mat (*const CV[6])(hyper_mat) = {bsq2bil, bsq2bip, bil2bsq, bil2bip, bip2bsq, bip2bil};
  static const char *const CN[6] = {"bsq2bil", "bsq2bip", "bil2bsq", "bil2bip", "bip2bsq", "bip2bil"};
  static const int to[6] = {1, 2, 0, 2, 0, 1};
  for (int q = 0; q < 6; q++) R(CN[q], {cu(3, 2, 4, 4, q / 2)}, {}, [=](S s, N) -> int { return !any0(s) && (s[0].x == q / 2 || s[0].x == to[q]); }, [=](O o, N) { return cub(CV[q](o[0].h)); });
  static void (*const CI[3])(hyper_mat) = {convert2bsq, convert2bil, convert2bip};
  for (int q = 0; q < 3; q++) R(std::string("convert2") + ILV[q], {cu(3, 2, 4, 4, 0)}, {}, [](S s, N) -> int { return !any0(s); }, [=](O o, N) { CI[q](o[0].h); return Res(); });
  // also where an axis has length 1, so that a range that leaves it still lies inside the memory of the cube
  static const int RB[][3] = {{3, 2, 4}, {3, 1, 4}, {1, 3, 4}, {3, 2, 1}, {1, 1, 5}, {6, 1, 1}, {1, 1, 1}};
  for (auto &q : RB) for (int il = 0; il < 3; il++) if (&q == RB ? il == 0 : h3 || il == (&q - RB) % 3) {
    auto upto = [](int n) { Ints r{n}; for (int k = -1; k <= n + 1; k++) if (k != n) r.push_back(k); return r; };
    auto from = [](int n) { Ints r{0}; for (int k : {1, -1, n - 1, n, n + 1}) if (std::find(r.begin(), r.end(), k) == r.end()) r.push_back(k); return r; };
    R("hyper_mat_get_range",{cu(q[0], q[1], q[2], 12, il)}, {from(q[1]), from(q[0]), from(q[2]), upto(q[1]), upto(q[0]), upto(q[2])}, [](S s, N n) -> int { return !any0(s) && n[0] >= 0 && n[0] < n[3] && n[3] <= s[0].b && n[1] >= 0 && n[1] < n[4] && n[4] <= s[0].a && n[2] >= 0 && n[2] < n[5] && n[5] <= s[0].c; }, [](O o, N n) { return cub(hyper_mat_get_range(o[0].h, n[0], n[1], n[2], n[3], n[4], n[5])); });
  }
  R("reshape_hypermat_2_simplemat", {cu(3, 2, 4, 4, 0)}, {{4, 6, 3, 24, -4, 0, 5}, {6, 4, 8, 1, -6, 0, 5}}, [](S s, N n) -> int { return !any0(s) && n[0] > 0 && n[1] > 0 && n[0] * n[1] == s[0].a * s[0].b * s[0].c; }, [](O o, N n) { return img(reshape_hypermat_2_simplemat(o[0].h, n[0], n[1])); });
  R("hyper_mat_2_simple_mat", {cu(3, 2, 4, 4, 0), im(2, 3, 4)}, {{1, 2, 4, 0, -1, 5, 6, 100}}, [](S s, N n) -> int { return !any0(s) && s[0].x == 0 && n[0] >= 1 && n[0] <= s[0].c && s[1].a * s[1].b * s[1].x * tsize(s[1].t) >= s[0].a * s[0].b * tsize(s[0].t); }, [](O o, N n) { hyper_mat_2_simple_mat(o[0].h, o[1].s, n[0]); return Res(); });
  R("simple_mat_2_hyper_mat", {cu(3, 2, 4, 4, 0), im(2, 3, 4)}, {{1, 2, 4, 0, -1, 5, 6, 100}}, [](S s, N n) -> int { return !any0(s) && s[0].x == 0 && n[0] >= 1 && n[0] <= s[0].c && s[1].a == s[0].b && s[1].b == s[0].a && s[1].x == 1 && s[1].t == s[0].t; }, [](O o, N n) { simple_mat_2_hyper_mat(o[0].h, o[1].s, n[0]); return Res(); });
  R("hyper_mat_splicing", {cu(3, 2, 4, 4, 0), cu(3, 2, 1, 4, 0)}, {{0, 1, 6, 17, 18, 19, 24, -1, 1000, -1000}}, [](S s, N n) -> int { return !any0(s) && s[0].t == s[1].t && n[0] >= 0 && n[0] + s[1].a * s[1].b * s[1].c <= s[0].a * s[0].b * s[0].c; }, [](O o, N n) { hyper_mat_splicing(o[0].h, o[1].h, n[0]); return Res(); });
  R("hyper_mat_copy_to", {cu(3, 2, 4, 4, 0), cu(3, 2, 4, 4, 1)}, {}, [](S s, N) -> int { return !any0(s) && s[0].t == s[1].t && same2(s[0], s[1]) && s[0].c == s[1].c; }, [](O o, N) { hyper_mat_copy_to(o[0].h, o[1].h); return Res(); });
  R("hyper_mat_copy_wavelength", {cu(3, 2, 4, 4, 0), cu(3, 2, 4, 4, 1)}, {}, [](S s, N) -> int { return !any0(s) && s[0].c == s[1].c; }, [](O o, N) { hyper_mat_copy_wavelength(o[0].h, o[1].h); return Res(); });
  R("hyper_mat_copy", {cu(3, 2, 4, 4, 0)}, {}, [](S s, N) -> int { return any0(s) ? OPEN : FITS; }, [](O o, N) { return cub(hyper_mat_copy(o[0].h)); });
  static const char *const BADIL[] = {"bsq", "bil", "bip", "BSQ", "bs", "", "bqs", "bpi", "xyz", "Bip", "lib"};
  R("create_hyper_mat", {}, {{3, 1, 0, -1}, {2, 0, -2}, {4, 0, -4}, {1, 2, 3, 4, 5, 12, 13, 14, 15, 0, 6, 7, 8, 9, 10, 11, 16, -1, 99}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 99}}, [](S, N n) -> int { return n[0] > 0 && n[1] > 0 && n[2] > 0 && tsize(n[3]) && n[4] < 3; }, [](O, N n) { return cub(create_hyper_mat(n[0], n[1], n[2], n[3], n[4] == 99 ? NULL : BADIL[n[4]])); });
  R("hmread_with_size", {}, {{1, 0, 2}, {3, 0, -1}, {2, 0, -2}, {4, 0, -4}, {1, 4, 0, 6, 99}, {0, 1, 2, 3, 5, 8, 99}}, [](S, N n) -> int { return n[0] == 1 && n[1] > 0 && n[2] > 0 && n[3] > 0 && tsize(n[4]) && n[5] < 3; }, [](O, N n) { std::string p = hv->tmp + "/raw"; hv_write_file(p, Bytes(200, 7).data(), 200); return cub(hmread_with_size(n[0] == 1 ? p.c_str() : n[0] == 2 ? (hv->tmp + "/none").c_str() : NULL, n[1], n[2], n[3], n[4], n[5] == 99 ? NULL : BADIL[n[5]])); });
  R("hmread_with_hdr", {}, {{1, 0, 2}, {1, 0, 2}}, [](S, N n) -> int { return n[0] == 1 && n[1] == 1; }, [](O, N n) {
    std::string p = hv->tmp + "/cu.img", q = p + ".hdr", z = hv->tmp + "/none"; hv_write_file(p, Bytes(24, 7).data(), 24);
    const char *t = "ENVI\nsamples = 3\nlines = 2\nbands = 4\ndata type = 1\ninterleave = bsq\n"; hv_write_file(q, t, strlen(t));
    return cub(hmread_with_hdr(n[0] == 1 ? p.c_str() : n[0] == 2 ? z.c_str() : NULL, n[1] == 1 ? q.c_str() : n[1] == 2 ? z.c_str() : NULL)); });
  R("hmsave", {cu(3, 2, 4, 4, 0)}, {{1, 0, 2}}, [](S s, N n) -> int { return !any0(s) && n[0] == 1; }, [](O o, N n) { std::string p = n[0] == 2 ? hv->tmp + "/none/w" : hv->tmp + "/w"; hmsave(n[0] ? p.c_str() : NULL, o[0].h); return Res(); });
  R("writehdr", {}, {{1, 0, 2}}, [](S, N n) -> int { return n[0] == 1; }, [](O, N n) { std::string p = n[0] == 2 ? hv->tmp + "/none/w" : hv->tmp + "/w"; writehdr(n[0] ? p.c_str() : NULL, 3, 2, 4, 4, "bil", NULL); return Res(); });
  R("hyper_mat_transport", {cu(2, 3, 4, 4, 0), cu(3, 2, 4, 4, 0)}, {}, [](S s, N) -> int { if (any0(s) || s[1].x != 0 || s[0].t != s[1].t || s[0].a != s[1].b || s[0].b != s[1].a || s[0].c != s[1].c) return NO; return s[0].x == 0 ? FITS : OPEN; }, [](O o, N) { hyper_mat_transport(o[0].h, o[1].h); return Res(); });
  R("hyper_mat_mean", {cu(3, 2, 4, 4, 2), im(2, 3, 4)}, {}, [](S s, N) -> int { return !any0(s) && s[0].x == 2 && s[0].t == 4 && s[1].t == 4 && s[1].x == 1 && s[1].a == s[0].b && s[1].b == s[0].a; }, [](O o, N) { hyper_mat_mean(o[0].h, o[1].s); return Res(); });
  R("spectrum_SAM_match", {cu(3, 2, 4, 4, 2)}, {{1, 0}}, [](S s, N n) -> int { return !any0(s) && n[0] && s[0].x == 2 && s[0].t == 4; }, [](O o, N n) { float w[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3}; return img(spectrum_SAM_match(o[0].h, n[0] ? w : NULL, 0.5f)); });
  R("spectral_angle_mapper", {}, {{1, 0}, {1, 0}}, [](S, N n) -> int { return n[0] && n[1]; }, [](O, N n) { float w[3] = {1, 2, 3}; return num(spectral_angle_mapper(n[0] ? w : NULL, n[1] ? w : NULL, 3)); });
  R("read_spectrum_file", {}, {{1, 0, 2}, {3, 4, 5}}, [](S, N n) -> int { return n[0] == 1 && n[1] <= 3; }, [](O, N n) { std::string p = hv->tmp + "/sp.txt"; hv_write_file(p, "1 2.5 3\n", 8); return mem(read_spectrum_file(n[0] == 1 ? p.c_str() : n[0] == 2 ? (hv->tmp + "/none").c_str() : NULL, n[1])); });
  R("relative_radiometric_correction", {cu(3, 2, 4, 12, 2)}, {{1, 0}}, [](S s, N n) -> int { return !any0(s) && n[0] && s[0].x == 2 && s[0].t == 12; }, [](O o, N n) { float w[400]; for (float &x : w) x = 1; return cub(relative_radiometric_correction(o[0].h, n[0] ? w : NULL)); });
  R("absolute_radiometric_correction", {cu(3, 2, 4, 4, 2)}, {{1, 0}}, [](S s, N n) -> int { return !any0(s) && n[0] && s[0].x == 2 && s[0].t == 4; }, [](O o, N n) { float w[400]; for (float &x : w) x = 1; return cub(absolute_radiometric_correction(o[0].h, n[0] ? w : NULL)); });
  static hyper_mat (*const TC[11])(hyper_mat) = {hyper_mat_uchar2short, hyper_mat_uchar2ushort, hyper_mat_uchar2int, hyper_mat_uchar2float, hyper_mat_float2char, hyper_mat_float2uchar, hyper_mat_float2short, hyper_mat_float2ushort, hyper_mat_float2int, hyper_mat_float2uint, hyper_mat_ushort2float};
  for (int q = 0; q < 11; q++) { int t = q < 4 ? 1 : q < 10 ? 4 : 12; R("hyper_mat type conversion " + std::to_string(q), {cu(3, 2, 4, t, 0)}, {}, [=](S s, N) -> int { return !any0(s) && s[0].t == t; }, [=](O o, N) { return cub(TC[q](o[0].h)); }); }
  R("hyper_mat_linear_tension", {cu(3, 2, 4, 4, 0), cu(3, 2, 4, 1, 0)}, {}, [](S s, N) -> int { return !any0(s) && s[0].x == 0 && s[1].x == 0 && s[0].t == 4 && s[1].t == 1 && same2(s[0], s[1]) && s[0].c == s[1].c; }, [](O o, N) { hyper_mat_linear_tension(o[0].h, o[1].h); return Res(); });
  R("hyper_mat_cem", {cu(3, 2, 2, 4, 0)}, {{1, 0}}, [](S s, N n) -> int { return !any0(s) && n[0] && s[0].t == 4; }, [](O o, N n) { float w[8] = {1, 2, 3, 4, 5, 6, 7, 8}; return img(hyper_mat_cem(o[0].h, n[0] ? w : NULL)); });
  R("hyper_mat_pca", {cu(3, 2, 2, 4, 2), cu(3, 2, 2, 4, 2)}, {}, [](S s, N) -> int { return !any0(s) && s[0].x == 2 && s[1].x == 2 && s[0].t == 4 && s[1].t == 4 && same2(s[0], s[1]) && s[0].c == s[1].c; }, [](O o, N) { hyper_mat_pca(o[0].h, o[1].h, 3); return Res(); });
  // ---- rows of matrices ----
  R("swap_rows_float", {im(3, 4, 4)}, {{0, 1, 2, 3, -1}, {1, 0, 2, 3, -1}}, [](S s, N n) -> int { if (any0(s) || s[0].t != 4 || s[0].a != 3 || s[0].b != 4 || s[0].x != 1) return -1; return n[0] >= 0 && n[0] < 3 && n[1] >= 0 && n[1] < 3 && n[0] != n[1]; }, [](O o, N n) { swap_rows_float((float *)o[0].s->data, 3, 4, n[0], n[1]); return Res(); });
  return v;
}
// ---- the C++ cube type ----
typedef hypercv::HyMat HM;
static const int FMT[3] = {HYPERCV_BSQ, HYPERCV_BIL, HYPERCV_BIP};
static void hymat(int which, int a, int b, int c, int t, int f, int p, int q) {
  HM m, d;
  Bytes was; void *data = NULL; float wl[64], wn[64];
  bool made = false;
  std::function<void()> call; bool ok = true, empty = false;
  char w[200];
  auto prep = [&](int s, int l, int k, int ty, int fm) { m.create(s, l, k, ty, fm); fillpat(m.data, m.dataSize, 5); for (int i = 0; i < k; i++) m.wavelength[i] = 5 + i; was = bytes(m.data, m.dataSize); data = m.data; memcpy(wl, m.wavelength, 4 * k); made = true; };
  if (which == 0) { ok = a > 0 && b > 0 && c > 0 && tsize(t) && in(f, {FMT[0], FMT[1], FMT[2]}); call = [&] { m.create(a, b, c, t, f); }; snprintf(w, sizeof w, "HyMat create %d %d %d type %d format %d", a, b, c, t, f); }
  else if (which == 1) { prep(a, b, c, t, f); ok = in(p, {FMT[0], FMT[1], FMT[2]}); call = [&] { m.convertTo(p); }; snprintf(w, sizeof w, "HyMat of format %d convertTo %d", f, p); }
  else if (which == 2) { if (p < 6) prep(a, b, c, t, f); static HM (*const V[6])(HM &) = {hypercv::bsq2bil, hypercv::bsq2bip, hypercv::bil2bsq, hypercv::bil2bip, hypercv::bip2bsq, hypercv::bip2bil}; static const int to[6] = {1, 2, 0, 2, 0, 1}; int k = p % 6; ok = p < 6 && (f == FMT[k / 2] || (k != 2 && k != 3 && f == FMT[to[k]])); empty = p >= 6; if (p < 6 && !ok && f == FMT[to[k]]) return; call = [&, k] { d = V[k](m); }; snprintf(w, sizeof w, "HyMat conversion %d of %s of format %d", k, p < 6 ? "a mat" : "an empty mat", f); }
  else if (which == 3) { prep(a, b, c, t, f); long n = m.dataSize + p; static u8 src[8192]; fillpat(src, sizeof src, 7); ok = p <= 0 && n > 0; call = [&, n] { m.CopyData(src, n); }; snprintf(w, sizeof w, "HyMat CopyData of %ld bytes into %ld", n, m.dataSize); }
  else if (which == 4) { prep(a, b, c, t, f); long n = c + p; for (int i = 0; i < 64; i++) wn[i] = i; ok = p <= 0 && n > 0; call = [&, n] { m.CopyWaveLength(wn, n); }; snprintf(w, sizeof w, "HyMat CopyWaveLength of %ld into %d bands", n, c); }
  else { prep(3, 2, 4, t, f); ok = a >= 0 && b >= 0 && c >= 0 && a < p / 100 && b < p / 10 % 10 && c < p % 10 && p / 100 <= 2 && p / 10 % 10 <= 3 && p % 10 <= 4; call = [&] { d = m.range(a, b, c, p / 100, p / 10 % 10, p % 10); }; snprintf(w, sizeof w, "HyMat range %d %d %d to %d %d %d", a, b, c, p / 100, p / 10 % 10, p % 10); }
  (void)q;
  if ((which == 3 || which == 4) && (which == 3 ? m.dataSize + p : c + p) <= 0) return;
  long told = hv_stdout_bytes();

  int ended = hv_call([&] { L(call()); });
  bool said = hv_stdout_bytes() > told;
  if (ended && !hv_status) hv->fail("status", "%s ends the program with status 0", w);
  if (ended && !said) hv->fail("silent", "%s ends the program without a diagnosis", w);
  if (ok && ended) hv->fail("refused", "%s is refused although the arguments fit", w);
  if (!ok) {
    if (!ended && !((which == 2 || which == 5) && d.data == NULL && d.samples == 0)) { if (!(said && which != 0)) hv->fail("accepted", "%s is accepted", w); }
    if (made && (m.data != data || memcmp(m.data, was.data(), was.size()) || memcmp(m.wavelength, wl, 4 * m.bands))) hv->fail("damage", "%s is refused, but the mat is modified", w);
    if (!made && (m.data != NULL || m.samples || m.lines || m.bands)) hv->fail("damage", "%s is refused, but the mat is no longer empty", w);
  }
  (void)empty;
  hv->state(hv_hash(w, strlen(w), ended));
  if (d.data && d.data != m.data) d.release();
  if (m.data) m.release();
}
static void explore(HV &h) {
  auto V = rows(h.thorough);
  for (size_t ri = 0; ri < V.size(); ri++) {
    const Row &r = V[ri];
    std::vector<std::vector<Spec>> full, small;
    for (auto &b : r.base) full.push_back(around(b, false)), small.push_back(around(b, true));
    auto go = [&r](const Specs &s, const Ints &n) { if (!r.base.empty() || 1) if (r.fit(s, n) >= 0) probe(r, s, n); };
    Ints n0; for (auto &k : r.ints) n0.push_back(k[0]);
    // the arguments of one object after the other, with the others as they fit
    for (size_t i = 0; i < r.base.size(); i++) h.run([&] { for (auto &d : full[i]) { Specs s = r.base; s[i] = d; go(s, n0); } }, "%s: argument %zu", r.name.c_str(), i + 1);
    // every combination of numbers
    std::vector<Ints> all{{}};
    for (auto &k : r.ints) { std::vector<Ints> z; for (auto &a : all) for (int x : k) { z.push_back(a); z.back().push_back(x); } all = z; }
    size_t step = 4000;
    for (size_t q = 0; q < all.size(); q += step) h.run([&] { for (size_t i = q; i < std::min(all.size(), q + step); i++) go(r.base, all[i]); }, "%s: numbers from %zu", r.name.c_str(), q);
    // every combination of objects with one deviation each
    if (r.base.size() >= 2) {
      size_t n1 = small[0].size();
      for (size_t a = 0; a < n1; a++) h.run([&] { for (auto &d : small[1]) for (size_t c = 0; c < (r.base.size() > 2 ? small[2].size() : 1); c++) { Specs s = r.base; s[0] = small[0][a]; s[1] = d; if (r.base.size() > 2) s[2] = small[2][c]; go(s, n0); } }, "%s: combinations %zu", r.name.c_str(), a);
      if (h.thorough && r.base.size() == 2) for (size_t a = 0; a < full[0].size(); a++) h.run([&] { for (auto &d : full[1]) go({full[0][a], d}, n0); }, "%s: all combinations %zu", r.name.c_str(), a);
    }
    // objects with one deviation and one number each
    if (!r.base.empty() && !r.ints.empty()) for (size_t i = 0; i < r.base.size(); i++) h.run([&] { for (auto &d : small[i]) for (size_t k = 0; k < r.ints.size(); k++) for (int x : r.ints[k]) { Specs s = r.base; s[i] = d; Ints n = n0; n[k] = x; go(s, n); } }, "%s: argument %zu and numbers", r.name.c_str(), i + 1);
  }
  for (int t : ALLT) for (int f : FMT) {
    for (int p = -2; p <= 9; p++) h.run([&] { hymat(1, 3, 2, 4, t, f, p, 0); hymat(2, 3, 2, 4, t, f, p < 0 ? 10 + p : p, 0); }, "HyMat convert type %d format %d to %d", t, f, p);
    for (int p = -9; p <= 70; p++) h.run([&] { hymat(3, 3, 2, 4, t, f, p, 0); }, "HyMat CopyData type %d format %d excess %d", t, f, p);
    for (int p = -4; p <= 9; p++) h.run([&] { hymat(4, 3, 2, 4, t, f, p, 0); }, "HyMat CopyWaveLength type %d format %d excess %d", t, f, p);
    for (int a = -1; a <= 2; a++) for (int b = -1; b <= 3; b++) h.run([&] { for (int c = -1; c <= 4; c++) for (int e = 0; e <= 3; e++) for (int g = 0; g <= 4; g++) for (int i = 0; i <= 5; i++) hymat(5, a, b, c, t, f, e * 100 + g * 10 + i, 0); }, "HyMat range type %d format %d from %d %d", t, f, a, b);
  }
  for (int t = -1; t <= 17; t++) for (int f = -1; f <= 8; f++) h.run([&] { for (int a = -1; a <= 2; a++) for (int b = -1; b <= 2; b++) for (int c = -1; c <= 2; c++) hymat(0, a, b, c, t, f, 0, 0); }, "HyMat create type %d format %d", t, f);
}
int main(int c, char **v) { return hv_main(c, v, "C32", explore); }
