// C03: creation and copying of images, cubes and structuring elements.
#include "lib.h"

static void env(int e) { hv_env.fill = (e & 1) ? 0xFF : 0xA5; hv_env.residue = e >> 1; }
static bool zero(const void *p, size_t n) { for (size_t i = 0; i < n; i++) if (((const u8 *)p)[i]) return false; return true; }
static void img(int R, int C, int t, int ch, int e) {
  env(e);
  long live = hv_env.live;
  simple_mat m = L(create_simple_mat(R, C, t, ch));
  expect_dims(m, R, C, t, ch, "image-dims");
  CHECK(m->elem_size == tsize(t), "image-elem", "element size %d, expected %d", m->elem_size, tsize(t));
  CHECK(zero(m->data, nbytes(m)), "image-zero", "a new image is not all zero");
  fillpat(m->data, nbytes(m), R * 7 + C);
  expect_dims(m, R, C, t, ch, "image-overlap");
  CHECK(m->elem_size == tsize(t), "image-overlap", "filling the image changed its element size");
  Bytes k = dump(m);
  simple_mat c = L(simple_mat_copy(m));
  expect_dims(c, R, C, t, ch, "icopy-dims");
  CHECK(c->elem_size == tsize(t), "icopy-elem", "element size of the copy is %d, expected %d", c->elem_size, tsize(t));
  CHECK(c != m && c->data != m->data, "icopy-shared", "the copy shares memory with its source");
  same_bytes(c->data, k.data(), k.size(), "icopy-data", "copy of an image");
  memset(m->data, 0x11, nbytes(m));
  same_bytes(c->data, k.data(), k.size(), "icopy-alias", "copy after its source changed");
  hv->state(hstate(c));
  L(delete_simple_mat(m));
  same_bytes(c->data, k.data(), k.size(), "icopy-delete", "copy after its source was deleted");
  memset(c->data, 0x12, nbytes(c));
  L(delete_simple_mat(c));
  CHECK(hv_env.live == live, "image-leak", "%ld blocks are left after deleting the images", hv_env.live - live);
}
static void img_data(int R, int C, int t, int ch, int e) {
  env(e);
  long live = hv_env.live;
  size_t n = (size_t)R * C * ch * tsize(t);
  u8 *d = (u8 *)hv_malloc(n);
  fillpat(d, n, 5);
  Bytes k = bytes(d, n);
  simple_mat m = L(create_simple_mat_with_data(R, C, t, ch, d));
  expect_dims(m, R, C, t, ch, "wdata-dims");
  CHECK(m->elem_size == tsize(t), "wdata-elem", "element size %d, expected %d", m->elem_size, tsize(t));
  same_bytes(m->data, k.data(), n, "wdata-data", "image created with data");
  simple_mat c = L(simple_mat_copy(m));
  expect_dims(c, R, C, t, ch, "wdata-copy");
  CHECK(c->data != m->data && c->data != d, "wdata-shared", "the copy shares the caller's memory");
  same_bytes(c->data, k.data(), n, "wdata-copy", "copy of an image created with data");
  hv->state(hstate(c));
  L(delete_simple_mat(m));
  same_bytes(c->data, k.data(), n, "wdata-delete", "copy after its source was deleted");
  L(delete_simple_mat(c));
  CHECK(hv_env.live == live, "wdata-leak", "%ld blocks are left after deleting the images", hv_env.live - live);
}
static void expect_cube(hyper_mat m, int S, int Ln, int B, int t, int il, const Bytes &k, const std::vector<float> &w, const char *key, const char *what) {
  expect_dims(m, S, Ln, B, t, ILV[il], key);
  same_bytes(m->data, k.data(), k.size(), key, what);
  expect_wave(m, w.data(), B, key);
}
static void cube(int S, int Ln, int B, int t, int il, int mode, int e) {
  env(e);
  long live = hv_env.live;
  size_t n = (size_t)S * Ln * B * tsize(t);
  Bytes k(n, 0);
  std::vector<float> w(B, 0.0f);
  if (mode & 1) fillpat(k.data(), n, 3);
  if (mode & 2) for (int b = 0; b < B; b++) w[b] = b % 3 ? 1e30f / (b + 1) : -0.125f * b;
  u8 *d = (mode & 1) ? (u8 *)hv_malloc(n) : NULL;
  float *wl = (mode & 2) ? (float *)hv_malloc(4 * (size_t)B) : NULL;
  if (d) memcpy(d, k.data(), n);
  if (wl) memcpy(wl, w.data(), 4 * (size_t)B);
  char name[4]; strcpy(name, ILV[il]);
  hyper_mat m = mode == 4 ? L(create_hyper_mat(S, Ln, B, t, name)) : L(create_hyper_mat_with_data(S, Ln, B, t, name, d, wl));
  if (d) { same_bytes(d, k.data(), n, "caller-data", "the caller's samples"); memset(d, 0x77, n); hv_free(d); }
  if (wl) { same_bytes(wl, w.data(), 4 * (size_t)B, "caller-wave", "the caller's wavelengths"); memset(wl, 0x77, 4 * (size_t)B); hv_free(wl); }
  expect_cube(m, S, Ln, B, t, il, k, w, "cube", "new cube");
  CHECK(hyper_mat_empty(m) == 0, "cube-empty", "a created cube counts as empty");
  hyper_mat c = L(hyper_mat_copy(m));
  CHECK(c != m && c->data != m->data && c->wavelength != m->wavelength, "ccopy-shared", "the copy shares memory with its source");
  expect_cube(c, S, Ln, B, t, il, k, w, "ccopy", "copy of a cube");
  memset(m->data, 0x13, n); memset(m->wavelength, 0x13, 4 * (size_t)B);
  expect_dims(m, S, Ln, B, t, ILV[il], "cube-overlap");
  expect_cube(c, S, Ln, B, t, il, k, w, "ccopy-alias", "copy after its source changed");
  // copy into existing cubes of every layout
  for (int i2 = 0; i2 < 3; i2++) {
    hyper_mat q = mkcube(S, Ln, B, t, ILV[i2], 9);
    L(hyper_mat_copy_to(c, q));
    expect_cube(q, S, Ln, B, t, il, k, w, "copyto", "cube copied into another");
    expect_cube(c, S, Ln, B, t, il, k, w, "copyto-src", "source of a copy into another cube");
    memset(q->data, 0x14, n); memset(q->wavelength, 0x14, 4 * (size_t)B);
    expect_cube(c, S, Ln, B, t, il, k, w, "copyto-alias", "source after the other cube changed");
    hyper_mat r = mkcube(S + 1, 1, B, t == 5 ? 1 : 5, ILV[i2], 9);
    Bytes rk = dump(r);
    L(hyper_mat_copy_wavelength(c, r));
    expect_cube(r, S + 1, 1, B, t == 5 ? 1 : 5, i2, rk, w, "wavecopy", "cube that only receives wavelengths");
    expect_cube(c, S, Ln, B, t, il, k, w, "wavecopy-src", "source of the wavelengths");
    hv->state(hv_mix(hstate(q), hstate(r)));
    delete_hyper_mat(q); delete_hyper_mat(r);
  }
  hv->state(hstate(c));
  L(delete_hyper_mat(m));
  expect_cube(c, S, Ln, B, t, il, k, w, "ccopy-delete", "copy after its source was deleted");
  L(delete_hyper_mat(c));
  CHECK(hv_env.live == live, "cube-leak", "%ld blocks are left after deleting the cubes", hv_env.live - live);
}
static void kernel(int w, int h, int e) {
  env(e);
  long live = hv_env.live;
  S_2D s = L(create_2D_struct(w, h));
  CHECK(s && s->width == w && s->height == h, "kernel-dims", "kernel dimensions");
  for (int i = 0; i < w * h; i++) CHECK(((u8 *)s->data)[i] == 1, "kernel-ones", "a new kernel has %d at %d", ((u8 *)s->data)[i], i);
  Bytes k(w * h); fillpat(k.data(), k.size());
  Bytes d = k;
  S_2D s2 = L(create_2D_struct_with_data(w, h, d.data()));
  CHECK(s2 && s2->width == w && s2->height == h, "kernel-dims", "kernel dimensions");
  same_bytes(s2->data, k.data(), k.size(), "kernel-data", "kernel created with data");
  hv->state(hv_mix(w * 100 + h, hv_hash(s2->data, k.size())));
  L(delete_S_2D(s)); L(delete_S_2D(s2));
  same_bytes(d.data(), k.data(), k.size(), "kernel-caller", "the caller's kernel data");
  CHECK(hv_env.live == live, "kernel-leak", "%ld blocks are left after deleting the kernels", hv_env.live - live);
}
// ---- histories over three slots ----
struct Obj { bool on = false; int shape = 0; Bytes d; std::vector<float> w; };
struct World { Obj o[3]; int n = 0; };
// ops: 0-2 create(i) 3-5 modify(i) 6-8 delete(i) 9-14 copy(i->j) (into an empty slot), 15-20 copy_to / wavelength (cubes)
static const int FROM[6] = {0, 0, 1, 1, 2, 2}, TO_[6] = {1, 2, 0, 2, 0, 1};
static bool enabled(const World &w, int op, bool cubes) {
  if (op < 3) return !w.o[op].on;
  if (op < 9) return w.o[op % 3].on;
  if (op < 15) return w.o[FROM[op - 9]].on && !w.o[TO_[op - 9]].on;
  return cubes && w.o[FROM[op - 15]].on && w.o[TO_[op - 15]].on && w.o[FROM[op - 15]].d.size() == w.o[TO_[op - 15]].d.size();
}
static void apply(World &w, int op) {  // effect on which slots are in use and of what size
  if (op < 3) { w.o[op].on = true; w.o[op].d.resize(op == 2 ? 6 : 12); }
  else if (op < 6) ;
  else if (op < 9) { w.o[op % 3].on = false; }
  else if (op < 15) { w.o[TO_[op - 9]].on = true; w.o[TO_[op - 9]].d.resize(w.o[FROM[op - 9]].d.size()); }
}
static void history(const std::vector<int> &ops, bool cubes, int t, int e) {
  env(e);
  long live = hv_env.live;
  Obj o[3]; simple_mat s[3] = {}; hyper_mat c[3] = {};
  int step = 0;
  for (int op : ops) {
    step++;
    int i = op < 9 ? op % 3 : FROM[(op - 9) % 6], j = op < 9 ? i : TO_[(op - 9) % 6];
    int cols = i == 2 ? 2 : 4;
    if (op < 3) {
      o[i].on = true; o[i].shape = cols;
      if (cubes) c[i] = L(create_hyper_mat(cols, 1, 3, t, ILV[i])); else s[i] = L(create_simple_mat(3, cols, t, 1));
      o[i].d.assign((size_t)3 * cols * tsize(t), 0); o[i].w.assign(3, 0.0f);
    } else if (op < 6) {
      fillpat(cubes ? c[i]->data : s[i]->data, o[i].d.size(), step * 3 + i); fillpat(o[i].d.data(), o[i].d.size(), step * 3 + i);
      if (cubes) for (int b = 0; b < 3; b++) c[i]->wavelength[b] = o[i].w[b] = step * 10.5f + b;
    } else if (op < 9) {
      if (cubes) L(delete_hyper_mat(c[i])); else L(delete_simple_mat(s[i]));
      o[i].on = false;
    } else if (op < 15) {
      if (cubes) c[j] = L(hyper_mat_copy(c[i])); else s[j] = L(simple_mat_copy(s[i]));
      o[j] = o[i];
    } else {
      L(hyper_mat_copy_to(c[i], c[j])); o[j] = o[i];
    }
    u64 h = 0;
    for (int q = 0; q < 3; q++) if (o[q].on) {
      if (cubes) {
        CHECK(c[q] && c[q]->samples == o[q].shape && c[q]->lines == 1 && c[q]->bands == 3 && c[q]->data_type == t, "hist-dims", "step %d: cube %d has wrong dimensions", step, q);
        same_bytes(c[q]->data, o[q].d.data(), o[q].d.size(), "hist-data", "cube in a history"); expect_wave(c[q], o[q].w.data(), 3, "hist-wave"); h = hv_mix(h, hstate(c[q]));
      } else { expect_dims(s[q], 3, o[q].shape, t, 1, "hist-dims"); same_bytes(s[q]->data, o[q].d.data(), o[q].d.size(), "hist-data", "image in a history"); h = hv_mix(h, hstate(s[q])); }
    } else h = hv_mix(h, 1);
    hv->state(h);
  }
  for (int q = 0; q < 3; q++) if (o[q].on) { if (cubes) delete_hyper_mat(c[q]); else delete_simple_mat(s[q]); }
  CHECK(hv_env.live == live, "hist-leak", "%ld blocks are left at the end of the history", hv_env.live - live);
}
static void grow(HV &h, World w, std::vector<int> &ops, int depth, bool cubes, int t) {
  if ((int)ops.size() == depth) {
    std::string s; for (int o : ops) s += std::to_string(o) + ",";
    h.run([&] { history(ops, cubes, t, depth & 1); }, "%s history %s type %d", cubes ? "cube" : "image", s.c_str(), t);
    return;
  }
  for (int op = 0; op < 21; op++) if (enabled(w, op, cubes)) { World x = w; apply(x, op); ops.push_back(op); grow(h, x, ops, depth, cubes, t); ops.pop_back(); }
}
// more than 2^31 bytes
static void huge_cube() {
  hv_huge(8); hv_env.fill = 0xA5;
  int S = 46341, Ln = 46341; size_t n = (size_t)S * Ln;
  hyper_mat m = L(create_hyper_mat(S, Ln, 1, 1, "bil"));
  expect_dims(m, S, Ln, 1, 1, "bil", "huge-dims");
  zero_check(m->data, n, "huge-zero", "a fresh cube");
  mark_fill(0, (char *)m->data, n, n); m->wavelength[0] = 5;
  hyper_mat c = L(hyper_mat_copy(m));
  expect_dims(c, S, Ln, 1, 1, "bil", "huge-dims");
  mark_check(0, (char *)c->data, n, n, "huge-copy", "the copy of a cube");
  memset(c->data, 9, n); c->wavelength[0] = 4;
  hyper_mat_copy_to(m, c);
  mark_check(0, (char *)c->data, n, n, "huge-copy-to", "a cube copied to another");
  CHECK(c->wavelength[0] == 5, "huge-wave", "wavelength %g", c->wavelength[0]);
  L(delete_hyper_mat(c));
  float w = 7;
  c = L(create_hyper_mat_with_data(S, Ln, 1, 1, "bil", m->data, &w));
  mark_check(0, (char *)c->data, n, n, "huge-data", "a cube from data");
  mark_check(0, (char *)m->data, n, n, "huge-src", "the source of it");
  CHECK(c->wavelength[0] == 7, "huge-wave", "wavelength %g", c->wavelength[0]);
  hv->state(n);
  L(delete_hyper_mat(m)); L(delete_hyper_mat(c));
}
static void huge_image() {
  hv_huge(8); hv_env.fill = 0xA5;
  int R = 46341, C = 15447; size_t n = (size_t)R * C * 3;
  simple_mat m = L(create_simple_mat(R, C, 1, 3));
  expect_dims(m, R, C, 1, 3, "huge-dims");
  zero_check(m->data, n, "huge-zero", "a fresh image");
  mark_fill(0, (char *)m->data, n, n);
  simple_mat c = L(simple_mat_copy(m));
  expect_dims(c, R, C, 1, 3, "huge-dims");
  mark_check(0, (char *)c->data, n, n, "huge-copy", "the copy of an image");
  L(delete_simple_mat(c));
  mark_check(0, (char *)m->data, n, n, "huge-src", "the source of it");
  hv->state(n);
  L(delete_simple_mat(m));
}
static void explore(HV &h) {
  int N = h.thorough ? 8 : 5;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int t : ALLT) for (int ch = 1; ch <= 4; ch++) for (int e = 0; e < 8; e++) {
    h.run([&] { img(R, C, t, ch, e); }, "image %d x %d type %d channels %d env %d", R, C, t, ch, e);
    h.run([&] { img_data(R, C, t, ch, e); }, "image with data %d x %d type %d channels %d env %d", R, C, t, ch, e);
  }
  std::vector<int> E = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100003};
  for (int e : E) for (int t : ALLT) for (int ch : {1, 3}) for (int ax = 0; ax < 2; ax++) {
    int a = ax ? e : 3, b = ax ? 2 : e;
    h.run([&] { img(a, b, t, ch, e % 8); }, "image %d x %d type %d channels %d", a, b, t, ch);
    h.run([&] { img_data(a, b, t, ch, e % 8); }, "image with data %d x %d type %d channels %d", a, b, t, ch);
  }
  for (int ch : {5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 100, 224, 255, 256, 257, 1000, 4097, 65536}) for (int t : ALLT) for (int sh = 0; sh < 6; sh++) {
    static const int Q[6][2] = {{1, 1}, {1, 2}, {2, 1}, {3, 2}, {2, 5}, {4, 4}};
    h.run([&] { img(Q[sh][0], Q[sh][1], t, ch, sh); }, "image %d x %d type %d channels %d", Q[sh][0], Q[sh][1], t, ch);
    h.run([&] { img_data(Q[sh][0], Q[sh][1], t, ch, sh); }, "image with data %d x %d type %d channels %d", Q[sh][0], Q[sh][1], t, ch);
  }
  int M = h.thorough ? 5 : 3;
  for (int S = 1; S <= M; S++) for (int Ln = 1; Ln <= M; Ln++) for (int B = 1; B <= M + 1; B++) for (int t : ALLT) for (int il = 0; il < 3; il++) for (int mode = 0; mode < 5; mode++) for (int e = 0; e < 8; e++)
    h.run([&] { cube(S, Ln, B, t, il, mode, e); }, "cube %d x %d x %d type %d %s mode %d env %d", S, Ln, B, t, ILV[il], mode, e);
  for (int e : E) for (int ax = 0; ax < 3; ax++) for (int t : ALLT) for (int mode = 0; mode < 5; mode++) {
    int d[3] = {2, 3, 2}; d[ax] = e;
    h.run([&] { cube(d[0], d[1], d[2], t, e % 3, mode, e % 8); }, "cube %d x %d x %d type %d mode %d", d[0], d[1], d[2], t, mode);
  }
  for (int w = 1; w <= 9; w++) for (int k = 1; k <= 9; k++) for (int e = 0; e < 8; e++) h.run([&] { kernel(w, k, e); }, "kernel %d x %d env %d", w, k, e);
  for (int w : {31, 64, 127, 129, 255, 256, 257, 300, 1000}) for (int k : {1, 2, 255, 257}) { h.run([&] { kernel(w, k, 0); }, "kernel %d x %d", w, k); h.run([&] { kernel(k, w, 0); }, "kernel %d x %d", k, w); }
  h.run([&] { CHECK(L(hyper_mat_empty(NULL)) == 1, "null", "NULL does not count as empty"); CHECK(L(hyper_mat_copy(NULL)) == NULL, "null", "the copy of nothing is something"); L(delete_hyper_mat(NULL)); L(delete_simple_mat(NULL)); L(delete_S_2D(NULL)); }, "nothing");
  for (int cubes = 0; cubes < 2; cubes++) for (int d = 1; d <= (h.thorough ? 8 : 6); d++) for (int t : {1, 4, 5}) { if (d >= 6 && t != 1 + d % 2 * 3) continue; std::vector<int> ops; grow(h, World(), ops, d, cubes, t); }
  // large objects
  for (int t : {1, 2, 4}) { h.run([&] { img(4099, 4111, t, 1, 0); }, "large image type %d", t); h.run([&] { img_data(4099, 1371, t, 3, 1); }, "large colour image type %d", t); h.run([&] { cube(2051, 1027, 9, t, 1, 3, 2); }, "large cube type %d", t); }
  h.run([&] { huge_cube(); }, "cubes of 2147488281 bytes");
  h.run([&] { huge_image(); }, "images of 2147488281 bytes");
}
int main(int c, char **v) { return hv_main(c, v, "C03", explore); }
