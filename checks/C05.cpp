// C05: save and load of cubes; the header is read back by an independent ENVI parser too.
#define HV_GUI
#include "envi.h"
#include "ops.h"

static const float WV[] = {400.5f, 0.0f, 1e-7f, 0.000001f, 0.1f, 123456.789f, -1.25f, 1e9f, 2500.123f, 16777216.0f, 3.4e38f, 0.333333f, 1.0f / 3, 99999.99f};
static void waves(hyper_mat m, int mode) {
  for (int k = 0; k < m->bands; k++)
    m->wavelength[k] = mode == 0 ? 400.0f + 2.5f * k : mode == 1 ? WV[k % 14] : mode == 2 ? 0.0f : mode == 3 ? -1000.0f - k : mode == 4 ? WV[(k * 5 + 3) % 14] : 1e30f + k * 1e25f;
}
static bool spoil(const std::string &p, size_t n) { Bytes b(n, 'x'); hv_write_file(p, b.data(), n); return true; }
static void check_saved(hyper_mat m, const std::string &p, const Bytes &k, const std::vector<float> &w) {
  Bytes f;
  CHECK(hv_read_file(p, f), "no-file", "no image was written");
  CHECK(f.size() == k.size(), "file-size", "the image file has %zu bytes, expected %zu", f.size(), k.size());
  same_bytes(f.data(), k.data(), k.size(), "file-data", "image file");
  char il[4] = {m->interleave[0], m->interleave[1], m->interleave[2], 0};
  expect_header(p + ".hdr", m->samples, m->lines, m->bands, m->data_type, il, w.data(), "header");
}
static void check_load(int S, int Ln, int B, int t, int il, const std::string &p, const Bytes &k, const std::vector<float> &w, int fds) {
  hyper_mat r = L(hmread_with_hdr(p.c_str(), (p + ".hdr").c_str()));
  expect_dims(r, S, Ln, B, t, ILV[il], "load-dims");
  same_bytes(r->data, k.data(), k.size(), "load-data", "loaded cube");
  for (int b = 0; b < B; b++) CHECK(near_(r->wavelength[b], w[b], 2e-7, 0.6e-6), "load-wave", "wavelength of band %d is %.9g, expected %.9g", b + 1, r->wavelength[b], w[b]);
  hv->state(hstate(r));
  delete_hyper_mat(r);
  r = L(hmread_with_size(p.c_str(), S, Ln, B, t, ILV[il]));
  expect_dims(r, S, Ln, B, t, ILV[il], "size-dims");
  same_bytes(r->data, k.data(), k.size(), "size-data", "cube loaded with its size");
  delete_hyper_mat(r);
  CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
}
static void one(int S, int Ln, int B, int t, int il, int wmode, int prior, const std::string &p) {
  int fds = hv_open_fds();
  hv_env.fill = prior & 1 ? 0xA5 : '9';
  unlink(p.c_str()); unlink((p + ".hdr").c_str());
  hyper_mat m = mkcube(S, Ln, B, t, ILV[il], S + Ln * 3 + B * 5);
  waves(m, wmode);
  Bytes k = dump(m);
  std::vector<float> w(m->wavelength, m->wavelength + B);
  if (prior == 1) { spoil(p, k.size() * 2 + 100); spoil(p + ".hdr", 3000 + 60 * B); }
  if (prior == 2) { spoil(p, 1); spoil(p + ".hdr", 1); }
  L(hmsave(p.c_str(), m));
  CHECK(hv_open_fds() == fds, "fd", "%d files are left open after saving", hv_open_fds() - fds);
  expect_dims(m, S, Ln, B, t, ILV[il], "src-dims");
  same_bytes(m->data, k.data(), k.size(), "src-data", "saved cube");
  expect_wave(m, w.data(), B, "src-wave");
  check_saved(m, p, k, w);
  check_load(S, Ln, B, t, il, p, k, w, fds);
  delete_hyper_mat(m);
  unlink(p.c_str()); unlink((p + ".hdr").c_str());
}
// every cube that an operation takes or delivers is saved and loaded like a fresh one
static void product(const Op &o, int a, int b, int k) {
  Ctx c; c.snap = false;
  run_op(o, c, a, b, k);
  std::string p = hv->tmp + "/product.img";
  size_t i = 0;
  for (hyper_mat m : c.hm) {
    int fds = hv_open_fds();
    int il = ilis(m, "bsq") ? 0 : ilis(m, "bil") ? 1 : ilis(m, "bip") ? 2 : -1;
    CHECK(il >= 0, "layout", "cube %zu has no layout", i);
    CHECK(tsize(m->data_type) > 0 && m->samples > 0 && m->lines > 0 && m->bands > 0, "product", "cube %zu is %d x %d x %d type %d", i, m->samples, m->lines, m->bands, m->data_type);
    waves(m, (int)i % 2);
    Bytes d = dump(m);
    std::vector<float> w(m->wavelength, m->wavelength + m->bands);
    unlink(p.c_str()); unlink((p + ".hdr").c_str());
    L(hmsave(p.c_str(), m));
    check_saved(m, p, d, w);
    check_load(m->samples, m->lines, m->bands, m->data_type, il, p, d, w, fds);
    i++;
  }
  unlink(p.c_str()); unlink((p + ".hdr").c_str());
  c.release();
}
// histories of saves and loads over two paths and four cubes
static void history(int code, int depth) {
  int fds = hv_open_fds();
  static const int SH[4][5] = {{2, 3, 4, 1, 0}, {1, 1, 1, 5, 2}, {5, 1, 2, 4, 1}, {3, 2, 9, 12, 2}};
  std::string path[2] = {hv->tmp + "/h0", hv->tmp + "/h1.img"};
  int held[2] = {-1, -1};
  for (auto &p : path) { unlink(p.c_str()); unlink((p + ".hdr").c_str()); }
  for (int d = 0; d < depth; d++, code /= 8) {
    int c = code % 4, q = code / 4 % 2;
    hyper_mat m = mkcube(SH[c][0], SH[c][1], SH[c][2], SH[c][3], ILV[SH[c][4]], c);
    waves(m, c == 3 ? 1 : 0);
    L(hmsave(path[q].c_str(), m));
    delete_hyper_mat(m);
    held[q] = c;
    u64 st = 0;
    for (int i = 0; i < 2; i++) if (held[i] >= 0) {
      const int *s = SH[held[i]];
      hyper_mat e = mkcube(s[0], s[1], s[2], s[3], ILV[s[4]], held[i]);
      waves(e, held[i] == 3 ? 1 : 0);
      Bytes k = dump(e);
      std::vector<float> w(e->wavelength, e->wavelength + e->bands);
      check_saved(e, path[i], k, w);
      check_load(s[0], s[1], s[2], s[3], s[4], path[i], k, w, fds);
      delete_hyper_mat(e);
      st = st * 5 + held[i] + 1;
    }
    hv->state(st);
  }
  for (auto &p : path) { unlink(p.c_str()); unlink((p + ".hdr").c_str()); }
}
// a header alone, with and without wavelengths
static void header(int S, int Ln, int B, int t, int il, bool wave) {
  std::string p = hv->tmp + "/hd";
  spoil(p + ".hdr", 4000);
  std::vector<float> w(B);
  for (int k = 0; k < B; k++) w[k] = 300.25f + k;
  std::vector<float> w0 = w;
  char nm[8]; strcpy(nm, ILV[il]); strcpy(nm + 3, "zz");  // three characters count, as in the cube's field
  L(writehdr(p.c_str(), S, Ln, B, t, nm, wave ? w.data() : NULL));
  expect_header(p + ".hdr", S, Ln, B, t, ILV[il], wave ? w0.data() : NULL, "writehdr");
  CHECK(w == w0, "writehdr-src", "the wavelengths of the caller changed");
  struct stat st;
  CHECK(stat(p.c_str(), &st) != 0, "writehdr-img", "writing a header created an image");
  // and it loads
  Bytes f((size_t)S * Ln * B * tsize(t)); fillpat(f.data(), f.size());
  hv_write_file(p, f.data(), f.size());
  hyper_mat m = L(hmread_with_hdr(p.c_str(), (p + ".hdr").c_str()));
  expect_dims(m, S, Ln, B, t, ILV[il], "writehdr-load");
  same_bytes(m->data, f.data(), f.size(), "writehdr-load", "cube loaded with a written header");
  hv->state(hstate(m));
  delete_hyper_mat(m);
  unlink(p.c_str()); unlink((p + ".hdr").c_str());
}
// more than 2^31 bytes, in a file that is not on the disk
static void huge(int S, int Ln, int B, int il) {
  hv_huge(8); hv_env.fill = 0xA5;
  size_t n = (size_t)S * Ln * B;
  std::string p = hv->tmp + "/huge.img";
  hyper_mat m = create_hyper_mat(S, Ln, B, 1, ILV[il]);
  mark_fill(0, (char *)m->data, n, n);
  for (int k = 0; k < B; k++) m->wavelength[k] = 400 + k;
  hv_virtual.path = p; hv_virtual.size = 0;
  hv_virtual.f = [&](u64 off, char *b, size_t c) { mark_check(off, b, c, n, "huge-saved", "a saved cube"); hv_virtual.size = std::max(hv_virtual.size, off + c); };
  L(hmsave(p.c_str(), m));
  CHECK(hv_virtual.size == n, "huge-size", "%llu of %zu bytes were written", (unsigned long long)hv_virtual.size, n);
  mark_check(0, (char *)m->data, n, n, "huge-src", "the saved cube");
  delete_hyper_mat(m);
  hv_virtual.f = [&](u64 off, char *b, size_t c) { mark_fill(off, b, c, n); };
  hv_virtual.size = n;
  for (int q = 0; q < 3; q++) {
    void *d = NULL;
    simple_mat s = NULL; m = NULL;
    if (q == 0) { m = L(hmread_with_hdr(p.c_str(), (p + ".hdr").c_str())); if (m) { d = m->data; expect_dims(m, S, Ln, B, 1, ILV[il], "huge-dims"); for (int k = 0; k < B; k++) CHECK(m->wavelength[k] == 400 + k, "huge-wave", "wavelength %g of band %d", m->wavelength[k], k); } }
    if (q == 1) { m = L(hmread_with_size(p.c_str(), S, Ln, B, 1, ILV[il])); if (m) { d = m->data; expect_dims(m, S, Ln, B, 1, ILV[il], "huge-dims"); } }
    if (q == 2) { s = L(smread(p.c_str(), Ln, S, 1, B)); if (s) { d = s->data; expect_dims(s, Ln, S, 1, B, "huge-dims"); } }
    CHECK(d, "huge-load", "a file of %zu bytes is not read", n);
    if (d) mark_check(0, (char *)d, n, n, "huge-load", "a loaded file");
    delete_hyper_mat(m); delete_simple_mat(s);
  }
  hv_virtual.size = n - 1;
  m = L(hmread_with_size(p.c_str(), S, Ln, B, 1, ILV[il]));
  CHECK(m == NULL, "huge-short", "a file of %zu bytes made a cube of %zu", n - 1, n);
  hv->state(n);
}
static void explore(HV &h) {
  h.run([&] { huge(40009, 17903, 3, 1); }, "2148843381 bytes");
  if (h.thorough) h.run([&] { huge(37011, 13003, 9, 2); }, "4331286297 bytes");
  int N = h.thorough ? 6 : 4;
  auto P = [](const char *n) { return hv->tmp + "/" + n; };
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N; B++) for (int t : ALLT) for (int il = 0; il < 3; il++) for (int prior = 0; prior < 3; prior++)
    h.run([&] { one(S, Ln, B, t, il, (S + Ln + B) % 6, prior, P("c.img")); }, "%d x %d x %d type %d %s older file %d", S, Ln, B, t, ILV[il], prior);
  // number of bands, and with it the length of the wavelength list
  for (int B = 5; B <= (h.thorough ? 2200 : 320); B++) for (int wm = 0; wm < 6; wm++) h.run([&] { one(1, 1, B, 1, 0, wm, B % 3, P("b.img")); }, "%d bands wavelengths %d", B, wm);
  for (int B = 640; B <= 1300; B += h.thorough ? 1 : 3) for (int wm : {0, 1, 3}) h.run([&] { one(1, 1, B, 1, 0, wm, 0, P("b.img")); }, "%d bands wavelengths %d", B, wm);
  for (int B : {2000, 4096, 5000, 10000, 33000, 70000}) for (int wm = 0; wm < 6; wm++) h.run([&] { one(1, 1, B, 2, 2, wm, 1, P("b.img")); }, "%d bands wavelengths %d", B, wm);
  // large and boundary shapes
  for (int e : {31, 64, 127, 128, 255, 256, 257, 999, 1000, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 100000, 1000000}) for (int ax = 0; ax < 2; ax++) for (int t : ALLT) {
    int d[2] = {2, 3}; d[ax] = e;
    h.run([&] { one(d[0], d[1], 2, t, e % 3, 0, e % 3, P("e.img")); }, "%d x %d x 2 type %d", d[0], d[1], t);
  }
  for (int t : ALLT) for (int il = 0; il < 3; il++) h.run([&] { one(203, 107, 31, t, il, 4, 1, P("m.img")); }, "203 x 107 x 31 type %d %s", t, ILV[il]);
  h.run([&] { one(4099, 1027, 5, 1, 1, 0, 0, P("l.img")); }, "large 4099 x 1027 x 5");
  if (h.thorough) h.run([&] { one(8209, 8219, 5, 4, 1, 0, 0, P("l.img")); }, "large 8209 x 8219 x 5 float");
  // path names
  for (int n = 1; n <= 250; n++) h.run([&] { one(2, 2, 2, 1, 0, 0, 0, hv->tmp + "/" + std::string(n, 'a')); }, "file name of %d characters", n);
  for (const char *s : {"a b", "x.hdr", "x.img.hdr", ".hidden", "a.b.c", "%s%d%n", "caf\xc3\xa9", "img.", "dat.raw", "new\nline", "UPPER.IMG"}) h.run([&] { one(2, 3, 2, 12, 2, 1, 0, P(s)); }, "file name %s", s);
  h.run([&] { CHECK(chdir(hv->tmp.c_str()) == 0, "chdir", "chdir"); one(2, 3, 2, 12, 2, 1, 0, "rel"); one(2, 3, 2, 12, 2, 1, 0, "./rel.img"); }, "relative path");
  for (int il = 0; il < 3; il++) for (int t : ALLT) for (int B = 1; B <= 12; B++) for (int wv = 0; wv < 2; wv++) h.run([&] { header(B % 4 + 1, B % 3 + 1, B, t, il, wv); }, "header of %d bands type %d %s wavelengths %d", B, t, ILV[il], wv);
  int D = h.thorough ? 5 : 4, n = 1;
  for (int d = 0; d < D; d++) n *= 8;
  for (int c = 0; c < n; c++) h.run([&] { history(c, D); }, "history %d of depth %d", c, D);
  std::vector<std::array<int, 3>> SH = {{1, 1, 1}, {2, 3, 4}, {4, 3, 2}, {3, 3, 3}, {1, 5, 2}};
  if (h.thorough) for (int s = 1; s <= 4; s++) for (int l = 1; l <= 4; l++) for (int b = 1; b <= 4; b++) SH.push_back({s, l, b});
  for (auto &o : ops()) if (o.dims == 3) for (auto &d : SH) h.run([&] { product(o, d[0], d[1], d[2]); }, "cubes of: %s at %d %d %d", o.name.c_str(), d[0], d[1], d[2]);
  for (int d : {1, 3, 8, 15, 18}) h.run([&] { std::string p = h.tmp; for (int i = 0; i < d; i++) { p += "/" + std::string(200, 'a' + i); mkdir(p.c_str(), 0755); } one(3, 2, 2, 4, d % 3, 0, 0, p + "/x.img"); }, "path through %d long directories", d);
  for (auto &c : {std::array<int, 3>{65, 37, 259}, {513, 300, 5}, {31, 257, 130}}) for (int t : ALLT) for (int il = 0; il < 3; il++) h.run([&] { one(c[0], c[1], c[2], t, il, t % 6, il, P("m.img")); }, "%d x %d x %d type %d %s", c[0], c[1], c[2], t, ILV[il]);
}
int main(int c, char **v) { return hv_main(c, v, "C05", explore); }
