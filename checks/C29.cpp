// C29: save and open of C++ cubes; the header is also read by an independent ENVI parser.
#define HV_CXX
#include "envi.h"
#include "cpl_error.h"
typedef hypercv::HyMat HM;
static const int FM[3] = {HYPERCV_BSQ, HYPERCV_BIL, HYPERCV_BIP};
struct Cube { int S, Ln, B, t, f; Bytes d; std::vector<float> w; };
static Cube mk(int S, int Ln, int B, int t, int f, int salt, int wmode) {
  static const float WV[] = {400.5f, 0.0f, 1e-7f, 0.000001f, 0.1f, 123456.789f, -1.25f, 1e9f, 2500.123f, 16777216.0f, 3.4e38f, 0.333333f, 1.0f / 3, 99999.99f};
  Cube c = {S, Ln, B, t, f, Bytes((size_t)S * Ln * B * tsize(t)), {}};
  fillpat(c.d.data(), c.d.size(), salt);
  for (int k = 0; k < B; k++) c.w.push_back(wmode == 0 ? 400.0f + 2.5f * k + salt : wmode == 1 ? WV[k % 14] : wmode == 2 ? 0.0f : wmode == 3 ? -1000.0f - k : WV[(k * 5 + 3) % 14]);
  return c;
}
static HM mat(const Cube &c) {
  HM m(c.S, c.Ln, c.B, c.t, FM[c.f]);
  m.CopyData((void *)c.d.data()); m.CopyWaveLength((float *)c.w.data());
  return m;
}
static std::string hdr(const std::string &p) {
  size_t s = p.rfind('/'), d = p.rfind('.');
  return (d != std::string::npos && d > s ? p.substr(0, d) : p) + ".hdr";
}
static void expect(HM &m, const Cube &c, const char *key, const char *what, bool wave = true, double tol = 0.6e-6) {
  CHECK(m.empty() == 0, key, "%s is empty", what);
  CHECK(m.samples == c.S && m.lines == c.Ln && m.bands == c.B && m.dataType == c.t && m.format == FM[c.f], key, "%s is %d x %d x %d type %d format %d, expected %d x %d x %d type %d format %d", what, m.samples, m.lines, m.bands, m.dataType, m.format, c.S, c.Ln, c.B, c.t, FM[c.f]);
  CHECK(memcmp(m.interleave, ILV[c.f], 3) == 0 && m.elemSize == tsize(c.t) && (size_t)m.dataSize == c.d.size(), key, "%s: interleave %.3s, element size %d, data size %ld", what, m.interleave, m.elemSize, m.dataSize);
  same_bytes(m.data, c.d.data(), c.d.size(), key, what);
  CHECK(m.wavelength != NULL, key, "%s has no wavelengths", what);
  for (int k = 0; k < c.B; k++) {
    double e = wave ? c.w[k] : 0;
    CHECK(near_(m.wavelength[k], e, tol ? 2e-7 : 0, tol), key, "%s: wavelength of band %d is %.9g, expected %.9g", what, k + 1, m.wavelength[k], e);
  }
}
static void expect_empty(HM &m, const char *key, const char *what) {
  CHECK(m.empty() != 0, key, "%s is not empty", what);
  CHECK(m.data == NULL && m.wavelength == NULL, key, "%s is empty but holds memory", what);
}
static void fds_are(int n, const char *what) { CHECK(hv_open_fds() == n, "fd", "%d files are left open after %s", hv_open_fds() - n, what); }
static void spoil(const std::string &p, size_t n) { Bytes b(n, 'x'); hv_write_file(p, b.data(), n); }
static void wipe(const std::string &p) { unlink(p.c_str()); unlink(hdr(p).c_str()); unlink((p + ".aux.xml").c_str()); }
static void check_saved(const Cube &c, const std::string &p) {
  Bytes f;
  CHECK(hv_read_file(p, f), "no-file", "no image was written");
  CHECK(f.size() == c.d.size(), "file-size", "the image file has %zu bytes, expected %zu", f.size(), c.d.size());
  same_bytes(f.data(), c.d.data(), c.d.size(), "file-data", "image file");
  expect_header(hdr(p), c.S, c.Ln, c.B, c.t, ILV[c.f], c.w.data(), "header");
}
static void check_load(const Cube &c, const std::string &p, int fds, int into) {
  long live = hv_env.live;
  HM r;
  if (into) { r.create(3, 1, 2, 5, HYPERCV_BIP); }
  L(r.open(p.c_str(), hdr(p).c_str()));
  expect(r, c, "open", "opened cube");
  L(r.release());
  if (into) r.create(7, 5, 1, 1, HYPERCV_BSQ);
  L(r.open(p.c_str(), c.S, c.Ln, c.B, c.t, FM[c.f]));
  expect(r, c, "open-size", "cube opened with its size", false, 0);
  L(r.release());
  r = L(hypercv::hmread(p.c_str(), hdr(p).c_str()));
  expect(r, c, "read", "read cube");
  L(r.release());
  r = L(hypercv::hmread(p.c_str(), c.S, c.Ln, c.B, c.t, FM[c.f]));
  expect(r, c, "read-size", "cube read with its size", false, 0);
  L(r.release());
  fds_are(fds, "opening");
  CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live);
}
static void one(int S, int Ln, int B, int t, int f, int wmode, int prior, const std::string &p) {
  int fds = hv_open_fds();
  hv_env.fill = prior & 1 ? 0xA5 : '9';
  wipe(p);
  Cube c = mk(S, Ln, B, t, f, S + Ln * 3 + B * 5, wmode);
  HM m = mat(c);
  if (prior == 1) { spoil(p, c.d.size() * 2 + 100); spoil(hdr(p), 3000 + 60 * B); }
  if (prior == 2) { spoil(p, 1); spoil(hdr(p), 1); }
  L(m.save(p.c_str()));
  fds_are(fds, "saving");
  expect(m, c, "src", "saved cube", true, 0);
  check_saved(c, p);
  check_load(c, p, fds, prior);
  // the C interface reads what the C++ interface wrote, and the other way round
  hyper_mat k = hmread_with_hdr(p.c_str(), hdr(p).c_str());
  expect_dims(k, S, Ln, B, t, ILV[f], "c-dims");
  same_bytes(k->data, c.d.data(), c.d.size(), "c-data", "cube loaded by the C interface");
  std::string q = p + "_c";
  hmsave(q.c_str(), k);
  delete_hyper_mat(k);
  HM r = L(hypercv::hmread(q.c_str(), (q + ".hdr").c_str()));
  expect(r, c, "c-open", "cube saved by the C interface", true, 1.2e-6);
  L(r.release());
  unlink(q.c_str()); unlink((q + ".hdr").c_str());
  hv->state(hv_hash(c.d.data(), c.d.size(), hv_hash(c.w.data(), 4 * c.w.size(), S + 10 * Ln + 100 * B + t * 1000 + f)));
  L(m.release());
  wipe(p);
}
// cubes that are the result of an operation are saved and opened like fresh ones
static size_t place(int S, int Ln, int B, int f, int s, int l, int b) { return f == 0 ? ((size_t)b * Ln + l) * S + s : f == 1 ? ((size_t)l * B + b) * S + s : ((size_t)l * S + s) * B + b; }
static Cube part(const Cube &c, int g, int l0, int s0, int b0, int Ln, int S, int B) {
  Cube k = {S, Ln, B, c.t, g, Bytes((size_t)S * Ln * B * tsize(c.t)), std::vector<float>(c.w.begin() + b0, c.w.begin() + b0 + B)};
  size_t z = tsize(c.t);
  for (int l = 0; l < Ln; l++) for (int s = 0; s < S; s++) for (int b = 0; b < B; b++) memcpy(&k.d[place(S, Ln, B, g, s, l, b) * z], &c.d[place(c.S, c.Ln, c.B, c.f, s + s0, l + l0, b + b0) * z], z);
  return k;
}
static void saved(HM &m, const Cube &e, const char *what) {
  int fds = hv_open_fds();
  std::string p = hv->tmp + "/derived.img";
  wipe(p);
  expect(m, e, "derived", what, true, 0);
  L(m.save(p.c_str()));
  check_saved(e, p);
  check_load(e, p, fds, 0);
  wipe(p);
}
static void derived(int S, int Ln, int B, int t, int f, int g) {
  Cube c = mk(S, Ln, B, t, f, S + Ln * 3 + B * 5, 0);
  std::string p = hv->tmp + "/from.img";
  HM m = mat(c);
  L(m.convertTo(FM[g]));
  Cube e = part(c, g, 0, 0, 0, Ln, S, B);
  saved(m, e, "cube converted in place");
  HM k = L(m.copy());
  saved(k, e, "copy of a converted cube");
  HM r = L(m.range(Ln / 2, S / 2, B / 2, Ln, S, B));
  Cube q = part(e, g, Ln / 2, S / 2, B / 2, Ln - Ln / 2, S - S / 2, B - B / 2);
  saved(r, q, "range of a converted cube");
  L(r.convertTo(FM[f]));
  Cube q2 = part(q, f, 0, 0, 0, q.Ln, q.S, q.B);
  saved(r, q2, "converted range");
  // opened, converted, saved again
  wipe(p);
  L(k.save(p.c_str()));
  HM o;
  L(o.open(p.c_str(), hdr(p).c_str()));
  for (int i = 0; i < e.B; i++) o.wavelength[i] = e.w[i];
  L(o.convertTo(FM[f]));
  saved(o, c, "cube opened and converted");
  wipe(p);
  L(m.release()); L(k.release()); L(r.release()); L(o.release());
}
// histories of saves over two paths, opened into the same two objects
static void history(int code, int depth) {
  int fds = hv_open_fds();
  long live = hv_env.live;
  static const int SH[4][5] = {{2, 3, 4, 1, 0}, {1, 1, 1, 5, 2}, {5, 1, 2, 4, 1}, {3, 2, 9, 12, 2}};
  std::string path[2] = {hv->tmp + "/h0", hv->tmp + "/h1.img"};
  int held[2] = {-1, -1};
  for (auto &p : path) wipe(p);
  HM o[2];
  for (int d = 0; d < depth; d++, code /= 8) {
    int c = code % 4, q = code / 4 % 2;
    Cube k = mk(SH[c][0], SH[c][1], SH[c][2], SH[c][3], SH[c][4], c, 0);
    HM m = mat(k);
    L(m.save(path[q].c_str()));
    L(m.release());
    held[q] = c;
    u64 st = 0;
    for (int i = 0; i < 2; i++) if (held[i] >= 0) {
      const int *s = SH[held[i]];
      Cube e = mk(s[0], s[1], s[2], s[3], s[4], held[i], 0);
      check_saved(e, path[i]);
      L(o[i].open(path[i].c_str(), hdr(path[i]).c_str()));
      expect(o[i], e, "open", "opened cube");
      fds_are(fds, "opening");
      st = st * 5 + held[i] + 1;
    }
    hv->state(st);
  }
  L(o[0].release()); L(o[1].release());
  CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live);
  for (auto &p : path) wipe(p);
}
// the image is missing, short at every length, or longer than needed
static void truncated(int S, int Ln, int B, int t, int f) {
  int fds = hv_open_fds();
  long live = hv_env.live;
  std::string p = hv->tmp + "/t.img";
  Cube c = mk(S, Ln, B, t, f, 3, 0);
  HM m = mat(c);
  L(m.save(p.c_str()));
  L(m.release());
  for (int n = -2; n <= (int)c.d.size() + 2; n++) {
    bool dir = n == -2, missing = n == -1;
    unlink(p.c_str());
    if (dir) mkdir(p.c_str(), 0755);
    if (n >= 0) { Bytes b(c.d); b.resize(n, 0x5c); hv_write_file(p, b.data(), n); }
    for (int way = 0; way < 4; way++) {
      HM r;
      if (way & 1) r.create(2, 2, 2, 1);
      int st = hv_call([&] {
        if (way == 0) L(r.open(p.c_str(), hdr(p).c_str()));
        if (way == 1) L(r.open(p.c_str(), S, Ln, B, t, FM[f]));
        if (way == 2) r = L(hypercv::hmread(p.c_str(), hdr(p).c_str()));
        if (way == 3) { r.release(); r = L(hypercv::hmread(p.c_str(), S, Ln, B, t, FM[f])); }
      });
      fds_are(fds, "a failed open");
      if (n >= (int)c.d.size()) { CHECK(st == 0, "exit", "the library ended the program"); expect(r, c, "open-long", "cube of a long enough image", way == 0 || way == 2, way == 0 || way == 2 ? 0.6e-6 : 0); r.release(); }
      else if (st == 0) expect_empty(r, "short", dir ? "cube of a directory" : missing ? "cube of a missing image" : "cube of a short image");
      if (st == 0) CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live); else return;
    }
    if (dir) rmdir(p.c_str());
    hv->state(n + 2);
  }
  wipe(p);
}
// a header of the six fields in any order, with variants of spelling; valid ones open, others do not
struct Field { std::string text; };
static std::string field(const Cube &c, int which, int style) {
  static const char *eq[] = {" = ", "=", "= ", " =", "  =  ", "\t=\t"};
  const char *e = eq[style % 6];
  char b[64];
  switch (which) {
    case 0: sprintf(b, "samples%s%d\n", e, c.S); return b;
    case 1: sprintf(b, "lines%s%d\n", e, c.Ln); return b;
    case 2: sprintf(b, "bands%s%d\n", e, c.B); return b;
    case 3: sprintf(b, "data type%s%d\n", e, c.t); return b;
    case 4: { std::string il = ILV[c.f]; if (style / 6 % 2) for (auto &x : il) x = toupper(x); return std::string("interleave") + e + il + "\n"; }
  }
  std::string w = std::string("wavelength") + e + (style % 3 == 1 ? "{\n" : "{");
  for (int k = 0; k < c.B; k++) { sprintf(b, "%g%s", c.w[k], k + 1 < c.B ? (style % 4 == 2 ? ",\n " : style % 4 == 3 ? " , " : ", ") : ""); w += b; }
  return w + (style % 3 == 2 ? "\n}\n" : "}\n");
}
static void load_text(const std::string &text, const Cube &c, int verdict, bool wave, const char *key) {  // verdict 1: opens, 0: must not, 2: either, but right
  int fds = hv_open_fds();
  std::string p = hv->tmp + "/x.img", q = hv->tmp + "/x.hdr";
  hv_write_file(q, (const u8 *)text.data(), text.size());
  hv_env.fill = 0xA5;
  HM r;
  int st = hv_call([&] { L(r.open(p.c_str(), q.c_str())); });
  if (verdict == 1) { CHECK(st == 0, key, "a valid header is refused"); expect(r, c, key, "cube opened with the header", wave); }
  if (verdict == 0 && st == 0) expect_empty(r, key, "cube of an unusable header");
  if (verdict == 2 && st == 0 && !r.empty()) same_bytes(r.data, c.d.data(), std::min((size_t)r.dataSize, c.d.size()), key, "cube");
  if (st) CHECK(hv_status != 0, key, "refused with status 0");
  if (st == 0) { fds_are(fds, "opening"); r.release(); }
  hv->state(hv_hash(text.data(), text.size()));
}
static void header(int f, int t, int perm, int style, int drop, int B) {
  Cube c = mk(3, 2, B, t, f, 7, 0);
  for (int k = 0; k < B; k++) c.w[k] = 400 + 2.5f * k;
  std::string p = hv->tmp + "/x.img";
  hv_write_file(p, c.d.data(), c.d.size());
  int o[6] = {0, 1, 2, 3, 4, 5};
  for (int k = 0, n = perm; k < 6; k++) { int m = 6 - k; std::swap(o[k], o[k + n % m]); n /= m; }
  static const char *desc[] = {"description = {\n  a cube, its lines = 9\n  bands 77}\n", "description = {\nsamples = 9 of the sensor,\nlines = 9,\nbands = 9}\n", "; a comment = {\n"};
  static const char *list[] = {"spectra names = {first,\ndata type = 5,\ninterleave = bip,\nwavelength = {9}\n", "band names = {\nbands 1,\nlines 2,\nsamples 3\n}\n", "band names={lines = 1,\nlines=8,\nbands=9,\nsamples=7}\n"};
  std::string text = std::string("ENVI\n") + (style % 5 == 4 ? desc[(style + perm) % 3] : "");
  if (style % 7 == 5) text += "wavelength units = Nanometers\nheader offset = 0\nfile type = ENVI Standard\nbyte order = 0\ndefault bands = {1,1,1}\n";
  int place = perm % 7;
  for (int k : o) { if (style % 5 == 3 && place-- == 0) text += list[(style + perm) % 3]; if (!(drop >> k & 1)) text += field(c, k, style); }
  if (style % 5 == 3 && place == 0) text += list[(style + perm) % 3];
  if (style % 7 == 6) text += "; a comment\n\nsensor type = Unknown\nband names = {a, b}\n";

  load_text(text, c, drop & 15 ? 0 : drop & 16 && f != 0 ? 2 : drop & 16 ? 2 : 1, !(drop >> 5 & 1), drop ? "header-missing" : "header-order");
}
static void damaged(int which, int how, int f, int t) {
  static const char *val[] = {"", "0", "-1", "x", "-2147483648", "99999999999", "6", "7", "16", "bsx", "bsqx", "q", "BI", "bp", "p", "lib"};
  Cube c = mk(3, 2, 4, t, f, 7, 0);
  for (int k = 0; k < 4; k++) c.w[k] = 400 + 2.5f * k;
  std::string p = hv->tmp + "/x.img";
  hv_write_file(p, c.d.data(), c.d.size());
  static const char *name[] = {"samples", "lines", "bands", "data type", "interleave"};
  std::string text = "ENVI\n";
  for (int k = 0; k < 6; k++) text += k == which ? std::string(name[k]) + " = " + val[how] + "\n" : field(c, k, 0);
  int v = 0;
  if (which < 3) v = atoi(val[how]) > 3 ? 2 : 0;  // 6, 7, 16: larger than the image, refused or empty
  if (which < 3 && how >= 6 && how <= 8) v = 0;
  if (which < 3 && how == 5) v = 2;
  if (which == 3 && how >= 9) v = 0;
  if (which == 4 && how == 10) v = 2;
  if (which == 4 && how == 0) v = 2;
  load_text(text, c, v, true, "header-damaged");
}
static void badargs(int t) {
  int fds = hv_open_fds();
  long live = hv_env.live;
  std::string p = hv->tmp + "/b.img";
  wipe(p);
  HM m;
  L(m.open(NULL, NULL)); expect_empty(m, "null", "cube opened without a path");
  L(m.open(p.c_str(), NULL)); expect_empty(m, "null", "cube opened without a header path");
  L(m.open(NULL, p.c_str())); expect_empty(m, "null", "cube opened without an image path");
  HM n = L(hypercv::hmread(NULL, NULL)); expect_empty(n, "null", "cube read without a path");
  L(m.save(p.c_str())); L(m.save(NULL));
  CHECK(access(p.c_str(), F_OK) != 0, "save-empty", "saving an empty cube writes a file");
  expect_empty(m, "save-empty", "saved empty cube");
  Cube c = mk(2, 2, 2, t, 1, 3, 0);
  m = mat(c);
  L(m.save((hv->tmp + "/no/such/dir/x.img").c_str()));
  expect(m, c, "save-nowhere", "cube whose saving failed", true, 0);
  L(m.save(NULL));
  expect(m, c, "save-nowhere", "cube saved without a path", true, 0);
  fds_are(fds, "failed saves");
  L(m.release());
  // no header
  hv_write_file(p, c.d.data(), c.d.size());
  int st = hv_call([&] { L(m.open(p.c_str(), (hv->tmp + "/none.hdr").c_str())); });
  if (st == 0) expect_empty(m, "no-header", "cube without a header");
  static const int G[9][2] = {{1, GDT_Byte}, {2, GDT_Int16}, {3, GDT_Int32}, {4, GDT_Float32}, {5, GDT_Float64}, {12, GDT_UInt16}, {13, GDT_UInt32}, {14, GDT_Unknown}, {15, GDT_Unknown}};
  for (auto &g : G) if (g[0] < 14) CHECK(L(hypercv::dataType2GDALDataType(g[0])) == g[1], "gdal-type", "data type %d is GDAL type %d", g[0], (int)hypercv::dataType2GDALDataType(g[0]));
  if (st == 0) CHECK(hv_env.live == live, "leak", "%ld blocks are not freed", hv_env.live - live);
  wipe(p);
  hv->state(t);
}
static void explore(HV &h) {
  GDALAllRegister();
  CPLSetErrorHandler(CPLQuietErrorHandler);
  int N = h.thorough ? 4 : 3;
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N + 1; B++) for (int t : ALLT) for (int f = 0; f < 3; f++) {
    for (int prior = 0; prior < 3; prior++) h.run([&] { one(S, Ln, B, t, f, prior == 1 ? 1 : 0, prior, h.tmp + "/a.img"); }, "save and open %d x %d x %d type %d %s, older files %d", S, Ln, B, t, ILV[f], prior);
    if (S * Ln * B <= 12) h.run([&] { truncated(S, Ln, B, t, f); }, "truncations of %d x %d x %d type %d %s", S, Ln, B, t, ILV[f]);
  }
  for (int S = 1; S <= N; S++) for (int Ln = 1; Ln <= N; Ln++) for (int B = 1; B <= N; B++) for (int t : ALLT) for (int f = 0; f < 3; f++) for (int g = 0; g < 3; g++) h.run([&] { derived(S, Ln, B, t, f, g); }, "saving of results %d x %d x %d type %d %s to %s", S, Ln, B, t, ILV[f], ILV[g]);
  for (int e : {10, 31, 64, 100, 127, 128, 255, 256, 257, 1000, 1025, 4097}) for (int ax = 0; ax < 3; ax++) for (int t : ALLT) for (int f = 0; f < 3; f++) {
    int d[3] = {2, 3, 2}; d[ax] = e;
    h.run([&] { one(d[0], d[1], d[2], t, f, e % 5, e % 3, h.tmp + "/a.img"); }, "save and open %d x %d x %d type %d %s", d[0], d[1], d[2], t, ILV[f]);
  }
  for (int wmode = 0; wmode < 5; wmode++) for (int B : {1, 2, 7, 14, 15, 300}) for (int f = 0; f < 3; f++)
    h.run([&] { one(2, 2, B, 4, f, wmode, 0, h.tmp + "/w.dat"); }, "wavelengths %d of %d bands %s", wmode, B, ILV[f]);
  static const char *NAME[] = {"a", "a.img", "a.b.img", "a.", "d.e/a", "d.e/a.img", "d.e/b.c.d", "with space.img", "a.IMG", "hdr.img", "a.hdr.img", "averyveryveryveryveryveryveryveryveryveryveryverylongname.withalongextension"};
  for (const char *n : NAME) for (int t : ALLT) for (int prior = 0; prior < 3; prior++) h.run([&] { mkdir((h.tmp + "/d.e").c_str(), 0755); one(3, 2, 2, t, t % 3, 0, prior, h.tmp + "/" + n); }, "path %s type %d older files %d", n, t, prior);
  int D = h.thorough ? 5 : 4, n = 1;
  for (int d = 0; d < D; d++) n *= 8;
  for (int c = 0; c < n; c++) h.run([&] { history(c, D); }, "history %d of %d saves", c, D);
  for (int f = 0; f < 3; f++) for (int perm = 0; perm < 720; perm++) for (int style = 0; style < (h.thorough ? 42 : 12); style++) {
    int s = h.thorough ? style : (style * 7 + perm) % 84;
    h.run([&] { header(f, ALLT[(perm + f) % 9], perm, s, 0, 1 + perm % 5); }, "header %s order %d style %d", ILV[f], perm, s);
  }
  for (int f = 0; f < 3; f++) for (int B : {30, 101, 400, 3000}) for (int style = 0; style < 84; style++) h.run([&] { header(f, ALLT[style % 9], style * 17 % 720, style, 0, B); }, "header %s style %d, %d bands", ILV[f], style, B);
  for (int f = 0; f < 3; f++) for (int t : ALLT) for (int drop = 1; drop < 64; drop++) h.run([&] { header(f, t, 0, 0, drop, 3); }, "header %s type %d without fields %x", ILV[f], t, drop);
  for (int which = 0; which < 5; which++) for (int how = 0; how < 16; how++) for (int f = 0; f < 3; f++) for (int t : ALLT) h.run([&] { damaged(which, how, f, t); }, "header %s type %d field %d damaged %d", ILV[f], t, which, how);
  for (int t : ALLT) h.run([&] { badargs(t); }, "bad arguments type %d", t);
  for (auto &c : {std::array<int, 3>{203, 107, 31}, {65, 37, 259}, {513, 300, 5}}) for (int t : ALLT) for (int f = 0; f < 3; f++) h.run([&] { one(c[0], c[1], c[2], t, f, t % 5, t % 3, h.tmp + "/l.img"); }, "save and open %d x %d x %d type %d %s", c[0], c[1], c[2], t, ILV[f]);
  // long path names
  for (int n = 1; n <= 240; n += 7) h.run([&] { one(3, 2, 2, 12, n % 3, 0, n % 2, h.tmp + "/" + std::string(n, 'n') + (n % 2 ? "" : ".img")); }, "file name of %d characters", n);
  for (int d : {1, 3, 8, 15, 18}) h.run([&] { std::string p = h.tmp; for (int i = 0; i < d; i++) { p += "/" + std::string(200, 'a' + i); mkdir(p.c_str(), 0755); } one(3, 2, 2, 4, d % 3, 0, 0, p + "/x.img"); }, "path through %d long directories", d);
}
int main(int c, char **v) { return hv_main(c, v, "C29", explore); }
