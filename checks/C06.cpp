// C06: ENVI headers in every form, and damaged, short or missing input.
#include "envi.h"

static std::string IMG, HDR;
static void put(const std::string &p, const std::string &s) { hv_write_file(p, s.data(), s.size()); }
static Bytes image(size_t n) { Bytes f(n); fillpat(f.data(), n, 77); hv_write_file(IMG, f.data(), n); return f; }
static void begin() { IMG = hv->tmp + "/c.img"; HDR = hv->tmp + "/c.hdr"; hv_env.limit = 64 << 20; }
// loads; NULL when the library refused with a diagnosis
static hyper_mat load(const char *key) {
  int fds = hv_open_fds();
  long out = hv_stdout_bytes();
  hyper_mat m = NULL;
  int ended = hv_call([&] { m = L(hmread_with_hdr(IMG.c_str(), HDR.c_str())); });
  if (ended) { CHECK(hv_status != 0, key, "the program ended with status 0"); m = NULL; }
  else CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
  if (!m) CHECK(hv_stdout_bytes() > out, key, "no cube and no diagnosis");
  return m;
}
static void refused(const char *key, const char *what) {
  long live = hv_env.live;
  hyper_mat m = load(key);
  CHECK(m == NULL, key, "%s gave a cube", what);
  (void)live;
  hv->state(hv_hash(what, strlen(what)));
}
struct Form { std::string eq, eol, open, sep, close; };
static const Form FORMS[] = {
  {" = ", "\n", "{ \n", ",", "}"}, {"=", "\n", "{", ",", "}"}, {" =", "\n", "{\n", ",\n", "\n}"}, {"= ", "\n", "{ ", ", ", " }"}, {"   =   ", "\n", "{\n ", ",\n ", "}"}, {"\t=\t", "\n", "{\t", "\t,\t", "\t}"}, {" = ", "\r\n", "{\r\n", ",\r\n", "\r\n}"}, {"=", "\r\n", "{", ",", "}"}, {" = ", "\n", "{", " , ", "}"}, {" = ", "\n", "{\n\n", ",\n\n", "\n\n}"}};
static const int NF = sizeof FORMS / sizeof *FORMS;
struct Want { int S, Ln, B, t, il; std::vector<float> w; };
static std::string num(float v, int style) { char b[64]; snprintf(b, sizeof b, style == 0 ? "%f" : style == 1 ? "%g" : style == 2 ? "%.9e" : "%.2f", v); return b; }
static std::string field(const Want &q, const Form &f, int i, int style = 0) {
  switch (i) {
    case 0: return "samples" + f.eq + std::to_string(q.S) + f.eol;
    case 1: return "lines" + f.eq + std::to_string(q.Ln) + f.eol;
    case 2: return "bands" + f.eq + std::to_string(q.B) + f.eol;
    case 3: return "data type" + f.eq + std::to_string(q.t) + f.eol;
    case 4: return "interleave" + f.eq + ILV[q.il] + f.eol;
  }
  std::string s = "wavelength" + f.eq + f.open;
  for (int k = 0; k < q.B; k++) s += (k ? f.sep : "") + num(q.w[k], style);
  return s + f.close + f.eol;
}
static Want want(int S, int Ln, int B, int t, int il) { Want q = {S, Ln, B, t, il, {}}; for (int k = 0; k < B; k++) q.w.push_back(k % 4 == 3 ? -0.25f * k : 400.5f + 10.25f * k); return q; }
static void loaded(const Want &q, const std::string &text, bool waves, const char *key) {
  Bytes f = image((size_t)q.S * q.Ln * q.B * tsize(q.t));
  put(HDR, text);
  long live = hv_env.live;
  hyper_mat m = load(key);
  CHECK(m != NULL, key, "the cube was refused");
  expect_dims(m, q.S, q.Ln, q.B, q.t, ILV[q.il], key);
  same_bytes(m->data, f.data(), f.size(), key, "loaded cube");
  if (waves) for (int k = 0; k < q.B; k++) CHECK(near_(m->wavelength[k], q.w[k], 2e-7, 1e-6), key, "wavelength of band %d is %.9g, expected %.9g", k + 1, m->wavelength[k], q.w[k]);
  hv->state(hstate(m));
  delete_hyper_mat(m);
  CHECK(hv_env.live == live, "leak", "%ld blocks are left after loading and deleting", hv_env.live - live);
}
// the layout in any case, fields given twice, large and small wavelengths
static void cases(int il, int mask, int form, int t) {
  begin();
  Want q = want(3, 2, 4, t, il);
  std::string v = ILV[il], s = "ENVI" + FORMS[form].eol;
  for (int i = 0; i < 3; i++) if (mask >> i & 1) v[i] = toupper(v[i]);
  for (int i = 0; i < 6; i++) s += i == 4 ? "interleave" + FORMS[form].eq + v + FORMS[form].eol : field(q, FORMS[form], i);
  loaded(q, s, true, "case");
}
static void twice(int a, int b, int form) {
  begin();
  Want q = want(3, 2, 4, 2, 1);
  std::string s = "ENVI" + FORMS[form].eol;
  for (int i = 0; i < 6; i++) { s += field(q, FORMS[form], i); if (i == a || i == b) s += field(q, FORMS[(form + i) % NF], i); if (i == a && a == b) s += field(q, FORMS[0], i); }
  if (a < b) s += field(q, FORMS[form], a);
  loaded(q, s, true, "twice");
}
static void magnitudes(int form, int style, int k) {
  begin();
  static const float V[] = {123456.75f, 1e-3f, 99999.5f, 100000.5f, 1e6f, 0.4f, 2500, 0, 2147483648.0f, 65536.5f, -123456.25f, 1e9f, 0.001953125f, 16777216};
  Want q = want(2, 1, 5, 1, 0);
  for (int i = 0; i < 5; i++) q.w[i] = V[(k + i * (1 + k % 3)) % 14];
  std::string s = "ENVI" + FORMS[form].eol;
  if (style == 1) for (auto &w : q.w) { char b[64]; snprintf(b, sizeof b, "%g", w); w = strtof(b, NULL); }
  for (int i = 0; i < 6; i++) s += field(q, FORMS[form], i, style);
  loaded(q, s, true, "magnitude");
}
// a comment of any length below the longest line a header may have
static void comment(int len, int where) {
  begin();
  Want q = want(2, 2, 3, 1, 2);
  std::string s = "ENVI\n", c = "; ";
  for (int i = 0; (int)c.size() < len; i++) c += i % 3 == 0 ? "samples = 9 " : i % 3 == 1 ? "lines = 7 " : "bands=8 ";
  c.resize(len);
  for (int i = 0; i <= 6; i++) { if (i == where) s += c + "\n"; if (i < 6) s += field(q, FORMS[0], i); }
  loaded(q, s, true, "comment");
}
static void order(const int *perm, int form, int t, int il) {
  begin();
  Want q = want(3 + t % 2, 2, 3, t, il);
  const Form &f = FORMS[form];
  std::string s = "ENVI" + f.eol;
  for (int i = 0; i < 6; i++) s += field(q, f, perm[i]);
  loaded(q, s, true, "order");
  while (s.back() == '\n' || s.back() == '\r') s.pop_back();  // no line end after the last field
  loaded(q, s, true, "last-line");
}
static void mixed_forms(const int *form) {
  begin();
  Want q = want(2, 3, 2, 12, 1);
  std::string s = "ENVI\n";
  for (int i = 0; i < 6; i++) s += field(q, FORMS[form[i]], i);
  loaded(q, s, true, "spacing");
}
// line breaks and blanks at every subset of the places of the list
static void breaks(int B, int mask, int kind, int style) {
  begin();
  Want q = want(2, 1, B, 1, 0);
  if (style == 3) for (auto &w : q.w) w = roundf(w * 100) / 100;
  static const char *const K[] = {"\n", "\r\n", "\n ", " ", "\t\n"};
  std::string s = "ENVI\n";
  for (int i = 0; i < 5; i++) s += field(q, FORMS[0], i);
  s += "wavelength = {";
  int bit = 0;
  auto brk = [&] { if (mask >> bit++ & 1) s += K[kind]; };
  brk();
  for (int k = 0; k < B; k++) { s += num(q.w[k], style); brk(); if (k + 1 < B) { s += ","; brk(); } }
  s += "}\n";
  loaded(q, s, true, "breaks");
}
static const char *const EXTRA[] = {
  "description = {\n  File Imported into ENVI.}\n", "description = {one line}\n", "header offset = 0\n", "file type = ENVI Standard\n", "sensor type = Unknown\n", "byte order = 0\n", "data ignore value = 3\n", "data ignore value = -9999.0\n", "wavelength units = Nanometers\n",
  "wavelength units = Unknown\n", "band names = {\n Band 1,\n Band 2,\n Band 3}\n", "default bands = {3, 2, 1}\n", "x start = 1\n", "y start = 7\n", "fwhm = {\n 5.5, 6.5,\n 7.5}\n", "bbl = {1,1,1}\n", "z plot titles = {Wavelength, Value}\n", "map info = {UTM, 1.000, 1.000, 600000.0, 4000000.0, 30.0, 30.0, 50, North, WGS-84, units=Meters}\n",
  "description = {\nsamples = 9 of the sensor,\nlines = 9,\nbands = 9}\n", "band names = {\nlines = 7 (mean),\n bands = 8,\nsamples = 4}\n", "spectra names = {first,\ndata type = 5,\ninterleave = bip,\nwavelength = {9}\n", "; a comment = {\n", "band names = {\nbands 1,\nlines 2,\nsamples 3\n}\n", "class names = {\n}\n",
  "reflectance scale factor = 10000\n", "data gain values = {1,2,3}\n", "data offset values = {0,0,0}\n", "pixel size = {1, 1}\n", "classes = 4\n", "\n", "   \n", "; a comment\n", "solar irradiance = {1,2,3}\n", "cloud cover = 5\n", "default stretch = 2.0% linear\n", "read procedures = {a, b}\n", "spectra names = {x}\n", "wavelength = unknown \n"};
static const int NX = sizeof EXTRA / sizeof *EXTRA;
static void unrelated(int x, int px, int y, int py, int t) {
  begin();
  Want q = want(3, 2, 3, t, t % 3);
  bool waves = strncmp(EXTRA[x], "wavelength = u", 14) != 0 && (y < 0 || strncmp(EXTRA[y], "wavelength = u", 14) != 0);
  std::string s = "ENVI\n";
  for (int i = 0; i <= 6; i++) {
    if (px == i) s += EXTRA[x];
    if (y >= 0 && py == i) s += EXTRA[y];
    if (i < 6 && (i < 5 || waves)) s += field(q, FORMS[0], i);
  }
  loaded(q, s, waves, "unrelated");
}
static void omitted(int mask, int form) {
  begin();
  Want q = want(3, 2, 3, 1, 0);
  std::string s = "ENVI" + FORMS[form].eol;
  for (int i = 0; i < 6; i++) if (!(mask >> i & 1)) s += field(q, FORMS[form], i);
  image(18);
  put(HDR, s);
  if (mask & 15) { refused("omitted", "a header without a field that is needed"); return; }
  hyper_mat m = load("omitted");
  if (m) {
    expect_dims(m, 3, 2, 3, 1, "bsq", "omitted-cube");
    hv->state(hstate(m));
    delete_hyper_mat(m);
  }
}
static void badvalue(int i, const char *v) {
  begin();
  Want q = want(3, 2, 3, 1, 0);
  static const char *const K[] = {"samples", "lines", "bands", "data type"};
  std::string s = "ENVI\n";
  for (int j = 0; j < 6; j++) s += j == i ? std::string(K[i]) + " = " + v + "\n" : field(q, FORMS[0], j);
  image(1000);
  put(HDR, s);
  refused("bad-value", v);
}
// a header cut after n bytes says what its complete numbers say
static void cut(size_t n, int form, int fill) {
  begin();
  hv_env.fill = fill;
  Want q = want(13, 12, 11, 2, 2);
  const Form &f = FORMS[form];
  std::string s = "ENVI" + f.eol;
  static const int ORD[6] = {4, 0, 5, 2, 3, 1};
  for (int i : ORD) s += field(q, f, i);
  s.resize(std::min(n, s.size()));
  Bytes img = image(13 * 12 * 11 * 2);
  put(HDR, s);
  int v[4] = {0, 0, 0, 0};
  static const char *const K[] = {"samples", "lines", "bands", "data type"};
  for (int i = 0; i < 4; i++) { size_t p = s.find(std::string(K[i]) + f.eq); if (p != s.npos) v[i] = atoi(s.c_str() + s.find('=', p) + 1); }
  hyper_mat m = load("cut");
  if (!m) { CHECK(!(v[0] > 0 && v[1] > 0 && v[2] > 0 && tsize(v[3])), "cut-refused", "a header with all needed fields was refused"); hv->state(n); return; }
  CHECK(m->samples == v[0] && m->lines == v[1] && m->bands == v[2] && m->data_type == v[3], "cut-dims", "%d x %d x %d type %d from a header that says %d x %d x %d type %d", m->samples, m->lines, m->bands, m->data_type, v[0], v[1], v[2], v[3]);
  same_bytes(m->data, img.data(), nbytes(m), "cut-data", "cube");
  hv->state(hstate(m));
  delete_hyper_mat(m);
}
static void shortimg(int S, int Ln, int B, int t, int il, size_t n, bool size) {
  begin();
  Want q = want(S, Ln, B, t, il);
  size_t full = (size_t)S * Ln * B * tsize(t);
  Bytes f = image(n);
  std::string s = "ENVI\n";
  for (int i = 0; i < 6; i++) s += field(q, FORMS[0], i);
  put(HDR, s);
  long live = hv_env.live, out = hv_stdout_bytes();
  int fds = hv_open_fds();
  hyper_mat m = NULL;
  int ended = hv_call([&] { m = size ? L(hmread_with_size(IMG.c_str(), S, Ln, B, t, ILV[il])) : L(hmread_with_hdr(IMG.c_str(), HDR.c_str())); });
  if (!ended) CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
  if (n < full) {
    CHECK(ended || m == NULL, "short", "an image of %zu bytes instead of %zu gave a cube", n, full);
    CHECK(hv_stdout_bytes() > out, "short", "no diagnosis for an image of %zu bytes instead of %zu", n, full);
    if (!ended) CHECK(hv_env.live == live, "short-leak", "%ld blocks are left after a failing load", hv_env.live - live);
    else CHECK(hv_status != 0, "short", "the program ended with status 0");
    hv->state(n);
  } else {
    CHECK(!ended && m, "enough", "an image of %zu bytes, %zu are needed, was refused", n, full);
    expect_dims(m, S, Ln, B, t, ILV[il], "enough");
    same_bytes(m->data, f.data(), full, "enough", "cube");
    hv->state(hstate(m));
    delete_hyper_mat(m);
    CHECK(hv_env.live == live, "leak", "%ld blocks are left after loading and deleting", hv_env.live - live);
  }
}
static void missing(int img, int hdr) {  // 0 there, 1 missing, 2 empty, 3 a directory, 4 in no directory
  begin();
  Want q = want(2, 2, 2, 4, 1);
  std::string dir = hv->tmp + "/dir", s = "ENVI\n";
  mkdir(dir.c_str(), 0755);
  for (int i = 0; i < 6; i++) s += field(q, FORMS[0], i);
  Bytes f = image(32);
  put(HDR, s);
  auto ruin = [&](std::string &p, int how) { if (how == 1) unlink(p.c_str()); else if (how == 2) put(p, ""); else if (how == 3) p = dir; else if (how == 4) p = hv->tmp + "/no/such/file"; };
  ruin(IMG, img); ruin(HDR, hdr);
  if (img || hdr) { refused("missing", "missing or empty input"); refused("missing", "missing or empty input"); }
  else { hyper_mat m = load("there"); CHECK(m, "there", "refused"); delete_hyper_mat(m); }
  if (img) {
    long out = hv_stdout_bytes(); int fds = hv_open_fds(); hyper_mat m = NULL;
    int ended = hv_call([&] { m = L(hmread_with_size(IMG.c_str(), 2, 2, 2, 4, "bil")); });
    CHECK(ended || !m, "missing-size", "a missing image gave a cube");
    CHECK(hv_stdout_bytes() > out, "missing-size", "no diagnosis");
    if (!ended) CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
  }
}
// any sequence of header tokens: a cube holds the bytes of the image, or there is none
static const char *const TOK[] = {"samples", "bands", "wavelength", "=", " ", "{", "}", "\n", "2", ",", "data type", "interleave"};
static const int NT = sizeof TOK / sizeof *TOK;
static void tokens(int code, int depth, int pre) {
  begin();
  std::string s = pre == 0 ? "ENVI\nsamples = 2\nlines = 2\nbands = 2\ndata type = 2\ninterleave = bil\n" : pre == 1 ? "" : "wavelength = {1,2";
  for (int d = 0; d < depth; d++, code /= NT) s += TOK[code % NT];
  if (pre == 2) s += "\nlines = 1\nbands = 2\ndata type = 1\nsamples = 3";
  Bytes f = image(64);
  put(HDR, s);
  hv_env.fill = code & 1 ? '}' : 0xA5;
  hyper_mat m = load("tokens");
  if (!m) { hv->state(7); return; }
  CHECK(m->samples > 0 && m->lines > 0 && m->bands > 0 && tsize(m->data_type) > 0 && nbytes(m) <= 64, "tokens-dims", "%d x %d x %d type %d", m->samples, m->lines, m->bands, m->data_type);
  same_bytes(m->data, f.data(), nbytes(m), "tokens-data", "cube");
  hv->state(hstate(m));
  delete_hyper_mat(m);
}
static void longline(int len, int where) {
  begin();
  Want q = want(2, 2, 3, 1, 2);
  std::string s = "ENVI\n", x = where < 7 ? "description = {" : "", pad(len, 'a');
  for (int i = 0; i < 6; i++) {
    if (i == where) s += "description = {" + pad + "}\n";
    if (i == 5 && where == 6) { std::string w = field(q, FORMS[0], 5); size_t p = w.find('{'); s += w.substr(0, p + 1) + std::string(len, ' ') + w.substr(p + 1); }
    else if (i == 5 && where == 7) { std::string w = field(q, FORMS[1], 5); size_t p = w.find(','); s += w.substr(0, p + 1) + std::string(len, ' ') + w.substr(p + 1); }
    else s += field(q, FORMS[0], i);
  }
  loaded(q, s, true, "long-line");
}
static void count_mismatch(int B, int n) {  // a list with more or fewer numbers than bands
  begin();
  Want q = want(1, 2, B, 1, 0);
  std::string s = "ENVI\n", l = "wavelength = {";
  for (int k = 0; k < n; k++) l += (k ? "," : "") + std::to_string(10.5 * (k + 1));
  for (int i = 0; i < 5; i++) s += field(q, FORMS[0], i);
  Bytes f = image(2 * B);
  float first[2][64];
  for (int fill = 0; fill < 2; fill++) {
    hv_env.fill = fill ? 0x3C : 0xFF;
    put(HDR, s + l + "}\n");
    hyper_mat m = load("count");
    if (!m) return;
    expect_dims(m, 1, 2, B, 1, "bsq", "count");
    same_bytes(m->data, f.data(), f.size(), "count", "cube");
    for (int k = 0; k < B; k++) { if (k < n) CHECK(near_(m->wavelength[k], 10.5 * (k + 1), 1e-6, 1e-6), "count", "wavelength of band %d is %g, expected %g", k + 1, m->wavelength[k], 10.5 * (k + 1)); first[fill][k] = m->wavelength[k]; }
    hv->state(hstate(m));
    delete_hyper_mat(m);
  }
  CHECK(!memcmp(first[0], first[1], 4 * B), "count-residue", "wavelengths depend on what fresh memory holds");
}
// many bands: every position of the list counts, however its lines are cut
static void many(int B, int per, int form, int last) {
  begin();
  Want q = {2, 1, B, 1, form % 3, {}};
  for (int k = 0; k < B; k++) q.w.push_back(350.125f + 1.25f * k);
  const Form &f = FORMS[form];
  std::string s = "ENVI" + f.eol, w = "wavelength" + f.eq + f.open;
  for (int k = 0; k < B; k++) { w += num(q.w[k], form % 2 * 2); if (k + 1 < B) w += k % per == per - 1 ? ",\n  " : f.sep; }
  w += f.close + f.eol;
  for (int i = 0; i < 5; i++) s += field(q, f, i);
  s = last ? s + w : "ENVI" + f.eol + w + s.substr(4 + f.eol.size());
  loaded(q, s, true, "many-bands");
}
static void explore(HV &h) {
  for (int il = 0; il < 3; il++) for (int m = 0; m < 8; m++) for (int f = 0; f < NF; f++) h.run([&] { cases(il, m, f, ALLT[(il + m + f) % 9]); }, "layout %s in case %d form %d", ILV[il], m, f);
  for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) for (int f = 0; f < NF; f++) h.run([&] { twice(a, b, f); }, "fields %d and %d twice in form %d", a, b, f);
  for (int f = 0; f < NF; f++) for (int st = 0; st < 3; st++) for (int k = 0; k < 14; k++) h.run([&] { magnitudes(f, st, k); }, "magnitudes %d form %d style %d", k, f, st);
  for (int l = 3; l < 9990; l += h.thorough ? 1 : l < 300 ? 7 : 251) for (int w : {1, 3, 6}) h.run([&] { comment(l, w); }, "a comment of %d characters at %d", l, w);
  for (int B : {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 224, 255, 256, 257, 425, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 2151, 4097, 5000}) for (int per : {1, 3, 8, 1000, 100000}) for (int f = 0; f < NF; f++) for (int last = 0; last < 2; last++)
    if (h.thorough || (B + per + f) % 2 == last) h.run([&] { many(B, per, f, last); }, "%d bands, %d per line, form %d %s", B, per, f, last ? "last" : "first");
  int perm[6] = {0, 1, 2, 3, 4, 5};
  do {
    for (int f = 0; f < NF; f++) for (int v = 0; v < (h.thorough ? 27 : 3); v++) h.run([&] { order(perm, f, ALLT[(v * 4 + f) % 9], v % 3); }, "fields in order %d%d%d%d%d%d form %d variant %d", perm[0], perm[1], perm[2], perm[3], perm[4], perm[5], f, v);
  } while (std::next_permutation(perm, perm + 6));
  // a different form for every field
  int form[6];
  int K = h.thorough ? 6 : 3;
  static const int SEL[6] = {1, 4, 6, 0, 5, 2};
  int n = 1; for (int i = 0; i < 6; i++) n *= K;
  for (int c = 0; c < n; c++) { for (int i = 0, x = c; i < 6; i++, x /= K) form[i] = SEL[x % K]; h.run([&] { mixed_forms(form); }, "forms %d %d %d %d %d %d", form[0], form[1], form[2], form[3], form[4], form[5]); }
  for (int B = 1; B <= (h.thorough ? 6 : 4); B++) for (int mask = 0; mask < 1 << (2 * B); mask++) for (int k = 0; k < 5; k++) for (int st = 0; st < 4; st++) h.run([&] { breaks(B, mask, k, st); }, "%d wavelengths with breaks %x kind %d style %d", B, mask, k, st);
  for (int x = 0; x < NX; x++) for (int px = 0; px <= 6; px++) {
    for (int t : {1, 2, 4, 12}) h.run([&] { unrelated(x, px, -1, 0, t); }, "field %d at place %d type %d", x, px, t);
    for (int y = 0; y < NX; y++) for (int py = px; py <= 6; py++) if (h.thorough || (py - px) % 3 == 0) h.run([&] { unrelated(x, px, y, py, 5); }, "field %d at place %d and field %d at place %d", x, px, y, py);
  }
  for (int mask = 0; mask < 64; mask++) for (int f = 0; f < NF; f++) h.run([&] { omitted(mask, f); }, "fields %x omitted form %d", mask, f);
  for (int i = 0; i < 4; i++) for (const char *v : {"0", "-1", "abc", "", " ", "-2147483648", "{3}", "x3", "2147483647"}) h.run([&] { badvalue(i, v); }, "field %d is '%s'", i, v);
  for (const char *v : {"6", "7", "8", "9", "10", "11", "16", "99", "255", "256", "257", "-4"}) h.run([&] { badvalue(3, v); }, "data type %s", v);
  for (int f = 0; f < NF; f++) for (int c = 0; c <= 300; c++) for (int fill : {0xA5, 0x31}) h.run([&] { cut(c, f, fill); }, "header of form %d cut at %d, fresh memory %d", f, c, fill);
  for (int t : ALLT) for (int il = 0; il < 3; il++) for (int sh = 0; sh < 4; sh++) {
    static const int SH[4][3] = {{1, 1, 1}, {2, 3, 2}, {4, 1, 3}, {3, 3, 3}};
    int full = SH[sh][0] * SH[sh][1] * SH[sh][2] * tsize(t);
    for (int k = 0; k <= full + 9; k++) for (int sz = 0; sz < 2; sz++) h.run([&] { shortimg(SH[sh][0], SH[sh][1], SH[sh][2], t, il, k, sz); }, "%d x %d x %d type %d %s image of %d bytes by %s", SH[sh][0], SH[sh][1], SH[sh][2], t, ILV[il], k, sz ? "size" : "header");
  }
  for (int k : {0, 1, 4095, 4096, 4097, 65535, 65536, 131071, 199999, 200000, 200001}) for (int sz = 0; sz < 2; sz++) h.run([&] { shortimg(100, 100, 10, 2, 1, k, sz); }, "100 x 100 x 10 image of %d bytes", k);
  for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) h.run([&] { missing(a, b); }, "image %d header %d", a, b);
  for (int pre = 0; pre < 3; pre++) for (int d = 0; d <= (h.thorough ? 5 : 4); d++) { int m = 1; for (int i = 0; i < d; i++) m *= NT; for (int c = 0; c < m; c++) h.run([&] { tokens(c, d, pre); }, "tokens %d of depth %d after %d", c, d, pre); }
  for (int w = 0; w < 8; w++) for (int l = 0; l < 60; l++) { h.run([&] { longline(9960 + l, w); }, "line of about %d characters at %d", 9960 + l, w); }
  for (int w = 0; w < 8; w++) for (int l : {100, 1000, 1023, 1024, 4096, 19980, 19999, 20000, 25000, 100000}) h.run([&] { longline(l, w); }, "line of about %d characters at %d", l, w);
  for (int B = 1; B <= 12; B++) for (int k = 0; k <= 40; k++) h.run([&] { count_mismatch(B, k); }, "%d wavelengths for %d bands", k, B);
}
int main(int c, char **v) { return hv_main(c, v, "C06", explore); }
