// C08: raw images and spectrum files, of every length and number form.
#include "lib.h"

static std::string P;
static void raw(int R, int C, int t, int ch, long delta, int fill) {
  P = hv->tmp + "/raw"; hv_env.fill = fill; hv_env.limit = 256 << 20;
  size_t need = (size_t)R * C * ch * tsize(t), n = need + delta;
  Bytes f(n); fillpat(f.data(), n, 3 + t);
  hv_write_file(P, f.data(), n);
  long live = hv_env.live, out = hv_stdout_bytes(); int fds = hv_open_fds();
  simple_mat m = NULL;
  int ended = hv_call([&] { m = L(smread(P.c_str(), R, C, t, ch)); });
  if (!ended) CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
  if (delta < 0) {
    CHECK(ended || !m, "short", "a file of %zu bytes, %zu are needed, gave an image", n, need);
    CHECK(hv_stdout_bytes() > out, "short", "no diagnosis");
    if (ended) CHECK(hv_status != 0, "short", "the program ended with status 0"); else CHECK(hv_env.live == live, "short-leak", "%ld blocks are left", hv_env.live - live);
    hv->state(n);
  } else {
    CHECK(!ended && m, "refused", "a file of %zu bytes, %zu are needed, was refused", n, need);
    expect_dims(m, R, C, t, ch, "dims");
    same_bytes(m->data, f.data(), need, "data", "image");
    hv->state(hstate(m));
    delete_simple_mat(m);
    CHECK(hv_env.live == live, "leak", "%ld blocks are left", hv_env.live - live);
  }
}
static void none(int kind, int what) {
  P = hv->tmp + "/raw"; hv_env.limit = 256 << 20;
  unlink(P.c_str());
  if (kind == 1) hv_write_file(P, "", 0);
  if (kind == 2) P = hv->tmp;
  if (kind == 3) P += "/no/such";
  long out = hv_stdout_bytes(); int fds = hv_open_fds();
  void *m = NULL;
  int ended = hv_call([&] { if (what == 0) m = L(smread(P.c_str(), 2, 2, 1, 1)); else m = L(read_spectrum_file(P.c_str(), 2)); });
  CHECK(ended || !m, "missing", "something was read from nothing");
  CHECK(!ended || hv_status != 0, "missing", "the program ended with status 0");
  CHECK(hv_stdout_bytes() > out, "missing", "no diagnosis");
  if (!ended) CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
  hv->state(kind * 2 + what);
}
static void spectrum(const std::string &text, int len, const std::vector<double> &vals, int fill) {
  P = hv->tmp + "/sp.txt"; hv_env.fill = fill; hv_env.limit = 256 << 20;
  hv_write_file(P, text.data(), text.size());
  long live = hv_env.live, out = hv_stdout_bytes(); int fds = hv_open_fds();
  float *f = NULL;
  int ended = hv_call([&] { f = L(read_spectrum_file(P.c_str(), len)); });
  if (!ended) CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
  if ((int)vals.size() < len) {
    CHECK(ended || !f, "sp-short", "%zu numbers for %d gave a spectrum", vals.size(), len);
    CHECK(hv_stdout_bytes() > out, "sp-short", "no diagnosis");
    if (!ended) CHECK(hv_env.live == live, "sp-short-leak", "%ld blocks are left", hv_env.live - live);
    else CHECK(hv_status != 0, "sp-short", "the program ended with status 0");
    hv->state(vals.size());
    return;
  }
  CHECK(!ended && f, "sp-refused", "a spectrum of %zu numbers was refused for length %d", vals.size(), len);
  for (int i = 0; i < len; i++) CHECK(near_(f[i], (float)vals[i], 2e-7, 1e-44), "sp-value", "number %d is %.9g, expected %.9g", i + 1, f[i], vals[i]);
  hv->state(hv_hash(f, 4 * (size_t)len));
  hv_free(f);
  CHECK(hv_env.live == live, "sp-leak", "%ld blocks are left", hv_env.live - live);
}
static const struct { const char *s; double v; } NUM[] = {{"0", 0}, {"1", 1}, {"-2.5", -2.5}, {"+3", 3}, {".5", .5}, {"7.", 7}, {"1e3", 1000}, {"-1.5E-2", -0.015}, {"000123", 123}, {"65535", 65535}, {"0.000001", 1e-6}, {"123456.75", 123456.75}, {"3.4e38", 3.4e38}, {"1e-30", 1e-30}, {"-0.1", -0.1}, {"-3.4e+38", -3.4e38}, {"-1e34", -1e34}, {"1e-38", 1e-38}, {"9999999", 9999999}, {"-999", -999}};
// as long as numbers get
static const struct { const char *s; double v; } LONGNUM[] = {{"0.12345678901234567890", 0.12345678901234567890}, {"123456789012345678901234567890", 1.2345678901234568e29}, {"00000000000000000000000000000012.5", 12.5}, {"-0.000000000000000000000000000000123", -1.23e-31}, {"1.50000000000000000000000000000000000e+000000012", 1.5e12}, {"-98765.4321098765432109876543210987654321", -98765.43210987654}, {"0.00000000000000000000000000000000000000000000000000000001e60", 10000}, {"3.14159265358979323846264338327950288419716939937510", 3.14159265358979}, {"+1234567.1234567e-3", 1234.5671234567}, {"1234567890123456", 1234567890123456.0}, {"100000000000000000000", 1e20}};
static const int NN = sizeof NUM / sizeof *NUM;
static const char *const SEP[] = {"\n", " ", "\t", "\r\n", "  ", "\n\n", " \n "};
static const int NS = sizeof SEP / sizeof *SEP;
static void forms(int code, int n, int sep, int lead, int trail, int len) {
  std::string s = lead ? SEP[(sep + lead) % NS] : "";
  std::vector<double> v;
  for (int i = 0; i < n; i++, code /= NN) { if (i) s += SEP[(sep + i) % NS]; s += NUM[code % NN].s; v.push_back(NUM[code % NN].v); }
  static const char *const TR[] = {"", "\n", " ", "\n1 2 3", "\nend of file", "\n99.5\n"};
  s += TR[trail];
  if (trail == 3) { v.push_back(1); v.push_back(2); v.push_back(3); }
  if (trail == 5) v.push_back(99.5);
  spectrum(s, len, v, 0xA5);
}
static const char *const TOK[] = {"1", ".", "-", "e", "x", " ", "\n", ",", "2"};
// any text: exactly the numbers the ordinary scanner finds, or nothing
static void garbage(int code, int n, int len) {
  std::string s;
  for (int i = 0; i < n; i++, code /= 9) s += TOK[code % 9];
  P = hv->tmp + "/g.txt"; hv_env.fill = 0xA5;
  hv_write_file(P, s.data(), s.size());
  float *f = NULL; long out = hv_stdout_bytes();
  int ended = hv_call([&] { f = L(read_spectrum_file(P.c_str(), len)); });
  if (ended || !f) {
    CHECK(hv_stdout_bytes() > out, "garbage", "no diagnosis");
    // pure white-space separated plain numbers must not be refused
    std::stringstream ss(s); std::string w; int good = 0; bool clean = true;
    while (ss >> w) { char *e; strtod(w.c_str(), &e); if (*e) { clean = false; break; } good++; }
    CHECK(!(clean && good >= len), "garbage-refused", "'%s' was refused for %d numbers", s.c_str(), len);
    hv->state(3);
    return;
  }
  for (int i = 0; i < len; i++) { float g = f[i]; u32 b; memcpy(&b, &g, 4); CHECK(b != 0xA5A5A5A5u, "garbage-unread", "number %d of '%s' was never read", i + 1, s.c_str()); }
  // enough digits for so many numbers
  int digits = 0; for (char c : s) digits += c == '1' || c == '2';
  CHECK(digits >= len, "garbage-invented", "'%s' gave %d numbers", s.c_str(), len);
  hv->state(hv_hash(f, 4 * len));
  hv_free(f);
}
static void explore(HV &h) {
  int N = h.thorough ? 4 : 3;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int t : ALLT) for (int ch : {1, 2, 3}) {
    long need = (long)R * C * ch * tsize(t);
    for (long d = -need; d <= 9; d++) h.run([&] { raw(R, C, t, ch, d, 0xA5); }, "raw %d x %d type %d channels %d, %ld bytes", R, C, t, ch, need + d);
  }
  for (int ch : {4, 5, 6, 7, 8, 9, 16, 17, 100, 255, 256, 1000}) for (int t : ALLT) for (int R : {1, 2, 5}) for (int C : {1, 3, 4}) for (long d : {-1L, 0L, 3L}) h.run([&] { raw(R, C, t, ch, d, 0xA5); }, "raw %d x %d type %d channels %d, %ld bytes off", R, C, t, ch, d);
  int NL = sizeof LONGNUM / sizeof *LONGNUM;
  for (int a = 0; a < NL; a++) for (int b = 0; b < NL + 2; b++) for (int sep = 0; sep < NS; sep++) for (int len = 1; len <= 3; len++) h.run([&] { std::vector<double> v = {LONGNUM[a].v, b < NL ? LONGNUM[b].v : NUM[b].v, 7}; spectrum(std::string(LONGNUM[a].s) + SEP[sep] + (b < NL ? LONGNUM[b].s : NUM[b].s) + SEP[(sep + 1) % NS] + "7\n", len, v, 0xA5); }, "long number %d then %d separator %d length %d", a, b, sep, len);
  for (int e : {31, 64, 100, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 200000}) for (int t : ALLT) for (int ch : {1, 3}) for (int ax = 0; ax < 2; ax++) for (long d : {-4096L, -2L, -1L, 0L, 1L, 4096L}) {
    int a = ax ? e : 3, b = ax ? 3 : e;
    if ((long)a * b * ch * tsize(t) + d < 0) continue;
    h.run([&] { raw(a, b, t, ch, d, 0); }, "raw %d x %d type %d channels %d, %ld bytes off", a, b, t, ch, d);
  }
  for (int t : {1, 2, 4}) for (long d : {-1L, 0L}) h.run([&] { raw(4099, 4111, t, 1, d, 0); }, "large raw image type %d, %ld bytes off", t, d);
  // binary contents that text mode would stop at or change
  for (int v = 0; v < 256; v++) h.run([&] { P = hv->tmp + "/v"; Bytes f(9, v); hv_write_file(P, f.data(), 9); simple_mat m = L(smread(P.c_str(), 3, 3, 1, 1)); CHECK(m, "binary", "refused"); same_bytes(m->data, f.data(), 9, "binary", "image"); hv->state(hstate(m)); delete_simple_mat(m); }, "bytes of value %d", v);
  for (int k = 0; k < 4; k++) for (int w = 0; w < 2; w++) h.run([&] { none(k, w); }, "missing %d for %d", k, w);
  for (int n = 0; n <= 3; n++) { int m = 1; for (int i = 0; i < n; i++) m *= NN; for (int c = 0; c < m; c++) for (int sep = 0; sep < (n < 3 || h.thorough ? NS : 1); sep++) for (int ld = 0; ld < (n < 3 ? 3 : 1); ld++) for (int tr = 0; tr < 6; tr++) for (int len = 1; len <= n + 2; len++) if (n || len) h.run([&] { forms(c, n, sep, ld, tr, len); }, "numbers %d of %d separator %d lead %d end %d length %d", c, n, sep, ld, tr, len); }
  for (int n = 0; n <= (h.thorough ? 6 : 5); n++) { int m = 1; for (int i = 0; i < n; i++) m *= 9; for (int c = 0; c < m; c++) for (int len = 1; len <= 2; len++) h.run([&] { garbage(c, n, len); }, "text %d of %d tokens length %d", c, n, len); }
  for (int n : {10, 31, 32, 33, 63, 64, 65, 100, 224, 255, 256, 257, 300, 1000, 1024, 2151, 4097, 65536, 100000}) for (int d = -2; d <= 3; d++) for (int sep = 0; sep < NS; sep++) h.run([&] { std::string s; std::vector<double> v; for (int i = 0; i < n; i++) { char b[64]; double x = (i * 7919 % 10007) * (i % 3 ? 0.25 : -1.5); snprintf(b, sizeof b, i % 2 ? "%.6f" : "%.9g", x); s += b; s += SEP[sep]; v.push_back(x); } spectrum(s, n - d, v, d & 1 ? 0 : 0xA5); }, "%d numbers for a length smaller by %d separator %d", n, d, sep);
}
int main(int c, char **v) { return hv_main(c, v, "C08", explore); }
