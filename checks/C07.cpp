// C07: BMP writing against the file layout, reading of every variant, damage.
#define HV_GUI
#include "ops.h"

static std::string P;
static void begin() { P = hv->tmp + "/i.bmp"; hv_env.limit = 256 << 20; }
static u32 le(const u8 *p, int n) { u32 v = 0; for (int i = 0; i < n; i++) v |= (u32)p[i] << (8 * i); return v; }
static void w(Bytes &b, u32 v, int n) { for (int i = 0; i < n; i++) b.push_back(v >> (8 * i)); }
static void expect_file(const Bytes &f, int R, int C, const std::vector<u8> &rgb) {
  size_t line = ((size_t)C * 3 + 3) / 4 * 4;
  CHECK(f.size() >= 54, "file", "%zu bytes", f.size());
  CHECK(f[0] == 'B' && f[1] == 'M', "magic", "no BM at the start");
  u32 off = le(&f[10], 4);
  CHECK(le(&f[2], 4) == f.size(), "bfSize", "bfSize %u for a file of %zu bytes", le(&f[2], 4), f.size());
  CHECK(le(&f[6], 4) == 0, "reserved", "reserved fields are not zero");
  CHECK(le(&f[14], 4) == 40 && off >= 54 && off <= f.size(), "header", "header size %u offset %u", le(&f[14], 4), off);
  CHECK((int)le(&f[18], 4) == C && (int)le(&f[22], 4) == R, "dims", "the file says %d x %d, expected %d x %d", (int)le(&f[22], 4), (int)le(&f[18], 4), R, C);
  CHECK(le(&f[26], 2) == 1 && le(&f[28], 2) == 24 && le(&f[30], 4) == 0, "format", "planes %u bits %u compression %u", le(&f[26], 2), le(&f[28], 2), le(&f[30], 4));
  CHECK(le(&f[34], 4) == 0 || le(&f[34], 4) == line * R, "image-size", "biSizeImage %u, expected %zu", le(&f[34], 4), line * R);
  CHECK(le(&f[46], 4) == 0, "clr-used", "biClrUsed %u", le(&f[46], 4));
  CHECK(f.size() == off + line * R, "length", "%zu bytes, expected %zu", f.size(), off + line * R);
  for (int i = 0; i < R; i++) {
    const u8 *p = &f[off + (size_t)(R - 1 - i) * line];
    for (int j = 0; j < C; j++) for (int k = 0; k < 3; k++)
      if (p[3 * j + k] != rgb[((size_t)i * C + j) * 3 + 2 - k]) hv->fail("pixel", "file: line %d column %d byte %d is %d, expected %d", i, j, k, p[3 * j + k], rgb[((size_t)i * C + j) * 3 + 2 - k]);
    for (size_t j = 3 * (size_t)C; j < line; j++) CHECK(p[j] == 0, "padding", "padding of line %d is %d", i, p[j]);
  }
}
static void roundtrip(int R, int C, int ch, int which, int fill) {
  begin();
  hv_env.fill = fill;
  int fds = hv_open_fds(); long live = hv_env.live;
  Bytes junk(100 + (size_t)R * C * 7, 'j');
  if (fill & 1) hv_write_file(P, junk.data(), junk.size()); else unlink(P.c_str());
  simple_mat m = mkimg(R, C, 1, ch, R * 131 + C);
  Bytes k = dump(m);
  (void)which; L(smwrite_bmp(P.c_str(), m));
  expect_dims(m, R, C, 1, ch, "src-dims");
  same_bytes(m->data, k.data(), k.size(), "src-data", "written image");
  CHECK(hv_open_fds() == fds, "fd", "%d files are left open after writing", hv_open_fds() - fds);
  std::vector<u8> rgb((size_t)R * C * 3);
  for (size_t i = 0; i < rgb.size(); i++) rgb[i] = ch == 3 ? k[i] : k[i / 3];
  Bytes f;
  CHECK(hv_read_file(P, f), "no-file", "no file was written");
  expect_file(f, R, C, rgb);
  simple_mat r = L(smread_bmp(P.c_str()));
  expect_dims(r, R, C, 1, 3, "read-dims");
  same_bytes(r->data, rgb.data(), rgb.size(), "read-data", "image read back");
  CHECK(hv_open_fds() == fds, "fd", "%d files are left open after reading", hv_open_fds() - fds);
  hv->state(hstate(r));
  // write what was read: the same file
  L(smwrite_bmp(P.c_str(), r));
  Bytes g;
  CHECK(hv_read_file(P, g), "no-file", "no file was written");
  expect_file(g, R, C, rgb);
  delete_simple_mat(r); delete_simple_mat(m);
  CHECK(hv_env.live == live, "leak", "%ld blocks are left", hv_env.live - live);
}
// every uchar image that an operation takes or delivers is written and read like a fresh one
static void product(const Op &o, int a, int b) {
  begin();
  Ctx c; c.snap = false;
  run_op(o, c, a, b, 0);
  for (simple_mat m : c.sm) {
    if (m->data_type != 1 || (m->channels != 1 && m->channels != 3)) continue;
    Bytes k = dump(m), f;
    int R = m->rows, C = m->cols;
    std::vector<u8> rgb((size_t)R * C * 3);
    for (size_t i = 0; i < rgb.size(); i++) rgb[i] = m->channels == 3 ? k[i] : k[i / 3];
    unlink(P.c_str());
    L(smwrite_bmp(P.c_str(), m));
    CHECK(hv_read_file(P, f), "no-file", "no file was written");
    expect_file(f, R, C, rgb);
    simple_mat r = L(smread_bmp(P.c_str()));
    expect_dims(r, R, C, 1, 3, "read-dims");
    same_bytes(r->data, rgb.data(), rgb.size(), "read-data", "image read back");
    hv->state(hstate(r));
    delete_simple_mat(r);
  }
  unlink(P.c_str());
  c.release();
}
struct Bmp { int bits = 24, R = 1, C = 1, colors = 0, gap = 0, padbyte = 0, size_image = 1, tail = 0, salt = 0; bool used = false; };
static Bytes make(const Bmp &b, std::vector<u8> &rgb) {
  Bytes f;
  int pal = b.bits == 8 ? (b.colors ? b.colors : 256) : 0;
  size_t line = ((size_t)b.C * b.bits / 8 + 3) / 4 * 4;
  u32 off = 54 + 4 * pal + b.gap;
  f.push_back('B'); f.push_back('M'); w(f, off + line * b.R + b.tail, 4); w(f, 0, 4); w(f, off, 4);
  w(f, 40, 4); w(f, b.C, 4); w(f, b.R, 4); w(f, 1, 2); w(f, b.bits, 2); w(f, 0, 4); w(f, b.size_image ? line * b.R : 0, 4); w(f, 2835, 4); w(f, 2835, 4); w(f, b.colors, 4); w(f, 0, 4);
  for (int i = 0; i < pal; i++) { f.push_back(pat(4 * i, b.salt)); f.push_back(pat(4 * i + 1, b.salt)); f.push_back(pat(4 * i + 2, b.salt)); f.push_back(i & 1 ? 0 : 0xEE); }
  for (int i = 0; i < b.gap; i++) f.push_back(0x99);
  size_t base = f.size();
  rgb.assign((size_t)b.R * b.C * 3, 0);
  for (int y = 0; y < b.R; y++) {
    int i = b.R - 1 - y;
    for (int j = 0; j < b.C; j++) {
      u8 *q = &rgb[((size_t)i * b.C + j) * 3];
      if (b.bits == 8) {
        int v = ((size_t)i * b.C + j) * 37 % pal;
        f.push_back(v);
        q[0] = f[54 + 4 * v + 2]; q[1] = f[54 + 4 * v + 1]; q[2] = f[54 + 4 * v];
      } else { for (int k = 0; k < 3; k++) { q[2 - k] = pat(((size_t)y * b.C + j) * 3 + k, b.salt + 1); f.push_back(q[2 - k]); } }
    }
    while ((f.size() - base) % line) f.push_back(b.padbyte);
  }
  for (int i = 0; i < b.tail; i++) f.push_back(0x77);
  return f;
}
static simple_mat readit(const char *key) {
  int fds = hv_open_fds();
  long out = hv_stdout_bytes();
  simple_mat m = NULL;
  if (hv_call([&] { m = L(smread_bmp(P.c_str())); })) { CHECK(hv_status != 0, key, "the program ended with status 0"); m = NULL; }
  else CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
  if (!m) CHECK(hv_stdout_bytes() > out, key, "no image and no diagnosis");
  return m;
}
static void variant(const Bmp &b, int fill) {
  begin();
  hv_env.fill = fill;
  std::vector<u8> rgb;
  Bytes f = make(b, rgb);
  hv_write_file(P, f.data(), f.size());
  simple_mat m = readit("variant");
  CHECK(m, "variant", "a valid bitmap was refused");
  expect_dims(m, b.R, b.C, 1, 3, "variant");
  same_bytes(m->data, rgb.data(), rgb.size(), "variant-data", "image");
  hv->state(hstate(m));
  delete_simple_mat(m);
}
static void truncated(const Bmp &b, size_t n, int fill) {
  begin();
  hv_env.fill = fill;
  std::vector<u8> rgb;
  Bytes f = make(b, rgb);
  size_t line = ((size_t)b.C * b.bits / 8 + 3) / 4 * 4, last = f.size() - (line - (size_t)b.C * b.bits / 8);
  if (n >= f.size()) return;
  hv_write_file(P, f.data(), n);
  simple_mat m = readit("truncated");
  if (n < last) CHECK(!m, "truncated", "a bitmap cut after %zu of %zu bytes gave an image", n, f.size());
  if (m) { same_bytes(m->data, rgb.data(), rgb.size(), "truncated-data", "image"); delete_simple_mat(m); }
  hv->state(n);
}
// one header field replaced
static void damaged(const Bmp &b, int off, int len, u32 v, int fill) {
  begin();
  hv_env.fill = fill;
  std::vector<u8> rgb;
  Bytes f = make(b, rgb);
  if (le(&f[off], len) == v) return;
  for (int i = 0; i < len; i++) f[off + i] = v >> (8 * i);
  hv_write_file(P, f.data(), f.size());
  simple_mat m = readit("damaged");
  bool must = (off == 0 && len == 2) || off == 30 || (off == 28 && v != 8 && v != 24) || ((off == 18 || off == 22) && (v == 0 || (int)v < 0));
  if (off == 22 && (int)v < 0 && m) must = false;  // a top-down file may be supported
  if (must) CHECK(!m, "damaged", "a damaged bitmap (field at %d is %u) gave an image", off, v);
  if (!m) { hv->state(hv_mix(off, 1)); return; }
  // whatever is delivered comes from the file
  int bits = le(&f[28], 2), C = le(&f[18], 4), R = (int)le(&f[22], 4);
  u32 o = le(&f[10], 4), used = le(&f[46], 4);
  if (R > 0 && (bits == 8 || bits == 24)) {
    size_t line = ((size_t)C * bits / 8 + 3) / 4 * 4;
    CHECK(m->cols == C && m->rows == R && m->channels == 3 && m->data_type == 1, "damaged-dims", "%d x %d from a file that says %d x %d", m->rows, m->cols, R, C);
    CHECK(o + line * (R - 1) + (size_t)C * bits / 8 <= f.size(), "damaged-unread", "the file has no %d x %d pixels at %u", R, C, o);
    if (bits == 24) for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int k = 0; k < 3; k++) CHECK(((u8 *)m->data)[((size_t)i * C + j) * 3 + k] == f[o + (R - 1 - i) * line + 3 * j + 2 - k], "damaged-pixel", "pixel %d %d", i, j);
    (void)used;
  }
  hv->state(hstate(m));
  delete_simple_mat(m);
}
static void explore(HV &h) {
  int N = h.thorough ? 24 : 13;
  for (int R = 1; R <= N; R++) for (int C = 1; C <= N; C++) for (int ch : {1, 3}) for (int fill : {0xA5, 0}) h.run([&] { roundtrip(R, C, ch, 0, fill); }, "round trip %d x %d channels %d fill %d", R, C, ch, fill);
  for (int e = N + 1; e <= (h.thorough ? 1100 : 130); e++) for (int ch : {1, 3}) { h.run([&] { roundtrip(2, e, ch, 0, 0xA5); }, "round trip 2 x %d channels %d", e, ch); h.run([&] { roundtrip(e, 3, ch, 0, 0xA5); }, "round trip %d x 3 channels %d", e, ch); }
  for (int e : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537}) for (int ch : {1, 3}) { h.run([&] { roundtrip(3, e, ch, 0, 0xA5); }, "round trip 3 x %d channels %d", e, ch); h.run([&] { roundtrip(e, 1, ch, 1, 0xA5); }, "round trip %d x 1 channels %d", e, ch); }
  for (int ch : {1, 3}) for (auto d : {std::pair<int, int>{301, 403}, {512, 512}, {1025, 777}, {480, 641}}) h.run([&] { roundtrip(d.first, d.second, ch, 0, 0); }, "round trip %d x %d channels %d", d.first, d.second, ch);
  h.run([&] { roundtrip(4099, 4103, 3, 0, 1); }, "large round trip");
  std::vector<std::array<int, 2>> SH = {{3, 3}, {3, 4}, {4, 3}, {5, 5}, {6, 7}};
  if (h.thorough) for (int r = 3; r <= 8; r++) for (int c = 3; c <= 8; c++) SH.push_back({r, c});
  for (auto &o : ops()) if (o.dims == 2) for (auto &d : SH) h.run([&] { product(o, d[0], d[1]); }, "images of: %s at %d %d", o.name.c_str(), d[0], d[1]);
  // reading
  for (int bits : {8, 24}) for (int R = 1; R <= N - 3; R++) for (int C = 1; C <= N; C++) for (int pad : {0, 0xFF}) for (int gap : {0, 1, 2, 84}) for (int tail : {0, 2}) {
    Bmp b; b.bits = bits; b.R = R; b.C = C; b.padbyte = pad; b.gap = gap; b.tail = tail; b.size_image = (R + C) % 2; b.salt = R + C;
    h.run([&] { variant(b, 0xA5); }, "%d bit %d x %d padding %d gap %d tail %d", bits, R, C, pad, gap, tail);
  }
  for (int col = 0; col <= 256; col++) for (int C : {1, 2, 3, 4, 7, 16, 100}) for (int fill : {0xA5, 0}) { Bmp b; b.bits = 8; b.R = 3; b.C = C; b.colors = col; b.salt = col; h.run([&] { variant(b, fill); }, "palette of %d colours %d columns fill %d", col, C, fill); }
  for (int bits : {8, 24}) for (int e : {255, 256, 257, 258, 259, 509, 510, 511, 512, 513, 514, 515, 1000, 1001, 1002, 1003, 4096, 4097, 65535, 65536}) { Bmp b; b.bits = bits; b.R = 2; b.C = e; h.run([&] { variant(b, 0); }, "%d bit 2 x %d", bits, e); b.R = e; b.C = 5; h.run([&] { variant(b, 0); }, "%d bit %d x 5", bits, e); }
  for (int bits : {8, 24}) for (int R : {1, 2, 3}) for (int C : {1, 2, 3, 4, 5}) for (int col : {0, 2, 16}) {
    if (bits == 24 && col) continue;
    Bmp b; b.bits = bits; b.R = R; b.C = C; b.colors = col;
    std::vector<u8> x; size_t n = make(b, x).size();
    for (size_t k = 0; k < n; k++) for (int fill : {0xA5, 0x42}) h.run([&] { truncated(b, k, fill); }, "%d bit %d x %d with %d colours cut after %zu bytes, fresh memory %d", bits, R, C, col, k, fill);
    static const int FLD[][2] = {{0, 2}, {2, 4}, {6, 2}, {8, 2}, {10, 4}, {14, 4}, {18, 4}, {22, 4}, {26, 2}, {28, 2}, {30, 4}, {34, 4}, {38, 4}, {42, 4}, {46, 4}, {50, 4}};
    static const u32 V[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 24, 25, 32, 53, 54, 55, 255, 256, 257, 1078, 65535, 65536, 1000000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFFFEu, 0x4D42, 0x424D, 1 << 24, 1 << 26, (1 << 26) - 1, 715827882, 715827883};
    for (auto &q : FLD) for (u32 v : V) { if (q[1] == 2 && v > 65535) continue; h.run([&] { damaged(b, q[0], q[1], v, 0xA5); }, "%d bit %d x %d colours %d with field at %d set to %u", bits, R, C, col, q[0], v); }
    for (int off = 0; off < 54; off++) for (int v : {0, 1, 0x7F, 0x80, 0xFF, 8, 24}) h.run([&] { damaged(b, off, 1, v, 0xA5); }, "%d bit %d x %d colours %d with byte %d set to %d", bits, R, C, col, off, v);
  }
  // missing, empty, a directory
  for (int q = 0; q < 3; q++) h.run([&] { begin(); unlink(P.c_str()); if (q == 1) hv_write_file(P, "", 0); if (q == 2) P = hv->tmp; simple_mat m = readit("missing"); CHECK(!m, "missing", "an image from nothing"); hv->state(q); }, "no bitmap %d", q);
}
int main(int c, char **v) { return hv_main(c, v, "C07", explore); }
