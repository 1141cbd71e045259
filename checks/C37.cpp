// C37: every place where reading a file can fail, and every way the system can divide it among reads, for every
// function that loads something. A load gives the object of an undisturbed load, or says that it failed and gives none.
#define HV_CXX
#include "lib.h"
#include <sys/syscall.h>

// the C++ streams read through this; the C streams of the library through fopen
extern "C" ssize_t read(int fd, void *b, size_t n) {
  if (!hv_rfault.on) return syscall(SYS_read, fd, b, n);
  char l[64], p[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(l, p, sizeof p);
  return k <= 0 || p[0] != '/' ? syscall(SYS_read, fd, b, n) : hv_faulty_read(fd, b, n, std::string(p, k));
}
struct Out { bool some = false; Bytes v; };  // dimensions, samples, wavelengths of what was loaded
static void put(Out &o, const void *p, size_t n) { o.v.insert(o.v.end(), (const u8 *)p, (const u8 *)p + n); }
static Out take(hyper_mat m) {
  Out o;
  if (!m) return o;
  o.some = true;
  int d[] = {m->samples, m->lines, m->bands, m->data_type, m->interleave[0], m->interleave[1], m->interleave[2]};
  put(o, d, sizeof d); put(o, m->wavelength, 4 * (size_t)m->bands); put(o, m->data, nbytes(m));
  delete_hyper_mat(m);
  return o;
}
static Out take(simple_mat m) {
  Out o;
  if (!m) return o;
  o.some = true;
  int d[] = {m->rows, m->cols, m->channels, m->data_type};
  put(o, d, sizeof d); put(o, m->data, nbytes(m));
  delete_simple_mat(m);
  return o;
}
static Out take(hypercv::HyMat &m) {
  Out o;
  if (m.empty()) { m.release(); return o; }
  o.some = true;
  int d[] = {m.samples, m.lines, m.bands, m.dataType, m.format, m.elemSize};
  put(o, d, sizeof d); put(o, m.wavelength, 4 * (size_t)m.bands); put(o, m.data, m.dataSize);
  m.release();
  return o;
}
static std::string I, Hd;  // the image (or only) file and the header
struct Load { std::string name; bool hdr; std::function<void()> make; std::function<Out()> go; };
static Bytes body(size_t n) { Bytes b(n); fillpat(b.data(), n, 7); for (auto &x : b) x |= 1; return b; }
static void headed(int S, int Ln, int B, int t, int il, int form) {
  Bytes d = body((size_t)S * Ln * B * tsize(t));
  hv_write_file(I, d.data(), d.size());
  std::vector<std::string> f = {"samples = " + std::to_string(S) + "\n", "lines = " + std::to_string(Ln) + "\n", "bands = " + std::to_string(B) + "\n", "data type = " + std::to_string(t) + "\n", std::string("interleave = ") + ILV[il] + "\n"};
  std::string w = "wavelength = {\n";
  for (int k = 0; k < B; k++) { char b[32]; snprintf(b, sizeof b, "%s%.6f", k ? k % 3 ? "," : ",\n" : " ", 400.25 + 10.5 * k); w += b; }
  w += form == 2 ? "\n}\n" : "}\n";
  std::string h = "ENVI\n";
  if (form == 1) h += "description = {\n some text,\n more of it}\n" + w;
  for (size_t i = 0; i < f.size(); i++) h += f[(i * (form ? 3 : 1) + form) % f.size()];
  if (form != 1 && form != 3) h += w;
  if (form == 2) h += "band names = {\n one,\n two}\n; the end\n";
  hv_write_file(Hd, h.data(), h.size());
}
static void bitmap(int R, int C, int bits, int gap) {
  Bytes f;
  auto w = [&](u32 v, int n) { for (int i = 0; i < n; i++) f.push_back(v >> (8 * i)); };
  int pal = bits == 8 ? 256 : 0;
  u32 line = (C * bits / 8 + 3) / 4 * 4, off = 54 + 4 * pal + gap;
  w(0x4D42, 2); w(off + line * R, 4); w(0, 4); w(off, 4); w(40, 4); w(C, 4); w(R, 4); w(1, 2); w(bits, 2); w(0, 4); w(line * R, 4); w(0, 4); w(0, 4); w(0, 4); w(0, 4);
  for (int i = 0; i < pal; i++) { w((i * 37 + 1) | 1, 1); w((i * 11 + 5) | 1, 1); w((i * 3 + 77) | 1, 1); w(0, 1); }
  for (int i = 0; i < gap; i++) w(0x55, 1);
  Bytes d = body((size_t)line * R);
  f.insert(f.end(), d.begin(), d.end());
  hv_write_file(I, f.data(), f.size());
}
static std::vector<Load> loads(int tier) {
  std::vector<Load> v;
  auto H = [&](int S, int Ln, int B, int t, int il, int form) {
    static const int FM[3] = {HYPERCV_BSQ, HYPERCV_BIL, HYPERCV_BIP};
    char n[96]; snprintf(n, sizeof n, "cube %d x %d x %d type %d %s form %d", S, Ln, B, t, ILV[il], form);
    auto mk = [=] { headed(S, Ln, B, t, il, form); };
    v.push_back({std::string(n) + " with its header", true, mk, [] { return take(L(hmread_with_hdr(I.c_str(), Hd.c_str()))); }});
    v.push_back({std::string(n) + " with its header in C++", true, mk, [] { hypercv::HyMat m; L(m.open(I.c_str(), Hd.c_str())); return take(m); }});
    if (form) return;
    v.push_back({std::string(n) + " with its size", false, mk, [=] { return take(L(hmread_with_size(I.c_str(), S, Ln, B, t, ILV[il]))); }});
    v.push_back({std::string(n) + " with its size in C++", false, mk, [=] { hypercv::HyMat m; L(m.open(I.c_str(), S, Ln, B, t, FM[il])); return take(m); }});
  };
  auto M = [&](int R, int C, int t, int ch) { char n[64]; snprintf(n, sizeof n, "raw %d x %d type %d channels %d", R, C, t, ch); v.push_back({n, false, [=] { Bytes d = body((size_t)R * C * ch * tsize(t)); hv_write_file(I, d.data(), d.size()); }, [=] { return take(L(smread(I.c_str(), R, C, t, ch))); }}); };
  auto P = [&](int R, int C, int bits, int gap) { char n[64]; snprintf(n, sizeof n, "bitmap %d x %d of %d bits gap %d", R, C, bits, gap); v.push_back({n, false, [=] { bitmap(R, C, bits, gap); }, [] { return take(L(smread_bmp(I.c_str()))); }}); };
  auto T = [&](int n, int len, const char *sep, const char *end) {
    char b[64]; snprintf(b, sizeof b, "spectrum of %d of %d", len, n);
    v.push_back({b, false, [=] { std::string s; for (int i = 0; i < n; i++) { char q[32]; snprintf(q, sizeof q, "%.4f", 1234.5678 + 11 * i); s += (i ? sep : "") + std::string(q); } s += end; hv_write_file(I, s.data(), s.size()); }, [=] { Out o; float *f = L(read_spectrum_file(I.c_str(), len)); if (!f) return o; o.some = true; put(o, f, 4 * (size_t)len); hv_free(f); return o; }});
  };
  if (tier == 0) {
    for (int form = 0; form < 4; form++) { H(2, 3, 2, 1, 0, form); H(3, 2, 4, 12, 2, form); H(1, 1, 1, 4, 1, form); H(4, 3, 7, 5, 1, form); }
    M(3, 4, 1, 1); M(2, 3, 4, 3); M(1, 5, 14, 1); M(7, 1, 2, 3);
    P(3, 2, 24, 0); P(5, 7, 24, 0); P(2, 4, 24, 6); P(3, 5, 8, 0); P(4, 4, 8, 8);
    T(1, 1, " ", "\n"); T(5, 5, "\n", "\n"); T(7, 7, "\n", ""); T(9, 4, " ", "\n"); T(3, 3, "\r\n", " ");
  } else {
    H(16, 16, 16, 1, 0, 0); H(17, 15, 17, 2, 1, 1); H(1, 1, 700, 1, 2, 2); H(9, 9, 60, 12, 2, 3); H(33, 31, 9, 4, 0, 2); H(64, 64, 2, 1, 1, 1);
    M(65, 64, 1, 1); M(91, 45, 1, 3); M(64, 64, 5, 1);
    P(37, 37, 24, 0); P(1, 1366, 24, 0); P(70, 61, 8, 0); P(128, 33, 24, 2);
    T(1000, 1000, "\n", "\n"); T(2000, 400, " ", ""); T(410, 410, "\n", "\n");
  }
  return v;
}
static void begin() { I = hv->tmp + "/in.img"; Hd = hv->tmp + "/in.hdr"; hv_env.limit = 256 << 20; }
static Out attempt(const Load &l, bool &ended, bool &said, const char *key) {
  int fds = hv_open_fds(); long live = hv_env.live, out = hv_stdout_bytes();
  Out o;
  ended = hv_call([&] { o = l.go(); });
  said = hv_stdout_bytes() > out;
  if (ended) { CHECK(hv_status != 0, key, "the program ended with status 0"); o.some = false; }
  else {
    CHECK(hv_open_fds() == fds, "fd", "%d files are left open", hv_open_fds() - fds);
    CHECK(hv_env.live == live, "leak", "%ld blocks are left", hv_env.live - live);
  }
  return o;
}
static Out undisturbed(const Load &l) {
  bool e, s;
  hv_rfault.on = false;
  Out o = attempt(l, e, s, "plain");
  CHECK(o.some, "plain", "a load that nothing hinders gave nothing");
  return o;
}
static void judge(const Load &l, const Out &want, const char *what, long at, bool must) {
  bool ended, said;
  Out o = attempt(l, ended, said, "status");
  if (o.some) CHECK(o.v == want.v, "different", "%s %ld: another object was loaded", what, at);
  else { CHECK(said, "silent", "%s %ld: nothing was loaded and nothing said", what, at); CHECK(!must, "refused", "%s %ld: nothing was loaded", what, at); }
  hv->state(hv_mix(o.some, ended * 2 + (u64)at * 4));
}
static void pieces(const Load &l) {
  begin(); l.make();
  Out want = undisturbed(l);
  for (long c : {1L, 2L, 3L, 4L, 5L, 7L, 8L, 13L, 16L, 31L, 64L, 100L, 255L, 512L, 1000L, 4095L, 4096L, 4097L}) {
    hv_rfault = HvReadFault(); hv_rfault.on = true; hv_rfault.chunk = c;
    judge(l, want, "pieces of", c, true);
    CHECK(hv_rfault.reads > 0, "seam", "no read was seen");
  }
  hv_rfault.on = false;
}
static void failing(const Load &l, int header, bool once, long lo, long hi, long step, long chunk, int fill) {
  begin(); l.make();
  hv_env.fill = fill;
  Out want = undisturbed(l);
  Bytes f;
  hv_read_file(header ? Hd : I, f);
  for (long p = lo; p < hi && p <= (long)f.size(); p += step) {
    hv_rfault = HvReadFault(); hv_rfault.on = true; hv_rfault.once = once; hv_rfault.chunk = chunk; hv_rfault.which = header ? ".hdr" : ".img"; hv_rfault.fault_at = p;
    judge(l, want, header ? "header unreadable from byte" : "file unreadable from byte", p, false);
    CHECK(hv_rfault.faults || p >= 1, "seam", "the fault was not met");
  }
  hv_rfault.on = false;
}
static void explore(HV &h) {
  auto small = loads(0), large = loads(1);
  for (auto &l : small) {
    h.run([&] { pieces(l); }, "%s in pieces", l.name.c_str());
    for (int hd = 0; hd <= l.hdr; hd++) for (int once = 0; once < 2; once++) for (long ch : {0L, 1L, 7L}) for (int fill : {0xA5, 57}) {
      if (fill == 57 && ch) continue;
      for (long lo = 0; lo < 2048; lo += 64) { if (lo >= 512 && (hd || l.name.find("8 bits") == std::string::npos)) break; h.run([&] { failing(l, hd, once, lo, lo + 64, 1, ch, fill); }, "%s, %s unreadable %s from %ld pieces %ld fill %d", l.name.c_str(), hd ? "header" : "file", once ? "once" : "on", lo, ch, fill); }
    }
  }
  for (auto &l : large) {
    h.run([&] { pieces(l); }, "%s in pieces", l.name.c_str());
    for (int hd = 0; hd <= l.hdr; hd++) for (int once = 0; once < 2; once++) for (long lo = 0; lo < 34000; lo += 1000) {
      int step = h.thorough ? 1 : 7;
      h.run([&] { failing(l, hd, once, lo + lo / 1000 % step, lo + 1000, step, 0, 0xA5); }, "%s, %s unreadable %s from %ld", l.name.c_str(), hd ? "header" : "file", once ? "once" : "on", lo);
      h.run([&] { failing(l, hd, once, std::max(0L, (lo + 4095) / 4096 * 4096 - 2), (lo + 4095) / 4096 * 4096 + 3, 1, 0, 0xA5); }, "%s, %s unreadable %s about block %ld", l.name.c_str(), hd ? "header" : "file", once ? "once" : "on", (lo + 4095) / 4096);
    }
  }
}
int main(int c, char **v) { return hv_main(c, v, "C37", explore); }
