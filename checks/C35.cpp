// C35: every way a write can fail while a cube, header or bitmap is saved. Each save runs in a process of its own
// with one fault: a limit on file sizes after every number of bytes, one failing write, a failing close, a full
// device, a path that cannot be written. Silence is only allowed when the files are complete.
#define HV_CXX
#include "lib.h"
#include "cpl_error.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
struct Got { int how = 0; std::string text; std::map<std::string, Bytes> f; long writes = 0, closes = 0; };
struct Fault { long limit = -1, write = -1, close = -1; bool cookie = false; };
static std::vector<std::string> g_files;
static std::string g_name;
typedef std::function<void(const char *)> Save;
static Got run(const Save &save, const std::string &path, const Fault &ft) {
  int p[2];
  if (pipe(p)) _exit(79);
  fflush(NULL);
  pid_t c = fork();
  if (c == 0) {
    close(p[0]); dup2(p[1], 1); dup2(p[1], 2); close(p[1]);
    alarm(35);
    signal(SIGXFSZ, SIG_IGN);
    CPLSetErrorHandler(CPLQuietErrorHandler);
    if (ft.limit >= 0) { struct rlimit r = {(rlim_t)ft.limit, (rlim_t)ft.limit}; setrlimit(RLIMIT_FSIZE, &r); }
    hv_fault = HvFault(); hv_fault.on = ft.cookie; hv_fault.fault_write = ft.write; hv_fault.fault_close = ft.close;
    int r = hv_call([&] { save(path.c_str()); });
    fflush(stdout); fflush(stderr);
    long n[2] = {hv_fault.writes, hv_fault.closes};
    ssize_t w = write(1, n, sizeof n); (void)w;
    _exit(r ? (hv_status ? 51 : 50) : 52);
  }
  close(p[1]);
  Got g; char b[4096]; ssize_t n;
  while ((n = read(p[0], b, sizeof b)) > 0) g.text.append(b, n);
  close(p[0]);
  int st = 0;
  waitpid(c, &st, 0);
  g.how = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  if (g.how >= 50 && g.how <= 52 && g.text.size() >= 16) { long v[2]; memcpy(v, g.text.data() + g.text.size() - 16, 16); g.writes = v[0]; g.closes = v[1]; g.text.resize(g.text.size() - 16); }
  else hv->fail("crash", "the save died: %d %s", g.how, g.text.substr(0, 300).c_str());
  for (auto &f : g_files) { Bytes d; struct stat s; if (stat(f.c_str(), &s) == 0 && S_ISREG(s.st_mode)) { hv_read_file(f, d); d.push_back(1); } g.f[f] = d; }
  return g;
}
static Got full;           // what the save does when nothing fails
static void clean() { for (auto &f : g_files) { struct stat s; if (lstat(f.c_str(), &s) == 0) { if (S_ISDIR(s.st_mode)) rmdir(f.c_str()); else unlink(f.c_str()); } unlink((f + ".aux.xml").c_str()); } }
static void learn(const Save &s, const std::string &path) {
  clean();
  static std::map<std::string, Got> known;
  if (known.count(g_name)) { full = known[g_name]; return; }
  full = run(s, path, Fault());
  CHECK(full.how == 52, "valid-exit", "a save that nothing hinders ended the program");
  for (auto &f : full.f) CHECK(!f.second.empty(), "valid-file", "a save that nothing hinders wrote no file %s", f.first.c_str());
  known[g_name] = full;
}
static void judge(const Got &g, const char *what) {
  bool whole = true;
  for (auto &f : g.f) whole = whole && f.second == full.f[f.first];
  bool said = g.how == 51 || g.text != full.text;
  hv->step();
  CHECK(g.how != 50, "status", "%s: the program ended with status 0", what);
  CHECK(whole || said, "silent", "%s: the save returned and said nothing, but the files are not complete", what);
  CHECK(!(whole && g.how == 51), "refused", "%s: the files are complete, but the program was ended", what);
  hv->state(hv_mix(g.how, whole));
}
static void older(int old) {
  if (!old) return;
  for (auto &f : g_files) { Bytes b(old == 1 ? 3 : 30000, 'x'); hv_write_file(f, b.data(), b.size()); }
}
static void limit(const Save &s, const std::string &p, long n, int old) {
  learn(s, p);
  clean(); older(old);
  Fault f; f.limit = n;
  judge(run(s, p, f), "file size limited");
  clean();
}
static void single(const Save &s, const std::string &p, int old) {
  learn(s, p);
  Fault f; f.cookie = true;
  clean(); older(old);
  Got g = run(s, p, f);
  judge(g, "nothing fails");
  for (long k = 0; k < g.writes; k++) { clean(); older(old); f.write = k; judge(run(s, p, f), "one write failed"); }
  f.write = -1;
  for (long k = 0; k < g.closes; k++) { clean(); older(old); f.close = k; judge(run(s, p, f), "one close failed"); }
  clean();
}
static void place(const Save &s, const std::string &p, int mask, int kind) {
  learn(s, p);
  clean();
  for (size_t i = 0; i < g_files.size(); i++) if (mask >> i & 1) {
    if (kind == 0) { if (symlink("/dev/full", g_files[i].c_str())) hv->fail("setup", "symlink"); }
    else mkdir(g_files[i].c_str(), 0755);
  }
  judge(run(s, p, Fault()), kind ? "path is a directory" : "device is full");
  clean();
}
static std::vector<std::pair<std::string, std::function<Save()>>> saves(bool big) {
  std::vector<std::pair<std::string, std::function<Save()>>> v;
  auto H = [&](int S, int Ln, int B, int t, int il) {
    std::string n = std::to_string(S) + " x " + std::to_string(Ln) + " x " + std::to_string(B) + " type " + std::to_string(t) + " " + ILV[il];
    v.push_back({"cube " + n, [=]() -> Save { return [=](const char *p) { hyper_mat m = mkcube(S, Ln, B, t, ILV[il], 3); L(hmsave(p, m)); }; }});
    v.push_back({"C++ cube " + n, [=]() -> Save { return [=](const char *p) { static const int FM[3] = {HYPERCV_BSQ, HYPERCV_BIL, HYPERCV_BIP}; hypercv::HyMat m(S, Ln, B, t, FM[il]); fillpat(m.data, m.dataSize, 3); for (int k = 0; k < B; k++) m.wavelength[k] = 400.5f + k; L(m.save(p)); }; }});
    v.push_back({"header " + n, [=]() -> Save { return [=](const char *p) { float w[4096]; for (int k = 0; k < B && k < 4096; k++) w[k] = 400 + k * 1.25f; L(writehdr(p, S, Ln, B, t, ILV[il], B > 4096 ? NULL : w)); }; }});
    v.push_back({"header without wavelengths " + n, [=]() -> Save { return [=](const char *p) { L(writehdr(p, S, Ln, B, t, ILV[il], NULL)); }; }});
  };
  auto I = [&](int R, int C, int ch) { v.push_back({"bitmap " + std::to_string(R) + " x " + std::to_string(C) + " channels " + std::to_string(ch), [=]() -> Save { return [=](const char *p) { simple_mat m = mkimg(R, C, 1, ch, 5); L(smwrite_bmp(p, m)); }; }}); };
  if (!big) {
    H(1, 1, 1, 1, 0); H(2, 3, 2, 4, 1); H(3, 2, 4, 12, 2); H(1, 7, 3, 5, 0); H(4, 4, 4, 14, 1);
    I(1, 1, 1); I(2, 3, 3); I(3, 2, 1); I(5, 7, 3); I(1, 9, 1);
  } else {
    H(16, 16, 16, 1, 0); H(17, 15, 17, 2, 1); H(16, 8, 8, 4, 2); H(1, 1, 500, 1, 0); H(1, 1, 2500, 1, 2); H(9, 9, 200, 3, 2); H(32, 32, 40, 4, 0); H(33, 31, 43, 5, 1);
    I(32, 42, 3); I(37, 37, 1); I(128, 128, 3); I(1, 1364, 3); I(1366, 1, 3); I(200, 211, 1);
  }
  return v;
}
static void files_of(const std::string &name, const std::string &p) {
  g_name = name;
  size_t s = p.rfind('/'), d = p.rfind('.');
  std::string cxx = (d != std::string::npos && d > s ? p.substr(0, d) : p) + ".hdr";
  if (name[0] == 'b') g_files = {p};
  else if (name.compare(0, 4, "cube") == 0) g_files = {p, p + ".hdr"};
  else if (name.compare(0, 8, "C++ cube") == 0) g_files = {p, cxx};
  else g_files = {p + ".hdr"};
}
static void explore(HV &h) {
  GDALAllRegister();
  for (int big = 0; big < 2; big++)
    for (auto &s : saves(big)) {
      auto go = [&](const std::function<void(const Save &, const std::string &)> &f) { std::string p = hv->tmp + "/out.img"; files_of(s.first, p); f(s.second(), p); };
      std::vector<long> lim;
      long top = big ? 200000 : 1200;
      if (!big) for (long n = 0; n <= top; n++) { if (n < 400 || n % 50 == 0) lim.push_back(n); }
      else for (long n = 0; n <= top; n += h.thorough ? 97 : 997) lim.push_back(n);
      if (big) for (long k = 512; k <= 180000; k += k < 40000 ? 512 : 4096) for (long d : {-1, 0, 1}) if (h.thorough || k % 4096 == 0) lim.push_back(k + d);
      for (long n : lim) for (int old = 0; old < (n % 16 == 0 && !big ? 3 : 1); old++)
        h.run([&] { go([&](const Save &f, const std::string &p) { limit(f, p, n, old); }); }, "%s with files limited to %ld bytes, older files %d", s.first.c_str(), n, old);
      for (int old = 0; old < 3; old++) h.run([&] { go([&](const Save &f, const std::string &p) { single(f, p, old); }); }, "%s with each write and close failing once, older files %d", s.first.c_str(), old);
      // C++: the image library reads what is there before, and a device never ends
      for (int mask = 1; mask < 4; mask++) for (int kind = 0; kind < 2; kind++) h.run([&] { go([&](const Save &f, const std::string &p) { if (g_files.size() == 1 && mask != 1) return; if (kind == 0 && s.first[0] == 'C') return; place(f, p, mask, kind); }); }, "%s with paths %d %s", s.first.c_str(), mask, kind ? "directories" : "on a full device");
      h.run([&] { go([&](const Save &f, const std::string &p) { learn(f, p); clean(); std::string q = hv->tmp + "/none/out.img"; judge(run(f, q, Fault()), "no such directory"); clean(); }); }, "%s into a directory that does not exist", s.first.c_str());
    }
  // the exact ends: each file complete to the last byte, or one byte short
  for (auto &s : saves(true)) for (int d = -3; d <= 1; d++) for (int which = 0; which < 2; which++)
    h.run([&] {
      std::string p = hv->tmp + "/out.img"; files_of(s.first, p);
      Save f = s.second(); learn(f, p);
      if (which >= (int)g_files.size()) return;
      long n = (long)full.f[g_files[which]].size() - 1 + d;
      clean(); Fault ft; ft.limit = n < 0 ? 0 : n; judge(run(f, p, ft), "limited near the end of a file"); clean();
    }, "%s with files limited to the size of file %d and %d", s.first.c_str(), which, d);
}
int main(int c, char **v) { return hv_main(c, v, "C35", explore); }
