// C22: clustering is Lloyd's algorithm from every start; all images and all starts of small sizes are explored.
#include "imgref.h"
#include <set>
typedef std::vector<std::pair<int, int>> Pts;  // x = column, y = line

static Pts pixels(const Img &g) {
  Pts p;
  for (int i = 0; i < g.R; i++) for (int j = 0; j < g.C; j++) { int v = g.get(i, j, 0); if (g.ch == 3) v = (2 * (g.get(i, j, 0) + g.get(i, j, 1) + g.get(i, j, 2)) + 3) / 6; if (v) p.push_back({j, i}); }
  return p;
}
// one round; true when a centre moved more than thr
static bool step(const Pts &px, Pts &c, int thr) {
  std::vector<long> x(c.size(), 0), y(c.size(), 0), n(c.size(), 0);
  for (auto &p : px) {
    size_t b = 0; long bd = -1;
    for (size_t k = 0; k < c.size(); k++) { long dx = c[k].first - p.first, dy = c[k].second - p.second, d = dx * dx + dy * dy; if (bd < 0 || d < bd) { bd = d; b = k; } }
    x[b] += p.first; y[b] += p.second; n[b]++;
  }
  bool moved = false;
  for (size_t k = 0; k < c.size(); k++) if (n[k]) { int a = x[k] / n[k], b = y[k] / n[k]; if (abs(a - c[k].first) > thr || abs(b - c[k].second) > thr) moved = true; c[k] = {a, b}; }
  return moved;
}
static Pts lloyd(const Pts &px, Pts c, int thr) { std::set<Pts> seen; while (step(px, c, thr)) if (!seen.insert(c).second) hv->fail("model", "the reference does not end"); return c; }
static POINT *points(int kind) { POINT *v = NULL; for (int i = 0; i < kind; i++) { POINT p = {-7, -7}; vector_push_back(v, p); } return v; }
static Pts cluster(simple_mat s, int kind, int thr, const std::vector<int> &draws) {
  POINT *v = points(kind);
  hv_env.rnd = draws; hv_env.rnd_pos = 0;
  L(hypercv_k_means(s, v, kind, thr));
  CHECK((int)vector_size(v) == kind, "size", "the point set has %d points for %d clusters", (int)vector_size(v), kind);
  Pts c;
  for (int i = 0; i < kind; i++) c.push_back({v[i].x, v[i].y});
  vector_free(v);
  u64 z = kind;
  for (auto &p : c) z = hv_mix(z, p.first * 65536 + p.second);
  hv->state(z);
  return c;
}
static std::string str(const Pts &c) { std::string s; for (auto &p : c) s += "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"; return s; }
// all starting positions of kind centres: every result is one Lloyd's algorithm reaches, and every one is reached
static void starts(const Img &g, simple_mat s, int kind, int thr) {
  Pts px = pixels(g);
  int n = g.R * g.C;
  long tot = 1;
  for (int i = 0; i < kind; i++) tot *= n;
  std::set<Pts> want, got;
  for (long a = 0; a < tot; a++) { long q = a; Pts c; for (int k = 0; k < kind; k++) { c.push_back({q % n % g.C, q % n / g.C}); q /= n; } want.insert(lloyd(px, c, thr)); }
  for (long a = 0; a < tot; a++) {
    long q = a;
    std::vector<int> d;
    for (int k = 0; k < kind; k++) { d.push_back(q % n % g.C + g.C * g.R * (k + 1)); d.push_back(q % n / g.C + g.C * g.R * 3); q /= n; }
    Pts r = cluster(s, kind, thr, d);
    if (!want.count(r)) hv->fail("result", "%d x %d, %d clusters, threshold %d, draws %ld: the centres %s are no result of the algorithm from any start", g.R, g.C, kind, thr, a, str(r).c_str());
    got.insert(r);
  }
  for (auto &c : want) if (!got.count(c)) hv->fail("reach", "%d x %d, %d clusters, threshold %d: no draw leads to %s", g.R, g.C, kind, thr, str(c).c_str());
}
static void every(int R, int C, int kind, int thr, long lo, long hi, long stride) {
  Img g{R, C, 1, std::vector<u8>(R * C)};
  simple_mat s = create_simple_mat(R, C, 1, 1);
  for (long a = lo; a < hi; a += stride) { for (int i = 0; i < R * C; i++) g.d[i] = a >> i & 1 ? (i % 3 == 0 ? 255 : i % 3 == 1 ? 1 : 128) : 0; memcpy(s->data, g.d.data(), g.d.size()); starts(g, s, kind, thr); same_img(s, g, "src", "source"); }
  delete_simple_mat(s);
}
static void colours(int kind, long lo, long hi) {
  static const u8 P[][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 1}, {0, 0, 255}, {200, 0, 0}};
  for (auto sh : {std::pair<int,int>{1, 4}, {2, 2}, {4, 1}}) {
    Img g{sh.first, sh.second, 3, std::vector<u8>(12)};
    simple_mat s = create_simple_mat(sh.first, sh.second, 1, 3);
    for (long a = lo; a < hi; a++) { long q = a; for (int i = 0; i < 4; i++) { memcpy(&g.d[3 * i], P[q % 5], 3); q /= 5; } memcpy(s->data, g.d.data(), 12); starts(g, s, kind, 0); same_img(s, g, "src", "source"); }
    delete_simple_mat(s);
  }
}
// a large image: the result from known draws, in either order of the coordinates
static void large(const Img &g, int kind, int thr, int salt) {
  simple_mat s = matof(g);
  std::vector<int> d;
  for (int k = 0; k < 2 * kind; k++) d.push_back(pat(k, salt) * 65537 + k * 7919 + salt);
  Pts px = pixels(g), a, b;
  for (int k = 0; k < kind; k++) { a.push_back({d[2 * k] % g.C, d[2 * k + 1] % g.R}); b.push_back({d[2 * k + 1] % g.C, d[2 * k] % g.R}); }
  Pts r = cluster(s, kind, thr, d), wa = lloyd(px, a, thr), wb = lloyd(px, b, thr);
  if (r != wa && r != wb) hv->fail("large", "%d x %d, %d clusters, threshold %d: centres %s, expected %s", g.R, g.C, kind, thr, str(r).c_str(), str(wa).c_str());
  // with threshold 0 the result is a fixed point whatever the start was
  if (thr == 0) { Pts f = r; CHECK(!step(px, f, 0), "fixed point", "%d x %d, %d clusters: the centres %s move to %s", g.R, g.C, kind, str(r).c_str(), str(f).c_str()); }
  same_img(s, g, "src", "source");
  delete_simple_mat(s);
}
static Img blobs(int R, int C, int ch, int k) {
  Img g{R, C, ch, std::vector<u8>((size_t)R * C * ch, 0)};
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { bool on = k == 0 ? true : k == 1 ? (i / 3 + j / 5) % 3 == 0 : k == 2 ? pat(i * C + j, R) % 7 == 0 : k == 3 ? i < R / 4 + 1 || j > C * 3 / 4 : k == 4 ? i == 0 : false; for (int c = 0; c < ch; c++) g.d[((size_t)i * C + j) * ch + c] = on ? 60 + 50 * c : 0; }
  return g;
}
static void explore(HV &h) {
  auto all = [&](int R, int C, int kind, long stride) { int n = R * C; long T = 1L << n, parts = n >= 8 ? 16 : 1; for (int thr : {0, 1, 2}) for (long p = 0; p < parts; p++) h.run([&] { every(R, C, kind, thr, T * p / parts, T * (p + 1) / parts, stride); }, "every %d x %d image, %d clusters, threshold %d, part %ld", R, C, kind, thr, p); };
  for (int R = 1; R <= 3; R++) for (int C = 1; C <= 3; C++) { all(R, C, 1, 1); all(R, C, 2, 1); if (R * C <= 6) all(R, C, 3, 1); if (R * C <= 4) all(R, C, 4, 1); }
  for (auto s : {std::pair<int,int>{1, 4}, {1, 5}, {1, 6}, {1, 8}, {4, 1}, {5, 1}, {8, 1}, {2, 4}, {4, 2}}) { all(s.first, s.second, 1, 1); all(s.first, s.second, 2, 1); }
  all(3, 3, 3, h.thorough ? 1 : 5); all(1, 6, 3, 1); all(1, 7, 3, h.thorough ? 1 : 3);
  all(3, 4, 2, h.thorough ? 1 : 7); all(4, 3, 2, h.thorough ? 1 : 11); all(1, 10, 2, h.thorough ? 1 : 3); all(2, 3, 4, h.thorough ? 1 : 7);
  for (int kind = 1; kind <= 3; kind++) for (int p = 0; p < 5; p++) h.run([&] { colours(kind, 125 * p, 125 * (p + 1)); }, "every colour image of four pixels, %d clusters, part %d", kind, p);
  for (int R : {1, 2, 5, 9, 16, 33, 64, 100}) for (int C : {1, 3, 7, 16, 31, 65, 129}) for (int k = 0; k < 6; k++) h.run([&] { for (int kind : {1, 2, 3, 5, 8, 9, 17}) for (int thr : {0, 1, 3, 10}) for (int ch : {1, 3}) large(blobs(R, C, ch, k), kind, thr, k * 10 + kind); }, "%d x %d image %d", R, C, k);
  for (int k = 0; k < 4; k++) h.run([&] { large(blobs(255, 257, 1, k), 4, 0, k); large(blobs(1, 5000, 1, k), 3, 0, k); large(blobs(4097, 2, 1, k), 3, 0, k); }, "edges image %d", k);
  for (int kind : {4, 6, 7, 10, 12, 16, 20, 32, 33, 50, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400}) h.run([&] { for (int k = 0; k < 4; k++) for (int thr : {0, 1}) for (int ch : {1, 3}) { large(blobs(20, 31, ch, k), kind, thr, k * 10 + kind); large(blobs(3, 7, ch, k), kind, thr, k + kind); large(blobs(64, 50, ch, k), kind, thr, k); } }, "%d clusters", kind);
  // positions sum beyond 32 bits
  h.run([&] { large(blobs(2100, 2100, 1, 0), 1, 0, 1); large(blobs(20, 33000, 1, 0), 1, 0, 1); large(blobs(33000, 8, 1, 0), 1, 0, 2); }, "large images");
  h.run([&] { large(blobs(1800, 3000, 1, 0), 2, 5, 3); }, "large image, two clusters");
}
int main(int c, char **v) { return hv_main(c, v, "C22", explore); }
