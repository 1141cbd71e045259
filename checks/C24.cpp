// C24: the growable array against the mathematical sequence, over every history of operations up to a depth.
#include "lib.h"
#define malloc hv_malloc
#define calloc hv_calloc
#define realloc hv_realloc
#define free hv_free
struct Big { int a; double b; u8 c[29]; bool operator==(const Big &o) const { return a == o.a && b == o.b && memcmp(c, o.c, 29) == 0; } };
template <class T> static T val(int i);
template <> u8 val<u8>(int i) { return (u8)(i * 37 + 11); }
template <> int val<int>(int i) { return i * 1000003 - 77; }
template <> double val<double>(int i) { return i * 0.37 - 5; }
template <> short val<short>(int i) { return (short)(i * 1237 - 9); }
template <> void *val<void *>(int i) { return (void *)(size_t)(i * 8 + 16); }
static bool operator==(const POINT &a, const POINT &b) { return a.x == b.x && a.y == b.y; }
template <> POINT val<POINT>(int i) { POINT p; p.x = i * 7 + 1; p.y = -i; return p; }
template <> Big val<Big>(int i) { Big b; memset(&b, 0, sizeof b); b.a = i; b.b = i * 0.5; for (int k = 0; k < 29; k++) b.c[k] = (u8)(i + k); return b; }

enum { PUSH, POP, ER0, ERMID, ERLAST, EREND, ERFAR, INIT0, INIT1, INIT3, FREE, NOPS };
static const char *const ON = "+-0mlefIJKx";
template <class T> struct Sys {
  T *v = NULL;
  std::vector<T> r;
  int serial = 0;
  char hist[32];
  int n = 0;
  void check() {
    hist[n] = 0;
    CHECK(vector_size(v) == r.size(), "size", "after %s the array reports %zu elements, expected %zu", hist, (size_t)vector_size(v), r.size());
    CHECK(vector_capacity(v) >= r.size(), "capacity", "after %s the array reports capacity %zu below its size %zu", hist, (size_t)vector_capacity(v), r.size());
    CHECK((vector_empty(v) != 0) == r.empty(), "empty", "after %s vector_empty is %d for %zu elements", hist, (int)vector_empty(v), r.size());
    size_t i = 0;
    for (T *p = vector_begin(v); p != vector_end(v); ++p, ++i) {
      CHECK(i < r.size(), "iterate", "after %s iterating visits more than %zu elements", hist, r.size());
      CHECK(*p == r[i], "elements", "after %s element %zu of %zu differs from the sequence", hist, i, r.size());
    }
    CHECK(i == r.size(), "iterate", "after %s iterating visits %zu of %zu elements", hist, i, r.size());
    for (i = 0; i < r.size(); i++) CHECK(v[i] == r[i], "elements", "after %s element %zu of %zu differs from the sequence", hist, i, r.size());
  }
  void erase(size_t i) { vector_erase(v, i); if (i < r.size()) r.erase(r.begin() + i); }
  void apply(int op) {
    if (n < 30) hist[n++] = ON[op];
    hv->step();
    switch (op) {
      case PUSH: { T x = val<T>(++serial); vector_push_back(v, x); r.push_back(x); break; }
      case POP: vector_pop_back(v); if (!r.empty()) r.pop_back(); break;
      case ER0: erase(0); break;
      case ERMID: erase(r.size() / 2); break;
      case ERLAST: if (r.empty()) erase((size_t)-1); else erase(r.size() - 1); break;
      case EREND: erase(r.size()); break;
      case ERFAR: erase(r.size() + 1000); break;
      case INIT0: { T x = val<T>(++serial); vector_init(v, x, 0); r.clear(); break; }
      case INIT1: { T x = val<T>(++serial); vector_init(v, x, 1); r.assign(1, x); break; }
      case INIT3: { T x = val<T>(++serial); int k = 3; vector_init(v, x, k); r.assign(3, x); break; }
      case FREE: vector_free(v); r.clear(); CHECK(v == NULL, "free", "vector_free leaves the pointer set"); break;
    }
  }
  void end() {
    vector_free(v);
    CHECK(hv_env.live == 0, "leak", "after %.30s and freeing, %ld blocks are still allocated", hist, hv_env.live);
  }
};
// every sequence of `depth` operations that starts with op a, b
template <class T> static void histories(int a, int b, int depth) {
  std::vector<int> seq(depth, 0);
  seq[0] = a; seq[1] = b;
  for (;;) {
    Sys<T> s;
    for (int i = 0; i < depth; i++) { s.apply(seq[i]); if (i >= depth - 2 || i < 2) s.check(); }
    s.check();
    hv->state(hv_mix(hv_hash(s.r.data(), s.r.size() * sizeof(T)), vector_capacity(s.v)));
    s.end();
    int i = depth - 1;
    while (i >= 2 && ++seq[i] == NOPS) seq[i--] = 0;
    if (i < 2) break;
  }
}
// state-deduplicated search: the state is (size, capacity, v set); deeper histories from every reached state
template <class T> static void closure(int maxsize) {
  std::set<std::pair<size_t, size_t>> seen;
  std::deque<std::vector<int>> q{{}};
  seen.insert({0, 0});
  while (!q.empty()) {
    std::vector<int> hist = q.front(); q.pop_front();
    for (int op = 0; op < NOPS; op++) {
      Sys<T> s;
      for (int o : hist) s.apply(o);
      s.apply(op);
      s.check();
      std::pair<size_t, size_t> key{vector_size(s.v), vector_capacity(s.v)};
      hv->state(hv_mix(key.first, key.second));
      s.end();
      if ((int)key.first <= maxsize && key.second <= 4u * maxsize && seen.insert(key).second) { hist.push_back(op); q.push_back(hist); hist.pop_back(); }
    }
  }
}
template <class T> static void all(HV &h, const char *name, int depth) {
  for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++)
    h.run([&] { histories<T>(a, b, depth); }, "%s: all histories of %d operations starting with %c%c", name, depth, ON[a], ON[b]);
  h.run([&] { closure<T>(h.thorough ? 40 : 12); }, "%s: every (size, capacity) reachable, every operation in it", name);
  // every position of every length
  for (int n = 0; n <= (h.thorough ? 130 : 40); n++) h.run([&] {
    for (int i = 0; i <= n + 1; i++) for (int k = 0; k <= 2; k++) {
      Sys<T> s;
      for (int x = 0; x < n; x++) s.apply(PUSH);
      for (int e = 0; e <= k; e++) { s.n = 0; s.hist[0] = 0; s.erase(i); }
      s.check();
      s.apply(PUSH); s.check();
      s.end();
    }
  }, "%s: erase at every position of %d elements, repeatedly", name, n);
  for (int n : {100, 1000, 1023, 1024, 1025, 65535, 65536, 65537, h.thorough ? 5000000 : 300000}) h.run([&] {
    Sys<T> s;
    for (int i = 0; i < n; i++) { T x = val<T>(i); vector_push_back(s.v, x); s.r.push_back(x); }
    s.n = 0; s.check();
    for (int i = 0; i < n - n / 3; i++) { vector_pop_back(s.v); s.r.pop_back(); }
    s.check();
    for (int i = 0; i < 50; i++) { s.erase(i * 2); }
    s.check();
    for (int i = 0; i < 50; i++) s.apply(PUSH);
    s.check();
    s.end();
  }, "%s: %d elements appended, a third kept, some removed", name, n);
  for (int n : {2, 4, 5, 7, 8, 9, 16, 17, 100, 1000, 70000}) for (int before = 0; before < 4; before++) h.run([&] {
    Sys<T> s;
    for (int i = 0; i < before * 5; i++) s.apply(PUSH);
    if (before == 3) while (!s.r.empty()) s.apply(POP);
    T x = val<T>(4711);
    vector_init(s.v, x, n);
    s.r.assign(n, x);
    s.n = 0; s.check();
    s.apply(PUSH); s.check();
    s.end();
  }, "%s: initialised to %d equal elements (history %d)", name, n, before);
}
static void explore(HV &h) {
  int d = h.thorough ? 8 : 6;
  all<int>(h, "int", d);
  all<POINT>(h, "POINT", d);
  all<u8>(h, "unsigned char", d - 1);
  all<short>(h, "short", d - 1);
  all<double>(h, "double", d - 1);
  all<void *>(h, "pointer", d - 1);
  all<Big>(h, "48 byte struct", d - 1);
  // arguments that are expressions, and elements of the array itself across growth
  h.run([&] {
    for (int n = 1; n <= 200; n++) {
      int *v = NULL;
      for (int i = 0; i < n; i++) vector_push_back(v, i == 0 ? 5 : v[i - 1] + 3);
      for (int i = 0; i < n; i++) CHECK(v[i] == 5 + 3 * i, "elements", "element %d of %d is %d, expected %d", i, n, v[i], 5 + 3 * i);
      int last = n - 1;
      vector_erase(v, last - (n > 1 ? 1 : 0));
      CHECK((int)vector_size(v) == n - 1, "size", "size %zu after erasing one of %d", (size_t)vector_size(v), n);
      vector_free(v);
    }
    // two arrays at once
    int *a = NULL; double *b = NULL;
    for (int i = 0; i < 1000; i++) { vector_push_back(a, i); if (i % 3 == 0) vector_push_back(b, i * 0.5); if (i % 7 == 6) vector_pop_back(a); if (i % 11 == 10) vector_erase(b, 0); }
    CHECK(vector_size(a) == 1000 - 142 && vector_size(b) == 334 - 90, "size", "two arrays hold %zu and %zu elements, expected %d and %d", (size_t)vector_size(a), (size_t)vector_size(b), 1000 - 142, 334 - 90);
    vector_free(a); vector_free(b);
    CHECK(hv_env.live == 0, "leak", "%ld blocks are still allocated", hv_env.live);
  }, "expressions as arguments, two arrays at once");
}
int main(int c, char **v) { return hv_main(c, v, "C24", explore); }
