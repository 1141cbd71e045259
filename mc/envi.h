// envi.h - an independent reader of ENVI headers, the reference for what a header says.
#ifndef HV_ENVI_H
#define HV_ENVI_H
#include "lib.h"
struct Envi { bool magic = false, ok = true; std::map<std::string, std::string> f; };
static inline std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static inline Envi envi_parse(const std::string &text) {
  Envi e;
  size_t p = text.find('\n');
  e.magic = trim(text.substr(0, p)) == "ENVI";
  while (p != std::string::npos && p + 1 < text.size()) {
    size_t s = p + 1, q = text.find('\n', s);
    std::string line = text.substr(s, q == std::string::npos ? q : q - s);
    size_t eq = line.find('=');
    if (eq == std::string::npos) { if (!trim(line).empty()) e.ok = false; p = q; continue; }
    std::string key = trim(line.substr(0, eq)), val = trim(line.substr(eq + 1));
    if (!val.empty() && val[0] == '{') {
      size_t b = text.find('{', s), c = text.find('}', b);
      if (c == std::string::npos) { e.ok = false; return e; }
      val = text.substr(b, c - b + 1);
      q = text.find('\n', c);
    }
    if (e.f.count(key)) e.ok = false;
    e.f[key] = val;
    p = q;
  }
  return e;
}
static inline std::vector<double> envi_list(const std::string &v) {
  std::vector<double> r;
  if (v.size() < 2 || v[0] != '{') return r;
  std::string s = v.substr(1, v.size() - 2);
  if (trim(s).empty()) return r;
  std::stringstream ss(s); std::string x;
  while (std::getline(ss, x, ',')) { char *end; std::string y = trim(x); double d = strtod(y.c_str(), &end); if (y.empty() || *end) { r.clear(); return r; } r.push_back(d); }
  return r;
}
static inline std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
// the header states exactly this cube; wavelengths to six decimals
static inline void expect_header(const std::string &path, int S, int Ln, int B, int t, const char *il, const float *w, const char *key) {
  Bytes b;
  CHECK(hv_read_file(path, b), key, "no header was written");
  Envi e = envi_parse(std::string(b.begin(), b.end()));
  CHECK(e.magic, key, "the header does not start with the line ENVI");
  CHECK(e.ok, key, "the header has a line that is no field, or a field twice");
  CHECK(e.f["samples"] == std::to_string(S), key, "header: samples = %s, expected %d", e.f["samples"].c_str(), S);
  CHECK(e.f["lines"] == std::to_string(Ln), key, "header: lines = %s, expected %d", e.f["lines"].c_str(), Ln);
  CHECK(e.f["bands"] == std::to_string(B), key, "header: bands = %s, expected %d", e.f["bands"].c_str(), B);
  CHECK(e.f["data type"] == std::to_string(t), key, "header: data type = %s, expected %d", e.f["data type"].c_str(), t);
  CHECK(lower(e.f["interleave"]) == il, key, "header: interleave = %s, expected %s", e.f["interleave"].c_str(), il);
  if (w) {
    std::vector<double> l = envi_list(e.f["wavelength"]);
    CHECK((int)l.size() == B, key, "header: %zu wavelengths for %d bands", l.size(), B);
    for (int k = 0; k < B; k++) CHECK(near_(l[k], w[k], 1e-7, 0.5000001e-6), key, "header: wavelength of band %d is %.9g, expected %.9g", k + 1, l[k], w[k]);
  }
}
#endif
