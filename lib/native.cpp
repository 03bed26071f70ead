// Replay runtime: runs a harness natively on one concrete assignment.
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <vector>
#include <string>
#include <sstream>
#include <algorithm>
#include <exception>
static std::map<std::string, std::string> in;
static std::map<std::string, int> cnt;
static std::string pertVar; static double pertH = 0; static int phase = 2;  // 0 collect 1 perturbed 2 final
static std::vector<std::string> dcalls; static std::vector<double> dvals, deriv; static size_t di = 0;
static int fails = 0; static bool usedDiff = false; static double tolD = 2e-4, tol = 1e-6; static bool exactMode = false;
struct Stop { int k; };
static std::string uniq(const std::string& n) { int k = cnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
static double rv(const std::string& n, double def = 0) { auto it = in.find(n); double v = it == in.end() ? def : strtod(it->second.c_str(), 0); if (n == pertVar) v += pertH; return v; }
static uint64_t iv(const std::string& n) { auto it = in.find(n); return it == in.end() ? 0 : strtoull(it->second.c_str(), 0, 0); }
static double ufEval(const std::string& base, const std::vector<int>& ds, const double* a, size_t na) {
  double r = 0;
  for (int k = 0; k < 3; k++) {
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; };
    for (char c : base) mix((unsigned char)c);
    mix(k + 17);
    auto u = [&](int j) { uint64_t g = h; g ^= (uint64_t)(j + 1) * 0x9E3779B97F4A7C15ull; g *= 0xBF58476D1CE4E5B9ull; g ^= g >> 31; g *= 0x94D049BB133111EBull; g ^= g >> 29; return (double)(g >> 11) / 9007199254740992.0; };
    double ph = 6.28 * u(100), c = 0.5 + u(101);
    for (size_t i = 0; i < na; i++) ph += (0.3 + 0.9 * u(i)) * a[i];
    for (int i : ds) { c *= (0.3 + 0.9 * u(i)); ph += M_PI / 2; }
    r += c * sin(ph);
  }
  return r;
}
extern "C" {
double vp_real(const char* n) { return rv(uniq(n)); }
double vp_real_in(const char* n, double lo, double hi) { double v = rv(uniq(n), lo); if (phase == 2 && !(v >= lo - 1e-9 * fabs(lo) && v <= hi + 1e-9 * fabs(hi))) throw Stop{1}; return v; }
double vp_var(const char* n) { if (!cnt[n]) cnt[n]++; return rv(n); }
void vp_unit_var(const char* n, double* o, uint64_t k) { if (!cnt[n]) cnt[n]++; std::string s = n; for (uint64_t i = 0; i < k; i++) o[i] = rv(s + "." + std::to_string(i), i + 1 == k); }
double vp_eps(const char* n) { return rv("eps:" + uniq(n)); }
void vp_unit(const char* n, double* o, uint64_t k) { std::string s = uniq(n); for (uint64_t i = 0; i < k; i++) o[i] = rv(s + "." + std::to_string(i), i + 1 == k); }
uint64_t vp_u64(const char* n) { return iv(uniq(n)); }
uint32_t vp_u32(const char* n) { return iv(uniq(n)); }
uint16_t vp_u16(const char* n) { return iv(uniq(n)); }
uint8_t vp_u8(const char* n) { return iv(uniq(n)); }
int vp_bool(const char* n) { return iv(uniq(n)) & 1; }
int vp_choice(const char* n, uint64_t k) { uint64_t v = iv(uniq(n)); return v < k ? v : k - 1; }
void vp_assume(int c) { if (!c && phase == 2) throw Stop{1}; }
void vp_check(int c, const char* l) { if (phase != 2) return; printf("B %d\n", !!c); if (!c) { printf("FAIL %s\n", l); fails++; } }
void vp_check_eq(double a, double b, const char* l) {
  if (phase != 2) return;
  printf("V %.17g %.17g %s\n", a, b, l);
  bool ok;
  if (exactMode) ok = a == b || (a != a && b != b);
  else if (!std::isfinite(a) || !std::isfinite(b)) ok = (a == b);
  else ok = fabs(a - b) <= (usedDiff ? tolD : tol) * (1 + std::max(fabs(a), fabs(b)));
  if (!ok) { printf("FAIL %s: %.17g vs %.17g\n", l, a, b); fails++; }
}
static double dodiff(double e, const std::string& v) {
  usedDiff = true;
  if (phase == 0) { dcalls.push_back(v); return 0; }
  if (phase == 1) { dvals.push_back(e); return 0; }
  return di < deriv.size() ? deriv[di++] : NAN;
}
double vp_diff(double e, const char* v) { return dodiff(e, v); }
double vp_diff0(double e, const char* v) { return dodiff(e, std::string("eps:") + v); }
double vp_uf(const char* n, uint64_t k, const double* a) { return ufEval(n, {}, a, k); }
double vp_uf_d(const char* n, uint64_t k, const double* a, uint64_t i) { return ufEval(n, {(int)i}, a, k); }
void vp_reach(const char*) {}
void vp_round_sqrt() {}
int vp_symbolic() { return 0; }
void vp_fail(const char* l) { vp_check(0, l); throw Stop{2}; }
void vp_print(const char* n, double v) { if (phase == 2) fprintf(stderr, "%s = %.17g\n", n, v); }
}
int main(int argc, char** argv) {
  void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!f) { fprintf(stderr, "no entry\n"); return 3; }
  exactMode = argc > 3 && !strcmp(argv[3], "ieee");
  if (FILE* fp = fopen(argv[2], "r")) { char a[512], b[128]; while (fscanf(fp, "%511[^\t]\t%127s\n", a, b) == 2) in[a] = b; fclose(fp); }
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  auto once = [&]() -> int {
    cnt.clear();
    try { f(); } catch (Stop& s) { return s.k; }
    return 0;
  };
  try {
    phase = 0; once();
    if (!dcalls.empty()) {
      phase = 1; deriv.assign(dcalls.size(), NAN);
      std::vector<std::string> vs = dcalls; std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
      for (auto& v : vs) {
        std::string nm = v; double x = rv(nm), h = 1e-5 * (1 + fabs(x));
        std::vector<double> s[4]; double m[4] = {1, -1, 2, -2};
        for (int k = 0; k < 4; k++) { pertVar = v; pertH = m[k] * h; dvals.clear(); once(); s[k] = dvals; }
        pertVar.clear();
        for (size_t i = 0; i < dcalls.size(); i++) if (dcalls[i] == v && i < s[0].size() && i < s[1].size() && i < s[2].size() && i < s[3].size()) deriv[i] = (8 * (s[0][i] - s[1][i]) - (s[2][i] - s[3][i])) / (12 * h);
      }
    }
    phase = 2; di = 0;
    int k = once();
    if (k == 1) { printf("ASSUME\n"); fflush(stdout); return 4; }
  } catch (std::exception& e) { printf("FAIL uncaught exception %s\n", e.what()); fails++; }
  catch (...) { printf("FAIL uncaught exception\n"); fails++; }
  printf("DONE %d\n", fails); fflush(stdout);
  return fails ? 1 : 0;
}
