// Truncated Laurent series of a term in a positive infinitesimal: used for one-sided derivatives at 0.
#include "poly.hpp"
#include <climits>
struct Ser { int v = 0; std::vector<T> c; };   // sum c[i] eps^(v+i), valid up to (excluding) order v + c.size(); c empty: zero up to order v
static const int N = 5;
static T s_eps; static std::unordered_map<T, Ser> s_memo; static std::unordered_map<T, bool> s_dep; static std::unordered_map<T, bool> s_zero;
struct SeriesFail { const char* why; };
static bool dep(T t) { if (t == s_eps) return true; if (t->a.empty()) return false; auto it = s_dep.find(t); if (it != s_dep.end()) return it->second; bool r = false; for (T x : t->a) if (dep(x)) { r = true; break; } return s_dep[t] = r; }
static bool isZero(T t) {
  if (isRC(t)) return t->q == 0;
  auto it = s_zero.find(t); if (it != s_zero.end()) return it->second;
  bool z = canon(t)->n.zero();
  return s_zero[t] = z;
}
static const int EXACT = 1 << 20;              // order up to which a polynomial series is valid
struct S2 { int v; std::vector<T> c; int ord; };   // with explicit truncation order (exclusive)
static S2 norm(S2 s) {
  size_t k = 0; while (k < s.c.size() && isZero(s.c[k])) k++;
  if (k == s.c.size()) { s.c.clear(); s.v = s.ord; return s; }
  if (k) { s.c.erase(s.c.begin(), s.c.begin() + k); s.v += k; }
  if ((int)s.c.size() > N) { s.c.resize(N); s.ord = std::min(s.ord, s.v + N); }
  return s;
}
static T co(const S2& s, int k) { return k < s.v || k - s.v >= (int)s.c.size() ? mkReal(0) : s.c[k - s.v]; }
static S2 konst(T t) { return norm(S2{0, {t}, EXACT}); }
static S2 add(const S2& a, const S2& b, bool sub = false) {
  if (a.c.empty() && a.ord >= EXACT) { if (!sub) return b; S2 r = b; for (auto& x : r.c) x = rNeg(x); return r; }
  if (b.c.empty() && b.ord >= EXACT) return a;
  S2 r; r.ord = std::min(a.ord, b.ord); r.v = std::min(a.c.empty() ? b.v : a.v, b.c.empty() ? a.v : b.v);
  int hi = std::min(r.ord, std::max(a.v + (int)a.c.size(), b.v + (int)b.c.size()));
  for (int k = r.v; k < hi; k++) r.c.push_back(sub ? rSub(co(a, k), co(b, k)) : rAdd(co(a, k), co(b, k)));
  return norm(r);
}
static S2 mul(const S2& a, const S2& b) {
  if ((a.c.empty() && a.ord >= EXACT) || (b.c.empty() && b.ord >= EXACT)) return S2{0, {}, EXACT};
  S2 r; r.v = a.v + b.v; r.ord = std::min(a.ord >= EXACT ? EXACT : a.ord + b.v, b.ord >= EXACT ? EXACT : b.ord + a.v);
  int hi = std::min(std::min(r.ord, r.v + N), r.v + (int)a.c.size() + (int)b.c.size() - 1);
  for (int k = r.v; k < hi; k++) { T s = mkReal(0); for (int i = 0; i < (int)a.c.size() && i <= k - r.v; i++) s = rAdd(s, rMul(a.c[i], co(b, k - a.v - i))); r.c.push_back(s); }
  if ((int)a.c.size() + (int)b.c.size() - 1 > N) r.ord = std::min(r.ord, r.v + N);
  return norm(r);
}
static S2 inv(const S2& b) {
  if (b.c.empty()) throw SeriesFail{"division by a vanishing series"};
  S2 r; r.v = -b.v; int rel = b.ord >= EXACT ? N : std::min(N, b.ord - b.v);
  bool exact = b.ord >= EXACT && b.c.size() == 1;
  if (exact) return S2{r.v, {rDiv(mkReal(1), b.c[0])}, EXACT};
  r.ord = r.v + rel;
  for (int k = 0; k < rel; k++) { T s = k ? mkReal(0) : mkReal(1); for (int i = 1; i <= k; i++) s = rSub(s, rMul(co(b, b.v + i), r.c[k - i])); r.c.push_back(rDiv(s, b.c[0])); }
  return norm(r);
}
static S2 compose(T a, int op, const S2& d, int terms) {   // f(a + d), d of positive valuation
  static int n = 0; T x = mkVar("series!" + std::to_string(n++), S_REAL);
  T f = rFn((Op)op, x); S2 r = S2{0, {}, EXACT}, p = konst(mkReal(1)); mpq_class fact = 1;
  int lim = d.c.empty() ? 1 : terms;
  for (int k = 0; k < lim; k++) {
    if (k) { p = mul(p, d); fact *= k; f = diff(f, x); if (p.v >= N) break; }
    std::map<T, T> m; m[x] = a; T c = rMul(mkReal(1 / fact), subst(f, m));
    if (isSpecial(c)) throw SeriesFail{"not analytic at the base point"};
    r = add(r, mul(konst(c), p));
  }
  r.ord = std::min(r.ord, std::min(d.ord, N));
  if (!d.c.empty() || d.ord < EXACT) { while (!r.c.empty() && r.v + (int)r.c.size() > r.ord) r.c.pop_back(); }
  return norm(r);
}
static std::unordered_map<T, S2> memo;
static S2 go(T t) {
  if (!dep(t)) return konst(t);
  if (t == s_eps) return S2{1, {mkReal(1)}, EXACT};
  auto it = memo.find(t); if (it != memo.end()) return it->second;
  S2 r;
  switch (t->op) {
    case O_RADD: r = add(go(t->a[0]), go(t->a[1])); break;
    case O_RSUB: r = add(go(t->a[0]), go(t->a[1]), true); break;
    case O_RNEG: r = add(konst(mkReal(0)), go(t->a[0]), true); break;
    case O_RMUL: r = mul(go(t->a[0]), go(t->a[1])); break;
    case O_RDIV: r = mul(go(t->a[0]), inv(go(t->a[1]))); break;
    case O_SQRT: {
      S2 a = go(t->a[0]);
      if (a.c.empty()) throw SeriesFail{"root of a vanishing series"};
      if (a.v & 1) throw SeriesFail{"odd root"};
      S2 u = mul(a, S2{-a.v, {rDiv(mkReal(1), a.c[0])}, EXACT});      // 1 + d
      S2 d = add(u, konst(mkReal(1)), true);
      S2 s = compose(mkReal(1), O_SQRT, d, N);
      r = mul(s, S2{a.v / 2, {rFn(O_SQRT, a.c[0])}, EXACT}); break;
    }
    case O_SIN: case O_COS: case O_TAN: case O_ASIN: case O_ACOS: case O_ATAN: case O_EXP: case O_LOG: {
      S2 a = go(t->a[0]);
      if (!a.c.empty() && a.v < 0) throw SeriesFail{"pole inside a function"};
      T a0 = co(a, 0); S2 d = a; if (!a.c.empty() && a.v == 0) { d.c.erase(d.c.begin()); d.v = 1; d = norm(d); }
      if (d.c.empty() && d.ord < N) {}
      r = compose(a0, t->op, d, N); break;
    }
    case O_ATAN2: {   // locally atan2(y0,x0) + atan((y x0 - x y0)/(x x0 + y y0))
      S2 y = go(t->a[0]), x = go(t->a[1]);
      if ((!y.c.empty() && y.v < 0) || (!x.c.empty() && x.v < 0)) throw SeriesFail{"pole"};
      T y0 = co(y, 0), x0 = co(x, 0);
      S2 n = add(mul(y, konst(x0)), mul(x, konst(y0)), true), dd = add(mul(x, konst(x0)), mul(y, konst(y0)));
      S2 q = mul(n, inv(dd)); if (!q.c.empty() && q.v < 1) throw SeriesFail{"atan2"};
      r = add(konst(rAtan2(y0, x0)), compose(mkReal(0), O_ATAN, q, N)); break;
    }
    default: throw SeriesFail{"operation outside the series calculus"};
  }
  return memo[t] = r;
}
T seriesDiff0(T e, T eps) {
  s_eps = eps; memo.clear(); s_dep.clear(); s_zero.clear();
  S2 r = go(e);
  if (!r.c.empty() && r.v < 0) throw SeriesFail{"pole at 0"};
  if (r.ord < 2) throw SeriesFail{"precision lost"};
  return co(r, 1);
}
T trySeriesDiff0(T e, T eps, std::string& why) {
  try { return seriesDiff0(e, eps); } catch (SeriesFail& f) { why = f.why; } catch (NeedSplit&) { why = "split"; } catch (PolyBudget&) { why = "budget"; }
  return nullptr;
}
