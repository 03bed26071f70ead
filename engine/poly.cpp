#include "poly.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>

std::vector<Atom> g_atoms;
std::function<int(const Poly&)> g_signOracle;
uint64_t g_polyBudget = 0; static uint64_t g_polyWork = 0;
static inline void work(uint64_t n) { if (g_polyBudget) { g_polyWork += n; if (g_polyWork > g_polyBudget) { g_polyWork = 0; throw PolyBudget(); } } }

static const unsigned EB = 10, EM = (1u << EB) - 1;
struct MonoHash { size_t operator()(const Mono& m) const { size_t h = 1469598103u; for (uint32_t x : m) { h ^= x; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
typedef std::unordered_map<Mono, mpq_class, MonoHash> Acc;

static Mono monoMul(const Mono& a, const Mono& b) {
  Mono r; r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() && j < b.size()) {
    uint32_t x = a[i] >> EB, y = b[j] >> EB;
    if (x > y) r.push_back(a[i++]); else if (y > x) r.push_back(b[j++]);
    else { uint32_t e = (a[i] & EM) + (b[j] & EM); if (e > EM) throw EngineError("poly exponent overflow"); r.push_back(x << EB | e); i++; j++; }
  }
  while (i < a.size()) r.push_back(a[i++]);
  while (j < b.size()) r.push_back(b[j++]);
  return r;
}
static bool monoDiv(const Mono& a, const Mono& b, Mono& r) {
  r.clear(); size_t j = 0;
  for (size_t i = 0; i < a.size(); i++) {
    if (j < b.size() && (b[j] >> EB) > (a[i] >> EB)) return false;
    if (j < b.size() && (b[j] >> EB) == (a[i] >> EB)) {
      uint32_t ea = a[i] & EM, eb = b[j] & EM; if (eb > ea) return false;
      if (ea > eb) r.push_back((a[i] >> EB) << EB | (ea - eb));
      j++;
    } else r.push_back(a[i]);
  }
  return j == b.size();
}
static Poly fromAcc(Acc& m) {
  Poly p; p.t.reserve(m.size());
  for (auto& kv : m) if (kv.second != 0) p.t.emplace_back(kv.first, std::move(kv.second));
  std::sort(p.t.begin(), p.t.end(), [](auto& a, auto& b) { return a.first > b.first; });
  return p;
}
Poly pConst(const mpq_class& c) { Poly p; if (c != 0) p.t.emplace_back(Mono(), c); return p; }
Poly pAtom(int a) { Poly p; p.t.emplace_back(Mono{(uint32_t)a << EB | 1}, 1); return p; }
Poly pScale(const Poly& a, const mpq_class& c) { Poly r; if (c == 0) return r; r = a; for (auto& x : r.t) x.second *= c; return r; }
Poly pNeg(const Poly& a) { return pScale(a, -1); }
static Poly merge(const Poly& a, const Poly& b, int sgn) {
  Poly r; r.t.reserve(a.t.size() + b.t.size());
  size_t i = 0, j = 0;
  work(a.t.size() + b.t.size());
  while (i < a.t.size() && j < b.t.size()) {
    if (a.t[i].first > b.t[j].first) r.t.push_back(a.t[i++]);
    else if (b.t[j].first > a.t[i].first) { r.t.push_back(b.t[j++]); if (sgn < 0) r.t.back().second = -r.t.back().second; }
    else { mpq_class c = a.t[i].second; if (sgn > 0) c += b.t[j].second; else c -= b.t[j].second; if (c != 0) r.t.emplace_back(a.t[i].first, c); i++; j++; }
  }
  while (i < a.t.size()) r.t.push_back(a.t[i++]);
  while (j < b.t.size()) { r.t.push_back(b.t[j++]); if (sgn < 0) r.t.back().second = -r.t.back().second; }
  return r;
}
Poly pAdd(const Poly& a, const Poly& b) { return merge(a, b, 1); }
Poly pSub(const Poly& a, const Poly& b) { return merge(a, b, -1); }
Poly pMulRaw(const Poly& a, const Poly& b) {
  if (a.zero() || b.zero()) return Poly();
  if (a.isConst()) return pScale(b, a.cst());
  if (b.isConst()) return pScale(a, b.cst());
  work((uint64_t)a.t.size() * b.t.size());
  Acc m; m.reserve(a.t.size() * b.t.size());
  for (auto& x : a.t) for (auto& y : b.t) { auto& c = m[monoMul(x.first, y.first)]; c += x.second * y.second; }
  return fromAcc(m);
}
bool pEq(const Poly& a, const Poly& b) { return a.t == b.t; }

// substitutions (atom = value, from path equalities)
static std::map<int, Poly> g_sub;
static bool monoNeedsReduce(const Mono& m, size_t& pos) {
  for (size_t i = 0; i < m.size(); i++) {
    int a = m[i] >> EB;
    if (g_sub.count(a)) { pos = i; return true; }
    if ((m[i] & EM) >= 2 && g_atoms[a].hasRel) { pos = i; return true; }
  }
  return false;
}
Poly pReduce(const Poly& p0, Cof* cof) {
  size_t pos;
  bool any = false;
  for (auto& x : p0.t) if (monoNeedsReduce(x.first, pos)) { any = true; break; }
  if (!any) return p0;
  Poly p = p0;
  for (int guard = 0; guard < 10000; guard++) {
    // find the most significant reducible atom
    int best = -1;
    for (auto& x : p.t) if (monoNeedsReduce(x.first, pos)) best = std::max(best, (int)(x.first[pos] >> EB));
    if (best < 0) return p;
    bool isSub = g_sub.count(best);
    const Poly& rel = isSub ? g_sub[best] : g_atoms[best].rel;
    unsigned step = isSub ? 1 : 2;
    // group the reducible terms by the power of rel
    Acc keep; std::map<unsigned, Acc> byPow; Acc qacc;
    for (auto& x : p.t) {
      unsigned e = 0; size_t at = 0;
      for (size_t i = 0; i < x.first.size(); i++) if ((int)(x.first[i] >> EB) == best) { e = x.first[i] & EM; at = i; }
      if (e < step) { keep[x.first] += x.second; continue; }
      unsigned k = e / step, r = e % step;
      Mono rest = x.first;
      if (r) rest[at] = (uint32_t)best << EB | r; else rest.erase(rest.begin() + at);
      byPow[k][rest] += x.second;
    }
    Poly acc = fromAcc(keep);
    // Horner: sum_k C_k * X^k with X = atom^step;   X^k - rel^k = (X-rel) * sum_j X^j rel^(k-1-j)
    unsigned kmax = byPow.rbegin()->first;
    Poly cur;   // value of the bracket
    Poly q;     // cofactor of (X - rel)
    Poly X; X.t.emplace_back(Mono{(uint32_t)best << EB | step}, 1);
    for (unsigned k = kmax; k >= 1; k--) {
      Poly ck; auto it = byPow.find(k); if (it != byPow.end()) ck = fromAcc(it->second);
      cur = pAdd(cur, ck);                       // bracket_k (already with rel substituted above)
      if (cof) q = pAdd(pMulRaw(q, X), cur);     // synthetic division by (X-rel): q_{k-1} = bracket_k
      cur = pMulRaw(cur, rel);
    }
    p = pAdd(acc, cur);
    if (cof) { Poly& c = (*cof)[isSub ? -1 - best : best]; c = pAdd(c, q); }
  }
  throw EngineError("pReduce: no termination");
}
Poly pMul(const Poly& a, const Poly& b) { return pReduce(pMulRaw(a, b)); }

bool pDivExact(const Poly& a, const Poly& b, Poly& q) {
  if (b.zero()) return false;
  if (a.zero()) { q = Poly(); return true; }
  if (b.isConst()) { q = pScale(a, 1 / b.cst()); return true; }
  // quick necessary tests on leading and trailing monomials
  Mono m;
  if (!monoDiv(a.t[0].first, b.t[0].first, m)) return false;
  if (!monoDiv(a.t.back().first, b.t.back().first, m)) return false;
  std::map<Mono, mpq_class, std::greater<Mono>> r;
  for (auto& x : a.t) r[x.first] = x.second;
  Poly res;
  size_t steps = 0;
  while (!r.empty()) {
    auto it = r.begin();
    if (!monoDiv(it->first, b.t[0].first, m)) return false;
    mpq_class c = it->second / b.t[0].second;
    Mono mm = m;
    res.t.emplace_back(mm, c);
    work(b.t.size());
    for (auto& y : b.t) {
      Mono k = monoMul(mm, y.first);
      auto f = r.find(k);
      mpq_class v = c * y.second;
      if (f == r.end()) r.emplace(std::move(k), -v); else { f->second -= v; if (f->second == 0) r.erase(f); }
    }
    if (++steps > 4 * a.t.size() + 64) return false;
  }
  q = res;
  return true;
}
std::string pKey(const Poly& p) {
  std::string s;
  for (auto& x : p.t) { s += x.second.get_str(62); s += ':'; for (uint32_t m : x.first) { s.append((const char*)&m, 4); } s += ';'; }
  return s;
}
static std::string atomName(int a) {
  const Atom& A = g_atoms[a];
  switch (A.kind) {
    case A_VAR: return showTerm(A.term, 3);
    case A_PI: return "PI";
    case A_SQRT: return "sqrt[" + pShow(A.rad, 6) + "]";
    case A_SIN: return "sin#" + std::to_string(a) + "[" + pShow(A.args[0].n, 3) + "]";
    case A_COS: return "cos#" + std::to_string(a) + "[" + pShow(A.args[0].n, 3) + "]";
    default: { std::string s = A.name + "["; for (auto& r : A.args) s += pShow(r.n, 4) + (r.d.empty() ? "" : "/..") + ","; return s + "]"; }
  }
}
std::string pShow(const Poly& p, size_t mx) {
  if (p.zero()) return "0";
  std::string s; size_t n = 0;
  for (auto& x : p.t) {
    if (n++ >= mx) { s += " + ...(" + std::to_string(p.t.size()) + " terms)"; break; }
    if (n > 1) s += " + ";
    s += x.second.get_str();
    for (uint32_t m : x.first) { s += "*" + atomName(m >> EB); if ((m & EM) > 1) s += "^" + std::to_string(m & EM); }
  }
  return s;
}

// ---------------------------------------------------------------- factors
static std::vector<Poly> g_factors; static std::unordered_map<std::string, int> g_factorIdx;
const Poly& factorPoly(int f) { return g_factors[f]; }
static int internFactor(const Poly& p) {
  std::string k = pKey(p);
  auto it = g_factorIdx.find(k);
  if (it != g_factorIdx.end()) return it->second;
  g_factors.push_back(p); int id = g_factors.size() - 1; g_factorIdx[k] = id; return id;
}
static Poly pPow(const Poly& p, int e) { Poly r = pConst(1); for (int i = 0; i < e; i++) r = pMul(r, p); return r; }
Poly denPoly(const RatFn& r) { Poly p = pConst(1); for (auto& f : r.d) p = pMul(p, pPow(g_factors[f.first], f.second)); return p; }
RatFn rfConst(const mpq_class& c) { RatFn r; r.n = pConst(c); return r; }
RatFn rfPoly(const Poly& p) { RatFn r; r.n = p; return r; }
static void cancel(RatFn& r) {
  if (r.n.zero()) { r.d.clear(); return; }
  for (auto it = r.d.begin(); it != r.d.end();) {
    Poly q;
    while (it->second > 0 && pDivExact(r.n, g_factors[it->first], q)) { r.n = q; it->second--; }
    if (it->second == 0) it = r.d.erase(it); else ++it;
  }
}
RatFn rfMul(const RatFn& a, const RatFn& b) {
  RatFn r; if (a.n.zero() || b.n.zero()) return r;
  // cross-cancel cheap
  RatFn x = a, y = b;
  if (!b.d.empty()) { RatFn t; t.n = a.n; t.d = b.d; cancel(t); x.n = t.n; y.d = t.d; }
  if (!a.d.empty()) { RatFn t; t.n = b.n; t.d = x.d; cancel(t); y.n = t.n; x.d = t.d; }
  r.n = pMul(x.n, y.n); r.d = x.d;
  for (auto& f : y.d) r.d[f.first] += f.second;
  if (!r.d.empty()) cancel(r);
  return r;
}
static RatFn addSub(const RatFn& a, const RatFn& b, int s) {
  if (a.n.zero()) { RatFn r = b; if (s < 0) r.n = pNeg(r.n); return r; }
  if (b.n.zero()) return a;
  RatFn r;
  if (a.d == b.d) { r.n = s > 0 ? pAdd(a.n, b.n) : pSub(a.n, b.n); r.d = a.d; if (!r.d.empty()) cancel(r); return r; }
  Poly na = a.n, nb = b.n; r.d = a.d;
  for (auto& f : b.d) { int& e = r.d[f.first]; e = std::max(e, f.second); }
  for (auto& f : r.d) {
    auto ia = a.d.find(f.first); int ea = ia == a.d.end() ? 0 : ia->second;
    auto ib = b.d.find(f.first); int eb = ib == b.d.end() ? 0 : ib->second;
    if (f.second > ea) na = pMul(na, pPow(g_factors[f.first], f.second - ea));
    if (f.second > eb) nb = pMul(nb, pPow(g_factors[f.first], f.second - eb));
  }
  r.n = s > 0 ? pAdd(na, nb) : pSub(na, nb);
  cancel(r);
  return r;
}
RatFn rfAdd(const RatFn& a, const RatFn& b) { return addSub(a, b, 1); }
RatFn rfSub(const RatFn& a, const RatFn& b) { return addSub(a, b, -1); }

// reciprocal of a polynomial as num * 1/factors
static RatFn recip(const Poly& p0) {
  RatFn r; r.n = pConst(1);
  Poly p = p0;
  if (p.zero()) throw EngineError("division by a term that normalises to zero");
  // monomial content
  Mono g = p.t[0].first;
  for (auto& x : p.t) {
    Mono h; size_t j = 0;
    for (size_t i = 0; i < g.size(); i++) {
      for (j = 0; j < x.first.size(); j++) if ((x.first[j] >> EB) == (g[i] >> EB)) { uint32_t e = std::min(g[i] & EM, x.first[j] & EM); h.push_back((g[i] >> EB) << EB | e); break; }
    }
    g = h; if (g.empty()) break;
  }
  if (!g.empty()) {
    for (auto& x : p.t) { Mono m; monoDiv(x.first, g, m); x.first = m; }
    std::sort(p.t.begin(), p.t.end(), [](auto& a, auto& b) { return a.first > b.first; });
    for (uint32_t m : g) {
      int a = m >> EB; unsigned e = m & EM;
      for (unsigned i = 0; i < e; i++) {
        if (g_atoms[a].hasRel) r = rfMul(r, rfMul(rfPoly(pAtom(a)), recip(g_atoms[a].rel)));
        else r.d[internFactor(pAtom(a))] += 1;
      }
    }
  }
  mpq_class lc = p.t[0].second;
  p = pScale(p, 1 / lc);
  r.n = pScale(r.n, 1 / lc);
  if (!p.isConst()) {
    // split by factors already known
    for (size_t f = 0; f < g_factors.size() && f < 64 && !p.isConst(); f++) {
      if (g_factors[f].t.size() < 2) continue;
      Poly q;
      while (!p.isConst() && pDivExact(p, g_factors[f], q)) { r.d[f]++; p = q; }
    }
    if (!p.isConst()) {
      // rationalise a + b*s for a sqrt/algebraic atom s when p is linear in it:  1/(a+bs) = (a-bs)/(a^2-b^2 rel)
      mpq_class l2 = p.t[0].second; if (l2 != 1) { p = pScale(p, 1 / l2); r.n = pScale(r.n, 1 / l2); }
      r.d[internFactor(p)]++;
    } else r.n = pScale(r.n, 1 / p.cst());
  }
  cancel(r);
  return r;
}
RatFn rfDiv(const RatFn& a, const RatFn& b) {
  RatFn r = a;
  RatFn bd; bd.n = denPoly(b);
  if (!b.d.empty()) {
    // cancel shared denominator factors first
    RatFn inv; inv.n = pConst(1);
    for (auto& f : b.d) {
      int e = f.second; auto it = r.d.find(f.first);
      if (it != r.d.end()) { int k = std::min(e, it->second); it->second -= k; e -= k; if (!it->second) r.d.erase(it); }
      if (e) inv.n = pMul(inv.n, pPow(g_factors[f.first], e));
    }
    r = rfMul(r, inv);
  }
  if (b.n.zero()) throw EngineError("division by a term that normalises to zero");
  Poly q;
  if (pDivExact(r.n, b.n, q)) { r.n = q; return r; }
  return rfMul(r, recip(b.n));
}
std::string rfKey(const RatFn& r) { std::string s = pKey(r.n) + "/"; for (auto& f : r.d) s += std::to_string(f.first) + "^" + std::to_string(f.second) + ","; return s; }

// ---------------------------------------------------------------- atoms
static std::unordered_map<T, int> g_varAtom; static std::unordered_map<std::string, int> g_atomIdx;
int atomOfVar(T v) {
  auto it = g_varAtom.find(v); if (it != g_varAtom.end()) return it->second;
  Atom a; a.kind = v->op == O_PI ? A_PI : A_VAR; a.term = v; g_atoms.push_back(a); return g_varAtom[v] = g_atoms.size() - 1;
}
void addRelation(int atom, const Poly& sq) { g_atoms[atom].hasRel = true; g_atoms[atom].rel = sq; }
void addSubstitution(int atom, const Poly& v) {
  Poly val = pReduce(v);
  g_sub[atom] = val;
  for (auto& kv : g_sub) if (kv.first != atom) kv.second = pReduce(kv.second);
  for (auto& a : g_atoms) if (a.hasRel) a.rel = pReduce(a.rel);
  canonReset();
}
static std::unordered_map<T, RF> g_memo, g_memoQ[2];     // g_memoQ: entries made while writing solver scripts, without / with sign questions (possibly less simplified)
void canonReset() { g_memo.clear(); g_memoQ[0].clear(); g_memoQ[1].clear(); }
int g_quiet = 0, g_emit = 0;

static int sqrtAtom(const Poly& rad) {
  std::string k = "S" + pKey(rad);
  auto it = g_atomIdx.find(k); if (it != g_atomIdx.end()) return it->second;
  Atom a; a.kind = A_SQRT; a.rad = rad; a.hasRel = true; a.rel = rad; a.name = "sqrt"; g_atoms.push_back(a);
  return g_atomIdx[k] = g_atoms.size() - 1;
}
static int signOf(const Poly& p) {
  if (p.isConst()) return p.cst() >= 0 ? 1 : -1;
  if (p.t.size() == 1 && p.t[0].first.size() == 1 && (p.t[0].first[0] & EM) == 1) {
    const Atom& A = g_atoms[p.t[0].first[0] >> EB];
    if (A.kind == A_SQRT || A.kind == A_PI || (A.kind == A_FUN && A.fn == O_EXP) || (A.kind == A_FUN && A.fn == O_ACOS)) return p.t[0].second > 0 ? 1 : -1;
  }
  // sums of even monomials
  bool pos = true, neg = true;
  for (auto& x : p.t) {
    for (uint32_t m : x.first) if (((m & EM) & 1) && g_atoms[m >> EB].kind != A_SQRT && g_atoms[m >> EB].kind != A_PI) pos = neg = false;
    if (x.second > 0) neg = false; else pos = false;
  }
  if (pos) return 1;
  if (neg) return -1;
  return g_signOracle ? g_signOracle(p) : 0;
}
static Poly absPoly(Poly p) {   // by value: g_factors may grow meanwhile
  int s = signOf(p);
  if (s > 0) return p;
  if (s < 0) return pNeg(p);
  if (g_quiet || g_emit) return pAtom(sqrtAtom(pMul(p, p)));
  throw NeedSplit{rCmp(O_RLE, mkReal(0), polyToTerm(p))};
}
// polynomial square root (plain polynomial ring)
static bool polySqrt(const Poly& p, Poly& r) {
  if (p.zero()) { r = Poly(); return true; }
  auto lead = p.t[0];
  Mono h;
  for (uint32_t m : lead.first) { if ((m & EM) & 1) return false; h.push_back((m >> EB) << EB | (m & EM) / 2); }
  if (lead.second < 0) return false;
  mpz_class n = lead.second.get_num(), d = lead.second.get_den();
  if (!mpz_perfect_square_p(n.get_mpz_t()) || !mpz_perfect_square_p(d.get_mpz_t())) return false;
  mpq_class c(sqrt(n), sqrt(d));
  r = Poly(); r.t.emplace_back(h, c);
  Poly rem = pSub(p, pMulRaw(r, r));
  for (size_t it = 0; it < 200; it++) {
    if (rem.zero()) return true;
    Mono m; if (!monoDiv(rem.t[0].first, h, m)) return false;
    if (!(m < r.t.back().first)) return false;
    Poly nt; nt.t.emplace_back(m, rem.t[0].second / (2 * c));
    rem = pSub(rem, pAdd(pScale(pMulRaw(r, nt), 2), pMulRaw(nt, nt)));
    r.t.push_back(nt.t[0]);
  }
  return false;
}
static mpq_class squarePart(const mpq_class& q, mpq_class& rest) {   // q = out^2 * rest
  mpz_class n = q.get_num(), d = q.get_den();
  // sqrt(n/d) = sqrt(n*d)/d
  mpz_class m = n * d, out = 1;
  for (unsigned long p = 2; p < 2000; p++) { mpz_class pp = p * p; while (mpz_divisible_p(m.get_mpz_t(), pp.get_mpz_t())) { m /= pp; out *= p; } }
  if (mpz_perfect_square_p(m.get_mpz_t())) { out *= sqrt(m); m = 1; }
  rest = m; mpq_class r(out, d); r.canonicalize(); return r;
}
// sqrt of a (nonnegative) polynomial as poly (product of atoms)
static Poly sqrtPoly(Poly p) {
  p = pReduce(p);
  if (p.zero()) return p;
  Poly out = pConst(1);
  // monomial content, even powers
  for (bool again = true; again;) {
    again = false;
    Poly s;
    if (polySqrt(p, s)) return pMul(out, absPoly(s));
    // content
    Mono g = p.t[0].first;
    for (auto& x : p.t) { Mono h; for (uint32_t a : g) for (uint32_t b : x.first) if ((a >> EB) == (b >> EB)) { uint32_t e = std::min(a & EM, b & EM); h.push_back((a >> EB) << EB | e); } g = h; }
    for (uint32_t m : g) if ((m & EM) >= 2) {
      Mono d{(m >> EB) << EB | ((m & EM) / 2 * 2)}, half{(m >> EB) << EB | (m & EM) / 2};
      Poly hp; hp.t.emplace_back(half, 1);
      for (auto& x : p.t) { Mono q; monoDiv(x.first, d, q); x.first = q; }
      std::sort(p.t.begin(), p.t.end(), [](auto& a, auto& b) { return a.first > b.first; });
      out = pMul(out, absPoly(hp)); again = true; break;
    }
    if (again) continue;
    // relation atoms: p = k * rel(a) * Q
    for (int a = (int)g_atoms.size() - 1; a >= 0; a--) {
      if (!g_atoms[a].hasRel || g_atoms[a].rel.isConst() || g_sub.count(a)) continue;
      Poly q;
      if (pDivExact(p, g_atoms[a].rel, q)) {
        // negative quotient constant means rel<=0 : cannot be
        if (q.isConst() && q.cst() < 0) continue;
        p = q; out = pMul(out, absPoly(pAtom(a))); again = true; break;
      }
    }
  }
  mpq_class rest, sq;
  // normalise the leading coefficient to a squarefree integer content
  mpz_class gn = 0, gd = 1;
  for (auto& x : p.t) { mpz_class t; mpz_gcd(t.get_mpz_t(), gn.get_mpz_t(), x.second.get_num_mpz_t()); gn = t; mpz_lcm(t.get_mpz_t(), gd.get_mpz_t(), x.second.get_den_mpz_t()); gd = t; }
  mpq_class content(gn, gd); content.canonicalize();
  sq = squarePart(content, rest);
  p = pScale(p, rest / content);
  out = pScale(out, sq);
  if (p.isConst() && p.cst() == 1) return out;
  return pMul(out, pAtom(sqrtAtom(p)));
}
static RatFn sqrtRF(const RatFn& r) {
  // sqrt(N/D) = sqrt(N*Dodd) / |Deven * Dodd|
  Poly n = r.n; RatFn res; Poly den = pConst(1);
  RatFn o; o.n = pConst(1);
  for (auto& f : r.d) {
    int k = (f.second + 1) / 2;
    if (f.second & 1) n = pMul(n, g_factors[f.first]);
    Poly a = absPoly(Poly(g_factors[f.first]));
    for (int i = 0; i < k; i++) o.d[f.first]++;
    if (!pEq(a, g_factors[f.first])) { if (k & 1) o.n = pNeg(o.n); }
  }
  return rfMul(rfPoly(sqrtPoly(n)), o);
}

// ---------------------------------------------------------------- trigonometry
static std::unordered_map<std::string, unsigned> g_unit;       // base key -> denominator unit
struct UnitChanged {};
struct CS { RatFn c, s; };
static CS csMul(const CS& a, const CS& b) { return {rfSub(rfMul(a.c, b.c), rfMul(a.s, b.s)), rfAdd(rfMul(a.s, b.c), rfMul(a.c, b.s))}; }
static CS csPow(CS b, unsigned long n) {
  CS r{rfConst(1), RatFn()};
  while (n) { if (n & 1) r = csMul(r, b); n >>= 1; if (n) b = csMul(b, b); }
  return r;
}
static CS halfCS(const CS& x) {   // angle in (-pi, pi)
  CS h; h.c = sqrtRF(rfMul(rfConst(mpq_class(1, 2)), rfAdd(rfConst(1), x.c)));
  h.s = rfDiv(x.s, rfMul(rfConst(2), h.c));
  return h;
}
static CS csPiMul(const mpq_class& q) {   // cos/sin of q*pi, exact for multiples of pi/12 (pi/4, pi/6)
  mpq_class q12 = q * 12;
  if (q12.get_den() == 1) {
    mpz_class m; mpz_fdiv_r_ui(m.get_mpz_t(), q12.get_num_mpz_t(), 24);
    long k = m.get_si();
    RatFn s3 = rfPoly(sqrtPoly(pConst(3))), s2 = rfPoly(sqrtPoly(pConst(2)));
    CS p6{rfMul(rfConst(mpq_class(1, 2)), s3), rfConst(mpq_class(1, 2))}, p4{rfMul(rfConst(mpq_class(1, 2)), s2), rfMul(rfConst(mpq_class(1, 2)), s2)};
    CS p2{RatFn(), rfConst(1)};
    CS r{rfConst(1), RatFn()};
    for (; k >= 6; k -= 6) r = csMul(r, p2);
    for (; k >= 3 && k != 4; k -= 3) r = csMul(r, p4);
    if (k == 4) { r = csMul(csMul(r, p6), p6); k = 0; }
    if (k == 2) { r = csMul(r, p6); k = 0; }
    if (k == 1) { r = csMul(r, csMul(p4, CS{p6.c, rfSub(RatFn(), p6.s)})); }
    return r;
  }
  throw EngineError("trig of unusual multiple of pi");
}
static CS baseCS(const RatFn& t, unsigned unit) {
  // inverse trigonometric atom?
  if (t.d.empty() && t.n.t.size() == 1 && t.n.t[0].second == 1 && t.n.t[0].first.size() == 1 && (t.n.t[0].first[0] & EM) == 1) {
    int ai = t.n.t[0].first[0] >> EB;
    if (g_atoms[ai].kind == A_FUN) {
      Op fn = g_atoms[ai].fn; std::vector<RatFn> args = g_atoms[ai].args;
      CS x; bool ok = true;
      if (fn == O_ACOS || fn == O_ASIN) {
        RatFn o = sqrtRF(rfSub(rfConst(1), rfMul(args[0], args[0])));
        if (fn == O_ACOS) x = {args[0], o}; else x = {o, args[0]};
        if (fn == O_ACOS && unit == 2) {
          return {sqrtRF(rfMul(rfConst(mpq_class(1, 2)), rfAdd(rfConst(1), args[0]))), sqrtRF(rfMul(rfConst(mpq_class(1, 2)), rfSub(rfConst(1), args[0])))};
        }
      } else if (fn == O_ATAN) {
        RatFn r = sqrtRF(rfAdd(rfConst(1), rfMul(args[0], args[0])));
        x = {rfDiv(rfConst(1), r), rfDiv(args[0], r)};
      } else if (fn == O_ATAN2) {
        RatFn r = sqrtRF(rfAdd(rfMul(args[0], args[0]), rfMul(args[1], args[1])));
        x = {rfDiv(args[1], r), rfDiv(args[0], r)};
      } else ok = false;
      if (ok) {
        if (unit == 1) return x;
        if (unit == 2) return halfCS(x);
        if (unit == 4) return halfCS(halfCS(x));
        throw EngineError("inverse trig with unusual unit");
      }
    }
  }
  RatFn u = rfMul(t, rfConst(mpq_class(1, unit)));
  std::string k = rfKey(u);
  auto it = g_atomIdx.find("s" + k);
  int si, ci;
  if (it == g_atomIdx.end()) {
    Atom a; a.kind = A_SIN; a.args = {u}; a.name = "sin"; g_atoms.push_back(a); si = g_atoms.size() - 1;
    Atom b; b.kind = A_COS; b.args = {u}; b.name = "cos"; g_atoms.push_back(b); ci = g_atoms.size() - 1;
    g_atoms[si].pair = ci; g_atoms[ci].pair = si;
    addRelation(ci, pSub(pConst(1), pMulRaw(pAtom(si), pAtom(si))));
    g_atomIdx["s" + k] = si;
  } else { si = it->second; ci = g_atoms[si].pair; }
  return {rfPoly(pAtom(ci)), rfPoly(pAtom(si))};
}
static CS trig(const RatFn& u) {
  CS r{rfConst(1), RatFn()};
  for (auto& x : u.n.t) {
    mpq_class c = x.second;
    if (u.d.empty() && x.first.size() == 1 && (x.first[0] & EM) == 1 && g_atoms[x.first[0] >> EB].kind == A_PI) { r = csMul(r, csPiMul(c)); continue; }
    RatFn t; t.n.t.emplace_back(x.first, 1); t.d = u.d;
    if (u.n.t.size() > 1 && !u.d.empty()) cancel(t);
    std::string k = rfKey(t);
    unsigned& un = g_unit[k]; if (!un) un = 1;
    mpq_class cu = c * un;
    if (cu.get_den() != 1) {
      mpz_class l; mpz_lcm_ui(l.get_mpz_t(), c.get_den_mpz_t(), un);
      if (l > 64) { // odd coefficient: opaque base of its own
        t.n = pScale(t.n, c);
        r = csMul(r, baseCS(t, 1)); continue;
      }
      un = l.get_ui(); throw UnitChanged();
    }
    mpz_class n = cu.get_num(); bool neg = n < 0; if (neg) n = -n;
    if (n > 64) { RatFn tt = t; tt.n = pScale(tt.n, c); r = csMul(r, baseCS(tt, 1)); continue; }
    CS b = csPow(baseCS(t, un), n.get_ui());
    if (neg) b.s = rfSub(RatFn(), b.s);
    r = csMul(r, b);
  }
  return r;
}
static int funAtom(AtomKind kind, Op fn, const std::string& name, const std::vector<RatFn>& args) {
  std::string k = "F" + std::to_string(fn) + name + "(";
  for (auto& a : args) k += rfKey(a) + ",";
  auto it = g_atomIdx.find(k); if (it != g_atomIdx.end()) return it->second;
  Atom a; a.kind = kind; a.fn = fn; a.name = name; a.args = args; g_atoms.push_back(a);
  return g_atomIdx[k] = g_atoms.size() - 1;
}
static bool leadNeg(const RatFn& r) { return !r.n.zero() && r.n.t[0].second < 0; }
static RatFn rfNeg(const RatFn& r) { RatFn x = r; x.n = pNeg(x.n); return x; }

// inverse of a trig function:  acos(cos u) etc. when u is known to lie in the principal range
static RatFn inverseTrig(Op fn, RatFn x) {
  if (fn == O_ACOS && leadNeg(x)) return rfSub(rfPoly(pAtom(atomOfVar(mkPi()))), inverseTrig(fn, rfNeg(x)));
  if ((fn == O_ASIN || fn == O_ATAN) && leadNeg(x)) return rfNeg(inverseTrig(fn, rfNeg(x)));
  if (x.n.isConst() && x.d.empty()) {
    mpq_class c = x.n.cst(); Poly pi = pAtom(atomOfVar(mkPi()));
    if (fn == O_ACOS) { if (c == 0) return rfPoly(pScale(pi, mpq_class(1, 2))); if (c == 1) return RatFn(); if (c == mpq_class(1, 2)) return rfPoly(pScale(pi, mpq_class(1, 3))); }
    if (fn == O_ASIN) { if (c == 0) return RatFn(); if (c == 1) return rfPoly(pScale(pi, mpq_class(1, 2))); }
    if (fn == O_ATAN) { if (c == 0) return RatFn(); if (c == 1) return rfPoly(pScale(pi, mpq_class(1, 4))); }
  }
  // candidate angles: any known sin/cos atoms; multiples 1,2 (and negatives)
  Poly pi = pAtom(atomOfVar(mkPi()));
  size_t na = g_atoms.size();
  for (size_t i = 0; i < na; i++) {
    if (g_atoms[i].kind != A_SIN) continue;
    int si = i, ci = g_atoms[i].pair;
    for (int k = 1; k <= 4; k *= 2) {
      CS b = csPow(CS{rfPoly(pAtom(ci)), rfPoly(pAtom(si))}, k);
      RatFn ang = rfMul(g_atoms[i].args[0], rfConst(k));
      auto nonneg = [&](const RatFn& r) { if (r.n.zero()) return true; Poly p = r.n; for (auto& f : r.d) if (f.second & 1) p = pMul(p, factorPoly(f.first)); return signOf(p) == 1; };
      auto rk = rfKey(x);
      if (fn == O_ACOS && rfKey(b.c) == rk) {
        if (nonneg(ang) && nonneg(rfSub(rfPoly(pi), ang))) return ang;
        if (nonneg(rfNeg(ang)) && nonneg(rfAdd(rfPoly(pi), ang))) return rfNeg(ang);
      }
      if (fn == O_ASIN && rfKey(b.s) == rk) {
        RatFn h = rfMul(rfConst(mpq_class(1, 2)), rfPoly(pi));
        if (nonneg(rfAdd(h, ang)) && nonneg(rfSub(h, ang))) return ang;
        if (nonneg(rfSub(ang, h)) && nonneg(rfSub(rfAdd(rfPoly(pi), h), ang))) return rfSub(rfPoly(pi), ang);
      }
      if (fn == O_ATAN && rfKey(rfMul(x, b.c)) == rfKey(b.s)) {
        RatFn h = rfMul(rfConst(mpq_class(1, 2)), rfPoly(pi));
        if (nonneg(rfAdd(h, ang)) && nonneg(rfSub(h, ang))) return ang;
      }
    }
  }
  return rfPoly(pAtom(funAtom(A_FUN, fn, fn == O_ACOS ? "acos" : fn == O_ASIN ? "asin" : "atan", {x})));
}
static RatFn atan2RF(RatFn y, RatFn x) {
  Poly pi = pAtom(atomOfVar(mkPi()));
  auto nonneg = [&](const RatFn& r) { if (r.n.zero()) return true; Poly p = r.n; for (auto& f : r.d) if (f.second & 1) p = pMul(p, factorPoly(f.first)); return signOf(p) == 1; };
  size_t na = g_atoms.size();
  for (size_t i = 0; i < na; i++) {
    if (g_atoms[i].kind != A_SIN) continue;
    int si = i, ci = g_atoms[i].pair;
    for (int k = 1; k <= 2; k *= 2) {
      CS b = csPow(CS{rfPoly(pAtom(ci)), rfPoly(pAtom(si))}, k);
      RatFn ang = rfMul(g_atoms[i].args[0], rfConst(k));
      for (int sg = 1; sg >= -1; sg -= 2) {
        RatFn bs = sg > 0 ? b.s : rfNeg(b.s), a = sg > 0 ? ang : rfNeg(ang);
        if (rfKey(rfMul(y, b.c)) != rfKey(rfMul(x, bs))) continue;
        // y = r*s, x = r*c with the same r; r = y*s + x*c must be >= 0
        RatFn r = rfAdd(rfMul(y, bs), rfMul(x, b.c));
        if (!nonneg(r)) continue;
        if (nonneg(rfAdd(rfPoly(pi), a)) && nonneg(rfSub(rfPoly(pi), a))) return a;
      }
    }
  }
  // scale so that the normal form of atan2(k y, k x), k>0, is shared: divide by a positive common content
  if (!x.d.empty() || !y.d.empty()) {
    RatFn d; d.n = pConst(1);
    std::map<int, int> m = x.d; for (auto& f : y.d) { int& e = m[f.first]; e = std::max(e, f.second); }
    bool ok = true; int flip = 1;
    for (auto& f : m) {
      int s = (f.second & 1) ? signOf(factorPoly(f.first)) : 1;
      if (!s) { ok = false; break; }
      if (s < 0) flip = -flip;
      for (int i = 0; i < f.second; i++) d.n = pMul(d.n, factorPoly(f.first));
    }
    if (ok) { if (flip < 0) d.n = pNeg(d.n); x = rfMul(x, d); y = rfMul(y, d); }
  }
  if (x.d.empty() && y.d.empty() && !x.n.zero() && !y.n.zero()) {
    mpq_class c = abs(y.n.t[0].second); x.n = pScale(x.n, 1 / c); y.n = pScale(y.n, 1 / c);
    // common monomials with known sign
    for (bool again = true; again;) {
      again = false;
      std::set<uint32_t> at;
      for (uint32_t m : y.n.t[0].first) at.insert(m >> EB);
      for (uint32_t a : at) {
        Poly q1, q2; Poly pa = pAtom(a);
        if (pDivExact(x.n, pa, q1) && pDivExact(y.n, pa, q2)) { int s = signOf(pa); if (s) { x.n = s > 0 ? q1 : pNeg(q1); y.n = s > 0 ? q2 : pNeg(q2); again = true; break; } }
      }
    }
  }
  if (y.n.zero()) { if (nonneg(x)) return RatFn(); if (nonneg(rfNeg(x))) return rfPoly(pi); }
  if (x.n.zero()) { if (nonneg(y)) return rfPoly(pScale(pi, mpq_class(1, 2))); if (nonneg(rfNeg(y))) return rfPoly(pScale(pi, mpq_class(-1, 2))); }
  return rfPoly(pAtom(funAtom(A_FUN, O_ATAN2, "atan2", {y, x})));
}

static RF canonRec(T t) {
  auto it = g_memo.find(t);
  if (it != g_memo.end()) return it->second;
  if (g_quiet || g_emit) { auto& q = g_memoQ[!g_quiet]; it = q.find(t); if (it != q.end()) return it->second; }
  auto A = [&](int i) -> const RatFn& { return *canonRec(t->a[i]); };
  RatFn r;
  switch (t->op) {
    case O_RC: r.n = pConst(t->q); break;
    case O_PI: r.n = pAtom(atomOfVar(t)); break;
    case O_VAR: r.n = pReduce(pAtom(atomOfVar(t))); break;
    case O_SI2R: case O_UI2R: case O_FROMBITS: r.n = pAtom(atomOfVar(t)); break;
    case O_RADD: { RatFn x = A(0); r = rfAdd(x, A(1)); break; }
    case O_RSUB: { RatFn x = A(0); r = rfSub(x, A(1)); break; }
    case O_RMUL: { RatFn x = A(0); r = rfMul(x, A(1)); break; }
    case O_RDIV: { RatFn x = A(0); r = rfDiv(x, A(1)); break; }
    case O_RNEG: r = rfNeg(A(0)); break;
    case O_SQRT: r = sqrtRF(RatFn(A(0))); break;
    case O_SIN: r = trig(RatFn(A(0))).s; break;
    case O_COS: r = trig(RatFn(A(0))).c; break;
    case O_TAN: { CS x = trig(RatFn(A(0))); r = rfDiv(x.s, x.c); break; }
    case O_ASIN: case O_ACOS: case O_ATAN: r = inverseTrig(t->op, RatFn(A(0))); break;
    case O_ATAN2: { RatFn y = A(0), x = A(1); r = atan2RF(y, x); break; }
    case O_EXP: {
      RatFn x = A(0);
      if (x.n.zero()) { r = rfConst(1); break; }
      if (leadNeg(x)) r = rfDiv(rfConst(1), rfPoly(pAtom(funAtom(A_FUN, O_EXP, "exp", {rfNeg(x)}))));
      else r.n = pAtom(funAtom(A_FUN, O_EXP, "exp", {x}));
      break;
    }
    case O_LOG: { RatFn x = A(0); if (x.d.empty() && x.n.isConst() && x.n.cst() == 1) break; r.n = pAtom(funAtom(A_FUN, O_LOG, "log", {x})); break; }
    case O_UF: { std::vector<RatFn> v; for (size_t i = 0; i < t->a.size(); i++) v.push_back(A(i)); r.n = pAtom(funAtom(A_UF, O_UF, t->name, v)); break; }
    case O_ITE: throw NeedSplit{t->a[0]};
    case O_SPECIAL: throw EngineError("inf/nan reached a real comparison");
    default: throw EngineError("canon: unsupported op " + showTerm(t, 2));
  }
  r.n = pReduce(r.n);
  RF p = std::make_shared<RatFn>(std::move(r));
  (g_quiet || g_emit ? g_memoQ[!g_quiet] : g_memo)[t] = p;
  return p;
}
RF canon(T t) {
  g_polyWork = 0;
  for (int i = 0; i < 50; i++) {
    try { return canonRec(t); } catch (UnitChanged&) { canonReset(); }
  }
  throw EngineError("canon: unit changes do not settle");
}
T atomTerm(int a) {
  Atom& A = g_atoms[a];
  switch (A.kind) {
    case A_VAR: case A_PI: return A.term;
    case A_SQRT: return rFn(O_SQRT, polyToTerm(A.rad));
    case A_SIN: return rFn(O_SIN, rfToTerm(A.args[0]));
    case A_COS: return rFn(O_COS, rfToTerm(A.args[0]));
    case A_FUN: return A.fn == O_ATAN2 ? rAtan2(rfToTerm(A.args[0]), rfToTerm(A.args[1])) : rFn(A.fn, rfToTerm(A.args[0]));
    case A_UF: { std::vector<T> v; for (auto& r : A.args) v.push_back(rfToTerm(r)); return mk(O_UF, S_REAL, 0, v, 0, 0, A.name); }
  }
  return nullptr;
}
T polyToTerm(const Poly& p) {
  T r = mkReal(0);
  for (auto& x : p.t) {
    T m = mkReal(x.second);
    for (uint32_t a : x.first) m = rMul(m, rPowInt(atomTerm(a >> EB), a & EM));
    r = rAdd(r, m);
  }
  return r;
}
T rfToTerm(const RatFn& r) {
  T n = polyToTerm(r.n);
  for (auto& f : r.d) n = rDiv(n, rPowInt(polyToTerm(g_factors[f.first]), f.second));
  return n;
}
