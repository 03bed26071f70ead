// Path condition handling, forking, sample witnesses, and check discharge.
#include "exec.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <random>
#include <chrono>
#include <cstring>
#include <algorithm>
#include <atomic>
#include <unordered_set>

Options g_opt;
std::vector<T> g_pc; uint64_t g_instr = 0; std::string g_where;
std::map<std::string, std::string> g_notes;
static std::unordered_set<T> pcSet;
static std::vector<Sample> pool;
struct VarInfo { T v; double lo, hi; int unit = -1; bool eps = false; };
static std::vector<VarInfo> vars; static std::unordered_map<T, int> varIdx;
static std::vector<std::vector<T>> units;
static std::mt19937_64 rng;
static bool poolLost = false;     // no witness known
int g_logFd = 1;
struct Shared { std::atomic<int> active; std::atomic<long> paths; std::atomic<int> stop; };
static Shared* sh;
static std::chrono::steady_clock::time_point t00 = std::chrono::steady_clock::now();
static bool holdsSlot = true; static int unreaped = 0;
static uint64_t forks = 0;

std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r + "\"";
}
void logLine(const std::string& s) { std::string x = s + "\n"; size_t o = 0; while (o < x.size()) { ssize_t n = write(g_logFd, x.data() + o, x.size() - o); if (n <= 0) break; o += n; } }
void pathsInit() {
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (sh) Shared(); sh->active = 1; sh->paths = 0; sh->stop = 0;
  rng.seed(g_opt.seed * 7919 + 13);
  for (int i = 0; i < 6; i++) pool.emplace_back();
  extern int oracleSign(const Poly&);
  g_signOracle = oracleSign;
}
static double u01() { return (rng() >> 11) / 9007199254740992.0; }
static double gauss() { double a = u01() + 1e-12, b = u01(); return sqrt(-2 * log(a)) * cos(6.283185307179586 * b); }
static double drawReal(const VarInfo& v, int mode, double gscale) {
  if (v.eps) return v.lo + (v.hi - v.lo) * u01() ;
  double lo = v.lo, hi = v.hi; bool unb = lo < -1e17 && hi > 1e17;
  if (g_ieee && !unb) return lo + (hi - lo) * u01();
  double x;
  if (unb) { lo = -2; hi = 2; }
  else if (hi > 1e17) hi = lo + 3; else if (lo < -1e17) lo = hi - 3;
  x = lo + (hi - lo) * u01();
  auto clamp = [&](double y) { return y < v.lo ? v.lo : y > v.hi ? v.hi : y; };
  switch (mode) {
    case 0: case 1: return x;
    case 2: return clamp(x * gscale);
    case 3: return clamp(x * pow(10, -12 * u01()));
    case 4: { static const double k[] = {0, 1, -1, 0.5, 2, -0.5, 1e-9, 3}; return clamp(k[rng() % 8]); }
    case 5: return unb ? x * 50 : x;
    default: return x;
  }
}
static uint64_t drawBV(T v, int mode) {
  unsigned w = v->sort == S_BOOL ? 1 : v->w; uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1, x;
  switch (mode % 6) {
    case 0: x = rng(); break; case 1: x = rng() % 16; break; case 2: x = -(rng() % 16); break;
    case 3: { static const uint64_t k[] = {0, 1, ~0ull, 1000000000ull, 999999999ull, 2000000000ull}; x = k[rng() % 6]; break; }
    case 4: x = (1ull << (w - 1)) - 2 + rng() % 4; break;
    default: x = rng() & ((1ull << (rng() % w)) * 2 - 1); break;
  }
  return x & m;
}
static void drawOne(Sample& s, const VarInfo& v, int mode, double gs) {
  if (v.v->sort == S_REAL || v.v->sort == S_F32) {
    if (g_ieee && v.lo < -1e300) {   // unconstrained float: arbitrary finite pattern or moderate value
      double d; if (mode == 5) { uint64_t u = rng(); memcpy(&d, &u, 8); if (!std::isfinite(d)) d = 1; } else d = drawReal({v.v, -1e18, 1e18}, mode, gs) * (mode == 1 ? 1e9 : 1);
      s.r[v.v] = v.v->sort == S_F32 ? (double)(float)d : d;
    } else s.r[v.v] = drawReal(v, mode, gs);
  } else s.b[v.v] = drawBV(v.v, mode);
}
static void drawUnit(Sample& s, const std::vector<T>& u, int mode) {
  std::vector<double> x(u.size()); double n = 0; double sc = mode == 2 || mode == 3 ? pow(10, -9 * u01()) : 1;
  for (size_t i = 0; i < u.size(); i++) { x[i] = gauss() * (i + 1 < u.size() ? sc : 1); }
  if (mode == 4) for (auto& y : x) if (u01() < 0.4) y = 0;
  for (double y : x) n += y * y;
  if (n < 1e-30) { x.back() = 1; n = 0; for (double y : x) n += y * y; }
  for (size_t i = 0; i < u.size(); i++) s.r[u[i]] = x[i] / sqrt(n);
}
static void drawAll(Sample& s, int mode) {
  s = Sample(); double gs = pow(10, -9 * u01());
  for (auto& v : vars) if (v.unit < 0) drawOne(s, v, mode, gs);
  for (auto& u : units) drawUnit(s, u, mode);
}
static int evalPC(Sample& s, bool trust) {
  bool maybe = false;
  for (T c : g_pc) { int r = evalBool(c, s); if (r == 0) return 0; if (r < 0) maybe = true; }
  return maybe ? (trust ? 1 : -1) : 1;
}
static void collectPinned(std::set<T>& pin);
static void resample(size_t want, int tries) {
  std::set<T> pin; bool havePin = false;
  for (int i = 0; i < tries && pool.size() < want; i++) {
    Sample s;
    if (i % 4 == 3 && !pool.empty()) {   // keep what the path constrains, draw everything else anew
      if (!havePin) { collectPinned(pin); havePin = true; }
      s = pool[rng() % pool.size()]; s.memoR.clear(); s.memoB.clear();
      for (auto& v : vars) if (v.unit < 0 && !pin.count(v.v)) drawOne(s, v, v.v->sort == S_REAL ? rng() % 2 : rng() % 5, 1);
      for (auto& u : units) { bool p = false; for (T x : u) if (pin.count(x)) p = true; if (!p) drawUnit(s, u, 0); }
    } else if (i % 2 && !pool.empty()) {  // mutate an existing witness
      s = pool[rng() % pool.size()]; s.memoR.clear(); s.memoB.clear();
      if (vars.empty()) break;
      int k = 1 + rng() % 2;
      while (k--) { auto& v = vars[rng() % vars.size()]; if (v.unit >= 0) drawUnit(s, units[v.unit], rng() % 4); else drawOne(s, v, rng() % 5, 1); }
    } else drawAll(s, i % 6);
    if (evalPC(s, false) == 1) pool.push_back(std::move(s));
  }
}
void addVar(T v, double lo, double hi) {
  if (varIdx.count(v)) return;
  VarInfo vi{v, lo, hi}; vi.eps = v->name.compare(0, 4, "eps:") == 0;
  varIdx[v] = vars.size(); vars.push_back(vi);
  if (v->sort == S_REAL && !g_ieee) atomOfVar(v);
  int k = 0;
  for (auto& s : pool) drawOne(s, vi, k++ % 2 ? 0 : 1, 1);
  if (!g_ieee && v->sort == S_REAL) {
    mpq_class l(lo), h(hi);
    if (lo > -1e17) assume(rCmp(O_RLE, vi.eps ? mkReal(0) : mkDouble(lo), v));
    if (hi < 1e17) assume(rCmp(O_RLE, v, mkDouble(hi)));
    if (vi.eps) assume(rCmp(O_RLT, mkReal(0), v));
  }
}
void addUnit(const std::vector<T>& vs) {
  int u = units.size();
  for (T v : vs) { VarInfo vi{v, -1, 1}; vi.unit = u; varIdx[v] = vars.size(); vars.push_back(vi); atomOfVar(v); }
  units.push_back(vs);
  Poly p = pConst(1);
  for (size_t i = 0; i + 1 < vs.size(); i++) { Poly a = pAtom(atomOfVar(vs[i])); p = pSub(p, pMulRaw(a, a)); }
  addRelation(atomOfVar(vs.back()), p);
  for (T v : vs) g_unitLast[atomOfVar(v)] = atomOfVar(vs.back());
  int k = 0; for (auto& s : pool) drawUnit(s, vs, k++ % 2 ? 1 : 0);
}
static Sample lastGood; static bool haveGood = false;
static bool fromModel(const Model& m, Sample& s) {
  drawAll(s, 0);
  if (haveGood) { for (auto& kv : lastGood.r) s.r[kv.first] = kv.second; for (auto& kv : lastGood.b) s.b[kv.first] = kv.second; }   // constraints outside the solved slice stay satisfied
  for (auto& kv : m.r) s.r[kv.first] = kv.second;
  for (auto& kv : m.b) s.b[kv.first] = kv.second;
  for (auto& u : units) {
    bool any = false; for (T v : u) any |= m.r.count(v) > 0;
    if (!any) continue;
    for (T v : u) if (!m.r.count(v)) s.r[v] = 0;
    double n = 0; for (size_t i = 0; i + 1 < u.size(); i++) n += s.r[u[i]] * s.r[u[i]];
    double& l = s.r[u.back()];
    if (n <= 1) l = (m.r.count(u.back()) && l < 0 ? -1 : 1) * sqrt(1 - n);
    else { l = 0; n = sqrt(n); for (size_t i = 0; i + 1 < u.size(); i++) s.r[u[i]] /= n; }
  }
  s.memoR.clear(); s.memoB.clear();
  return true;
}
// ---- variable slicing
static std::unordered_map<T, std::vector<T>> varCache;
static const std::vector<T>& varsOf(T t) { auto it = varCache.find(t); if (it != varCache.end()) return it->second; std::vector<T> v; collectVars(t, v); return varCache[t] = v; }
static void collectPinned(std::set<T>& pin) {
  for (T c : g_pc) { if (c->op == O_RLE && c->a.size() == 2 && (isRC(c->a[0]) || isRC(c->a[1]))) { T o = isRC(c->a[0]) ? c->a[1] : c->a[0]; auto it = varIdx.find(o); if (it != varIdx.end() && vars[it->second].lo > -1e17) continue; } for (T v : varsOf(c)) pin.insert(v); }
}
static std::vector<T> slice(const std::vector<T>& goal) {
  std::unordered_set<T> vs;
  auto add = [&](T t) { for (T v : varsOf(t)) { vs.insert(v); auto it = varIdx.find(v); if (it != varIdx.end() && vars[it->second].unit >= 0) for (T u : units[vars[it->second].unit]) vs.insert(u); } };
  for (T g : goal) add(g);
  std::vector<T> out; std::vector<bool> used(g_pc.size());
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < g_pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false; for (T v : varsOf(g_pc[i])) if (vs.count(v)) { hit = true; break; }
      if (hit) { used[i] = true; add(g_pc[i]); ch = true; }
    }
  }
  for (size_t i = 0; i < g_pc.size(); i++) if (used[i]) out.push_back(g_pc[i]);
  return out;
}
static void emitPC(Emitter& e, const std::vector<T>& cs) { for (T c : cs) e.assertB(c); }
static void emitIeeeRanges(Emitter& e, const std::vector<T>& all) {
  if (!g_ieee) return;
  std::set<T> done;
  for (T c : all) for (T v : varsOf(c)) {
    if (v->sort != S_REAL && v->sort != S_F32) continue;
    if (!done.insert(v).second) continue;
    std::string f = e.re(v);
    e.assertS("(not (or (fp.isNaN " + f + ") (fp.isInfinite " + f + ")))");
    auto& vi = vars[varIdx[v]];
    if (vi.lo > -1e300 && v->sort == S_REAL) { std::string a = e.re(mkIeee(vi.lo)), b = e.re(mkIeee(vi.hi)); e.assertS("(fp.leq " + a + " " + f + ")"); e.assertS("(fp.leq " + f + " " + b + ")"); }
  }
}
#define oracleDepth g_quiet
static bool unsureSign = false;   // a sign question was answered 'unknown': normal forms may improve when the path grows
static SmtR solve(const std::vector<T>& extra, int timeout, Model* m) {
  std::vector<T> cs = slice(extra), all = cs; all.insert(all.end(), extra.begin(), extra.end());
  Emitter e; g_emit++;
  try {
    emitIeeeRanges(e, all); emitPC(e, cs); for (T x : extra) e.assertB(x);
    g_emit--;
  } catch (EngineError& x) { g_emit--; if (getenv("KSE_DEBUG")) fprintf(stderr, "solve: %s\n", x.what()); return SMT_UNKNOWN; }
  catch (...) { g_emit--; throw; }
  return smtRun(e, timeout, m);
}
static std::map<std::string, int> oracleCache;
static std::vector<T> splitPC;    // extra assumptions during case splits
int oracleSign(const Poly& p) {
  if (oracleDepth) return 0;
  std::string k = pKey(p) + "#" + std::to_string(g_pc.size()) + "#" + std::to_string(splitPC.size() ? splitPC.back()->id : 0);
  auto it = oracleCache.find(k); if (it != oracleCache.end()) return it->second;
  T t = polyToTerm(p); bool neg = false, pos = false;
  for (auto& s : pool) {
    bool ok = true; for (T c : splitPC) if (evalBool(c, s) == 0) ok = false;
    if (!ok) continue;
    double v = evalReal(t, s); if (v > 1e-12) pos = true; if (v < -1e-12) neg = true;
  }
  int r = 0;
  if (!(pos && neg)) {
    T ge = rCmp(O_RLE, mkReal(0), t), le = rCmp(O_RLE, t, mkReal(0));
    // stage: prove the likely one
    auto prove = [&](T c) {
      T n = mkNot(c); if (isBoolC(n)) return n->n1 == 0;
      Emitter e; std::vector<T> cs = slice({n});
      oracleDepth++;
      SmtR q;
      try {
        emitPC(e, cs); for (T x : splitPC) e.assertB(x);
        std::string ps = e.poly(p); e.assertS(c == ge ? "(< " + ps + " 0.0)" : "(> " + ps + " 0.0)");
        q = smtRun(e, 1500, nullptr);
      } catch (...) { oracleDepth--; throw; }
      oracleDepth--;
      return q == SMT_UNSAT;
    };
    if (!neg && prove(ge)) r = 1;
    else if (!pos && prove(le)) r = -1;
  }
  if (!r && !(pos && neg)) unsureSign = true;
  return oracleCache[k] = r;
}
static void deriveEquality(T c) {
  if (g_ieee) return;
  if (c->op == O_BAND) { deriveEquality(c->a[0]); deriveEquality(c->a[1]); return; }
  if (c->op != O_REQ) return;
  try {
    RF r = canon(rSub(c->a[0], c->a[1]));
    const Poly& p = r->n;
    if (p.zero() || p.isConst()) return;
    // sum of same-signed even monomials without constant: every monomial vanishes
    bool pos = true, neg = true, cst = false;
    for (auto& x : p.t) { if (x.first.empty()) cst = true; for (uint32_t m : x.first) if (m & 1) pos = neg = false; if (x.second > 0) neg = false; else pos = false; }
    if ((pos || neg) && !cst) {
      for (auto& x : p.t) if (x.first.size() == 1) { int a = x.first[0] >> 10; if (g_atoms[a].kind == A_VAR) addSubstitution(a, Poly()); }
      return;
    }
    // a single sqrt / variable power equal to zero
    if (p.t.size() == 1 && p.t[0].first.size() == 1) {
      int a = p.t[0].first[0] >> 10;
      if (g_atoms[a].kind == A_VAR) { addSubstitution(a, Poly()); return; }
      if (g_atoms[a].kind == A_SQRT) {
        Poly rad = g_atoms[a].rad; addSubstitution(a, Poly());
        deriveEquality(mk(O_REQ, S_BOOL, 0, {polyToTerm(rad), mkReal(0)}));
      }
      return;
    }
    // linear in a plain variable with a constant coefficient
    for (auto& x : p.t) {
      if (x.first.size() != 1 || (x.first[0] & 1023) != 1) continue;
      int a = x.first[0] >> 10;
      if (g_atoms[a].kind != A_VAR || g_atoms[a].hasRel) continue;
      bool other = false;
      for (auto& y : p.t) if (&y != &x) for (uint32_t m : y.first) { int b = m >> 10; if (b == a || g_atoms[b].kind != A_VAR) other = true; }
      if (other) continue;
      Poly v; for (auto& y : p.t) if (&y != &x) v.t.push_back(y);
      addSubstitution(a, pScale(v, -1 / x.second));
      return;
    }
  } catch (NeedSplit&) {} catch (PolyBudget&) {}
}
static void pushPC(T c) {
  if (c->op == O_BAND) { pushPC(c->a[0]); pushPC(c->a[1]); return; }
  if (!pcSet.insert(c).second) return;
  g_pc.push_back(c); if (unsureSign) { canonReset(); unsureSign = false; } deriveEquality(c);
}
static void filterPool(T c, Sample* extra) {
  if (!pool.empty()) { lastGood = pool[0]; haveGood = true; }
  std::vector<Sample> np;
  for (auto& s : pool) if (evalBool(c, s) == 1) np.push_back(std::move(s));
  pool.swap(np);
  if (extra) pool.push_back(*extra);
  poolLost = pool.empty();
  if (pool.size() < 3) resample(4, pool.empty() ? 120 : 40);
  if (!pool.empty()) poolLost = false;
}
static bool timeUp() { return sh->stop || std::chrono::duration<double>(std::chrono::steady_clock::now() - t00).count() > g_opt.wall; }
static int known(T c) {
  if (isBoolC(c)) return c->n1;
  if (pcSet.count(c)) return 1;
  T n = mkNot(c); if (pcSet.count(n)) return 0;
  if (!g_ieee && c->op == O_RLE) { if (pcSet.count(rCmp(O_RLT, c->a[0], c->a[1])) || pcSet.count(rCmp(O_REQ, c->a[0], c->a[1]))) return 1; }
  if (!g_ieee && c->op == O_RLT) { if (pcSet.count(rCmp(O_REQ, c->a[0], c->a[1]))) return 0; }
  if (!g_ieee && c->op == O_REQ) { if (pcSet.count(rCmp(O_RLT, c->a[0], c->a[1])) || pcSet.count(rCmp(O_RLT, c->a[1], c->a[0]))) return 0; }
  return -1;
}
// canonical constant folding of a real comparison
static int foldCmp(T c, bool oracle = false) {
  if (g_ieee) return -1;
  if (c->op == O_NOT) { int r = foldCmp(c->a[0], oracle); return r < 0 ? r : !r; }
  if (c->op != O_RLT && c->op != O_RLE && c->op != O_REQ) return -1;
  try {
    g_polyBudget = 200000; oracleDepth += !oracle;
    RF r = canon(rSub(c->a[0], c->a[1]));
    oracleDepth -= !oracle; g_polyBudget = 0;
    if (r->n.isConst() && r->d.empty()) { mpq_class v = r->n.cst(); return c->op == O_RLT ? v < 0 : c->op == O_RLE ? v <= 0 : v == 0; }
  } catch (NeedSplit&) { oracleDepth -= !oracle; } catch (PolyBudget&) { oracleDepth -= !oracle; }
  catch (EngineError&) { oracleDepth -= !oracle; }
  g_polyBudget = 0;
  return -1;
}
// fold with case splits: the answer counts only if every feasible case agrees
static int foldSplit(T c, int depth) {
  if (g_ieee) return -1;
  if (c->op == O_NOT) { int r = foldSplit(c->a[0], depth); return r < 0 ? r : !r; }
  if (c->op != O_RLT && c->op != O_RLE && c->op != O_REQ) return -1;
  T cond = nullptr;
  try {
    g_polyBudget = 200000;
    RF r = canon(rSub(c->a[0], c->a[1])); g_polyBudget = 0;
    if (r->n.isConst() && r->d.empty()) { mpq_class v = r->n.cst(); return c->op == O_RLT ? v < 0 : c->op == O_RLE ? v <= 0 : v == 0; }
    return -1;
  } catch (NeedSplit& s) { cond = s.cond; } catch (PolyBudget&) {} catch (EngineError&) {}
  g_polyBudget = 0;
  if (!cond || depth > 3) return -1;
  int res = -2;
  for (int side = 0; side < 2; side++) {
    T x = side ? cond : mkNot(cond);
    std::vector<T> q = splitPC; q.push_back(x);
    bool wit = false; for (auto& sm : pool) { bool ok = true; for (T y : q) if (evalBool(y, sm) != 1) ok = false; if (ok) wit = true; }
    if (!wit && solve(q, g_opt.bt, nullptr) == SMT_UNSAT) continue;
    std::vector<T> savePC = g_pc; auto saveSet = pcSet;
    g_pc.push_back(x); pcSet.insert(x); splitPC.push_back(x); canonReset();
    T cc = c;
    if (cond->op != O_RLE || cond->a.empty()) { std::map<T, T> m; m[cond] = mkBool(side); cc = subst(c, m); }
    int k = -1;
    try { k = isBoolC(cc) ? cc->n1 : foldSplit(cc, depth + 1); } catch (...) { g_pc = savePC; pcSet = saveSet; splitPC.pop_back(); canonReset(); throw; }
    g_pc = savePC; pcSet = saveSet; splitPC.pop_back(); canonReset();
    if (k < 0) return -1;
    if (res >= 0 && res != k) return -1;
    res = k;
  }
  return res == -2 ? -1 : res;
}
// a comparison of quantities depending on an infinitesimal: settled by their values at zero where these differ
static int decideEps(T c) {
  std::map<T, T> m; for (auto& v : vars) if (v.eps) m[v.v] = mkReal(0);
  if (m.empty() || g_ieee) return -1;
  T x = c; if (x->op == O_NOT) x = x->a[0];
  if (x->op != O_RLT && x->op != O_RLE && x->op != O_REQ) return -1;
  T a = subst(x->a[0], m), b = subst(x->a[1], m); if (a == x->a[0] && b == x->a[1]) return -1;
  if (isSpecial(a) || isSpecial(b)) return -1;
  T e = rCmp(O_REQ, a, b); int k = isBoolC(e) ? (int)e->n1 : foldCmp(e);
  if (k < 0) k = solve({e}, g_opt.bt, nullptr) == SMT_UNSAT ? 0 : 1;
  if (k) return -1;
  T c0 = rCmp(x->op, a, b); if (c->op == O_NOT) c0 = mkNot(c0);
  return isBoolC(c0) ? (int)c0->n1 : (int)decide(c0);
}
bool decide(T c) {
  int k = known(c); if (k >= 0) return k;
  k = decideEps(c); if (k >= 0) return k;
  k = foldCmp(c); if (k >= 0) return k;
  if (c->op == O_BAND && !g_ieee) { return decide(c->a[0]) && decide(c->a[1]); }
  T nc = mkNot(c);
  bool wt = false, wf = false;
  for (auto& s : pool) { int r = evalBool(c, s); if (r == 1) wt = true; else if (r == 0) wf = true; }
  if (!(wt && wf)) {   // a little extra search before asking the solver
    size_t n = pool.size(); resample(n + 3, 24);
    for (size_t i = n; i < pool.size(); i++) { int r = evalBool(c, pool[i]); if (r == 1) wt = true; else if (r == 0) wf = true; }
  }
  if (!(wt && wf)) { k = foldSplit(c, 0); if (k >= 0) { pcSet.insert(k ? c : nc); return k; } }
  Sample ms[2]; bool has[2] = {false, false}; int ft = wt ? 1 : -1, ff = wf ? 1 : -1;
  if (ft < 0) { Model m; SmtR r = solve({c}, g_opt.bt, &m); if (r == SMT_UNSAT) ft = 0; else if (r == SMT_SAT) { ft = 1; fromModel(m, ms[0]); has[0] = evalPC(ms[0], true) != 0 && evalBool(c, ms[0]) != 0; } }
  if (ff < 0 && ft != 0) { Model m; SmtR r = solve({nc}, g_opt.bt, &m); if (r == SMT_UNSAT) ff = 0; else if (r == SMT_SAT) { ff = 1; fromModel(m, ms[1]); has[1] = evalPC(ms[1], true) != 0 && evalBool(nc, ms[1]) != 0; } }
  if (ft == 0) { pcSet.insert(nc); return false; }
  if (ff == 0) { pcSet.insert(c); return true; }
  if (timeUp()) throw PathEnd{"timeout"};
  if (sh->paths.fetch_add(1) > g_opt.maxPaths) throw PathEnd{"path limit"};
  forks++;
  // child explores the true side
  int a = sh->active.fetch_add(1); bool conc = a < g_opt.jobs;
  if (!conc) sh->active.fetch_sub(1);
  pid_t p = fork();
  if (p < 0) throw PathEnd{"fork failed"};
  bool side;
  if (p == 0) {
    holdsSlot = conc; unreaped = 0; smtAfterFork(); rng.seed(rng() ^ getpid());
    g_smt = SmtStats(); g_instr = 0; forks = 0;
    side = true;
  } else {
    if (!conc) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) logLine("{\"t\":\"crash\",\"status\":" + std::to_string(st) + "}"); }
    else unreaped++;
    side = false;
  }
  T x = side ? c : nc;
  pushPC(x);
  filterPool(x, has[side ? 0 : 1] ? &ms[side ? 0 : 1] : nullptr);
  return side;
}
void assume(T c) {
  if (isBoolC(c)) { if (!c->n1) throw PathEnd{"assume"}; return; }
  int k = known(c); if (k == 1) return; if (k == 0) throw PathEnd{"assume"};
  k = foldCmp(c); if (k == 1) return; if (k == 0) throw PathEnd{"assume"};
  bool had = !pool.empty();
  std::vector<Sample> saved;
  pushPC(c); filterPool(c, nullptr);
  if (pool.empty()) {
    resample(2, 600);
    if (pool.empty()) {
      Model m; SmtR r = solve({c}, g_opt.bt * 3, &m);
      if (r == SMT_UNSAT) throw PathEnd{"assume"};
      if (r == SMT_SAT) { Sample s; fromModel(m, s); if (evalPC(s, true)) pool.push_back(s); }
    }
    if (!pool.empty()) poolLost = false;
  }
  (void)had;
}
static bool leaves(T t, std::vector<T>& out, int& n) { if (n++ > 200) return false; if (t->op == O_ITE) return leaves(t->a[1], out, n) && leaves(t->a[2], out, n); if (!isBVC(t)) return false; for (T o : out) if (o == t || o->z == t->z) return true; out.push_back(t); return true; }
uint64_t concretize(T bv, const char* why) {
  if (bv->op == O_ITE) { std::vector<T> l; int n = 0; if (leaves(bv, l, n)) for (size_t i = 0; i < l.size(); i++) if (i + 1 == l.size() || decide(bvCmp(O_EQ, bv, l[i]))) return mpz_get_ui(l[i]->z.get_mpz_t()); }
  for (int i = 0; i < 512; i++) {
    if (isBVC(bv)) return mpz_get_ui(bv->z.get_mpz_t());
    uint64_t v; bool got = false;
    for (auto& s : pool) { mpz_class z = evalBV(bv, s); if (!s.bad) { v = mpz_get_ui(z.get_mpz_t()); got = true; break; } s.bad = false; }
    if (!got) {
      Model m; SmtR r = solve({bvCmp(O_EQ, bv, mkVar("concretise!", S_BV, bv->w))}, g_opt.bt * 3, &m); (void)r;
      Sample s; fromModel(m, s); v = mpz_get_ui(evalBV(bv, s).get_mpz_t());
    }
    if (decide(bvCmp(O_EQ, bv, mkBV64(bv->w, v)))) return v;
  }
  throw EngineError(std::string("cannot concretise ") + why + " " + showTerm(bv, 5).substr(0, 300));
}
// mode 0 floor 1 ceil 2 trunc 3 round-half-away 4 nearest-even ; returns an integer constant term
T concretizeReal(T r, int mode) {
  if (isRC(r)) {
    mpz_class z; mpq_class q = r->q;
    if (mode == 2) mpz_tdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    else if (mode == 1) mpz_cdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    else if (mode == 0) mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    else { mpq_class h = abs(q) + mpq_class(1, 2); mpz_fdiv_q(z.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t()); if (mode == 4 && mpq_class(z) == h && mpz_odd_p(z.get_mpz_t())) z -= 1; if (q < 0) z = -z; }
    return mkReal(mpq_class(z));
  }
  for (int i = 0; i < 200; i++) {
    double x = 0; bool got = false;
    for (auto& s : pool) { x = evalReal(r, s); if (std::isfinite(x)) { got = true; break; } }
    if (!got) { Model m; solve({rCmp(O_RLE, r, mkReal(1000000)), rCmp(O_RLE, mkReal(-1000000), r)}, g_opt.bt, &m); Sample s; fromModel(m, s); x = evalReal(r, s); if (!std::isfinite(x)) x = 0; }
    mpz_class k; T c;
    auto R = [](mpq_class q) { return mkReal(q); };
    switch (mode) {
      case 0: k = mpz_class(floor(x)); c = mkAnd(rCmp(O_RLE, R(k), r), rCmp(O_RLT, r, R(k + 1))); break;
      case 1: k = mpz_class(ceil(x)); c = mkAnd(rCmp(O_RLT, R(k - 1), r), rCmp(O_RLE, r, R(k))); break;
      case 2: k = mpz_class(trunc(x));
        if (k == 0) c = mkAnd(rCmp(O_RLT, R(-1), r), rCmp(O_RLT, r, R(1)));
        else if (k > 0) c = mkAnd(rCmp(O_RLE, R(k), r), rCmp(O_RLT, r, R(k + 1)));
        else c = mkAnd(rCmp(O_RLT, R(k - 1), r), rCmp(O_RLE, r, R(k)));
        break;
      default: k = mpz_class(round(x)); {
        mpq_class h(1, 2);
        if (k > 0 || (k == 0)) c = mkAnd(rCmp(k == 0 ? O_RLT : O_RLE, R(k - h), r), rCmp(O_RLT, r, R(k + h)));
        else c = mkAnd(rCmp(O_RLT, R(k - h), r), rCmp(O_RLE, r, R(k + h)));
      }
    }
    if (decide(c)) return mkReal(mpq_class(k));
  }
  throw EngineError("cannot concretise a real value");
}

// ---------------------------------------------------------------- checks
static std::string sampleJson(Sample& s) {
  std::string r = "{"; bool first = true; char b[64];
  for (auto& v : vars) {
    if (!first) r += ","; first = false;
    r += jstr(v.v->name) + ":";
    if (v.v->sort == S_REAL || v.v->sort == S_F32) { auto it = s.r.find(v.v); snprintf(b, 64, "\"%a\"", it == s.r.end() ? 0.0 : v.eps ? 0.0 : it->second); r += b; }
    else { auto it = s.b.find(v.v); snprintf(b, 64, "\"%llu\"", (unsigned long long)(it == s.b.end() ? 0 : it->second)); r += b; }
  }
  return r + "}";
}
static uint64_t nchk = 0;
struct ChkVal { std::string label; double a, b; bool isBool; T ta, tb; };
static std::vector<std::pair<std::string, std::pair<T, T>>> chkLog;
static void report(const std::string& label, const char* verdict, const char* how, double ms, Sample* s, const std::string& extra = "") {
  std::string l = "{\"t\":\"check\",\"label\":" + jstr(label) + ",\"verdict\":\"" + verdict + "\",\"how\":\"" + how + "\",\"ms\":" + std::to_string(ms);
  if (s) l += ",\"sample\":" + sampleJson(*s);
  if (!extra.empty()) l += ",\"info\":" + jstr(extra);
  logLine(l + "}");
  nchk++;
}
struct Timer { std::chrono::steady_clock::time_point t = std::chrono::steady_clock::now(); double ms() { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t).count(); } };

static void discoverSamples(int n) { resample(pool.size() + n, n * 4); }

void doCheck(T c, const std::string& label) {
  Timer tm; chkLog.push_back({label, {c, nullptr}});
  if (isBoolC(c)) {
    if (c->n1) { report(label, "proved", "const", tm.ms(), nullptr); return; }
    if (pool.empty()) resample(1, 500);
    if (!pool.empty()) { discoverSamples(10); for (size_t i = 0; i < pool.size() && i < 3; i++) report(label, "cex", "const", tm.ms(), &pool[i]); }
    else {
      Model m; SmtR r = solve({mkBool(true)}, g_opt.qt, &m);
      std::vector<T> all = g_pc; Emitter e; 
      try { emitIeeeRanges(e, all); emitPC(e, all); r = smtRun(e, g_opt.qt, &m); } catch (...) { r = SMT_UNKNOWN; }
      if (r == SMT_UNSAT) { throw PathEnd{"infeasible"}; }
      Sample s; fromModel(m, s);
      if (r == SMT_SAT) report(label, "cex", "const", tm.ms(), &s); else report(label, "undecided", "const-false on an unwitnessed path", tm.ms(), &s);
    }
    return;
  }
  int kn = known(c); if (kn == 1) { report(label, "proved", "path", tm.ms(), nullptr); return; }
  T nc = mkNot(c);
  Model m; SmtR r = solve({nc}, g_opt.qt, &m);
  if (r == SMT_UNSAT) { report(label, "proved", "smt", tm.ms(), nullptr); return; }
  if (r == SMT_SAT) { Sample s; fromModel(m, s); if (evalBool(c, s) != 1) {
    discoverSamples(20); int n = 0; for (auto& x : pool) if (n < 2 && evalBool(c, x) == 0) { n++; report(label, "cex", "smt+witness", tm.ms(), &x); }   // interior points replay better than boundary models
    report(label, "cex", "smt", tm.ms(), &s); return; } }
  discoverSamples(30);
  for (auto& s : pool) if (evalBool(c, s) == 0) { report(label, "cex", "solver-unknown/witness", tm.ms(), &s); return; }
  report(label, "undecided", "smt", tm.ms(), pool.empty() ? nullptr : &pool[0], showTerm(c, 5));
}
static bool closeEnough(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b))); }

// returns 1 proved, 0 not proved (nz: canonical difference nonzero), -1 unknown
static int proveEq(T a, T b, int depth, std::string& how, Poly* nzOut) {
  try {
    g_polyBudget = g_opt.thorough ? 400000000ull : 60000000ull;
    RF ra = canon(a), rb = canon(b);
    // shared denominator factors cancel
    Poly n1 = ra->n, n2 = rb->n;
    std::map<int, int> d1 = ra->d, d2 = rb->d;
    for (auto& f : d1) { auto it = d2.find(f.first); if (it != d2.end()) { int k = std::min(f.second, it->second); f.second -= k; it->second -= k; } }
    auto mulDen = [](Poly p, std::map<int, int>& d) { for (auto& f : d) for (int i = 0; i < f.second; i++) p = pMulRaw(p, factorPoly(f.first)); return p; };
    Poly l = mulDen(n1, d2), r = mulDen(n2, d1);
    Poly diffp = pSub(l, r);
    Cof cof; Poly red = pReduce(diffp, &cof);
    g_polyBudget = 0;
    if (!red.zero()) { if (nzOut) *nzOut = red; return 0; }
    // certificate query:  not( l - r = sum q_i * rel_i )  over free reals
    Emitter e; e.lemmas = false;
    struct Free { static void decl(Emitter& e, const Poly& p, std::set<int>& d) { for (auto& x : p.t) for (uint32_t m : x.first) if (d.insert(m >> 10).second) { e.out += "(declare-const a" + std::to_string(m >> 10) + " Real)\n"; e.atomDone[m >> 10] = true; } } };
    std::set<int> dcl; Free::decl(e, l, dcl); Free::decl(e, r, dcl);
    std::string rhs; int nr = 0;
    for (auto& c : cof) {
      if (c.second.zero()) continue;
      int at = c.first; Poly rel; Poly lead;
      if (at >= 0) { lead = pMulRaw(pAtom(at), pAtom(at)); rel = g_atoms[at].rel; }
      else { at = -1 - at; lead = pAtom(at); rel = pReduce(pAtom(at)); }
      Free::decl(e, c.second, dcl); Free::decl(e, rel, dcl); Free::decl(e, lead, dcl);
      rhs += " (* " + e.poly(c.second) + " (- " + e.poly(lead) + " " + e.poly(rel) + "))"; nr++;
    }
    std::string sl = e.poly(l), sr = e.poly(r);
    e.assertS("(not (= (- " + sl + " " + sr + ") " + (nr == 0 ? "0.0" : nr == 1 ? rhs : "(+" + rhs + ")") + "))");
    SmtR q = smtRun(e, g_opt.qt * 4, nullptr);
    how = "smt-certificate";
    if (q == SMT_UNSAT) return 1;
    return -1;
  } catch (NeedSplit& s) {
    g_polyBudget = 0;
    if (depth > 6) { how = "split depth"; return -1; }
    int res = 1;
    for (int side = 0; side < 2; side++) {
      T c = side ? s.cond : mkNot(s.cond);
      std::vector<T> q = splitPC; q.push_back(c);
      bool wit = false; for (auto& sm : pool) { bool ok = true; for (T x : q) if (evalBool(x, sm) != 1) ok = false; if (ok) wit = true; }
      if (!wit && solve(q, g_opt.bt, nullptr) == SMT_UNSAT) continue;
      // temporarily extend the path
      std::vector<T> savePC = g_pc; auto saveSet = pcSet;
      g_pc.push_back(c); pcSet.insert(c); splitPC.push_back(c); canonReset();
      T aa = a, bb = b;
      if (s.cond->op != O_RLE || s.cond->a.empty()) { std::map<T, T> m; m[s.cond] = mkBool(side); aa = subst(a, m); bb = subst(b, m); }
      int k;
      try { k = proveEq(aa, bb, depth + 1, how, nzOut); } catch (...) { g_pc = savePC; pcSet = saveSet; splitPC.pop_back(); canonReset(); throw; }
      g_pc = savePC; pcSet = saveSet; splitPC.pop_back(); canonReset();
      if (k != 1) res = k == 0 && res != -1 ? 0 : k;
      if (k == 0) return 0;
    }
    how = "smt-certificate/split";
    return res;
  } catch (PolyBudget&) { g_polyBudget = 0; how = "budget"; return -1; }
}
void doCheckEq(T a, T b, const std::string& label) {
  if (g_ieee) { T c = mkOr(rCmp(O_REQ, a, b), mkAnd(mk(O_FISNAN, S_BOOL, 0, {a}), mk(O_FISNAN, S_BOOL, 0, {b}))); if (isRC(a) && isRC(b)) c = mkBool(a->d == b->d || (a->d != a->d && b->d != b->d)); doCheck(c, label); return; }
  Timer tm; chkLog.push_back({label, {a, b}});
  auto findDiff = [&](double tol) -> Sample* {
    Sample* best = nullptr; double bd = 0;
    for (auto& s : pool) {
      double x = evalReal(a, s), y = evalReal(b, s); if (std::isfinite(x) != std::isfinite(y)) { if (!best) best = &s; continue; }
      if (std::isfinite(x) && !closeEnough(x, y, tol)) { double d = std::fabs(x - y) / (1 + std::max(std::fabs(x), std::fabs(y))); if (d > bd) { bd = d; best = &s; } }
    }
    return best;
  };
  if (isSpecial(a) || isSpecial(b)) { bool eq = a == b; if (eq) report(label, "proved", "const", tm.ms(), nullptr); else report(label, "cex", "special", tm.ms(), pool.empty() ? nullptr : &pool[0]); return; }
  Sample* s0 = findDiff(1e-5);
  std::string how; Poly nz; int k = 0;
  if (!s0) {
    k = proveEq(a, b, 0, how, &nz);
    if (k == 1) { report(label, "proved", how.c_str(), tm.ms(), nullptr); return; }
    discoverSamples(40); s0 = findDiff(1e-5);
  }
  auto dbl = [](double v) { char t[40]; snprintf(t, sizeof t, "%.17g", v); return std::string(t); };
  if (s0) {
    // ask the solver for a model; fall back to the witness pinned to its rational values
    report(label, "cex", "witness", tm.ms(), s0, "a=" + dbl(evalReal(a, *s0)) + " b=" + dbl(evalReal(b, *s0)));
    return;
  }
  if (k == 0) {   // the exact normal forms differ: accept a small difference that stands out of the rounding noise
    for (auto& s : pool) {
      double x = evalReal(a, s), y = evalReal(b, s); if (!std::isfinite(x) || !std::isfinite(y) || x == y) continue;
      double noise = 0;
      for (int i = 0; i < 4; i++) { Sample p = s; p.memoR.clear(); p.memoB.clear(); for (auto& v : p.r) v.second *= 1 + (double)((int)(rng() % 9) - 4) * 2.3e-16; double px = evalReal(a, p), py = evalReal(b, p); noise = std::max(noise, std::fabs((px - py) - (x - y))); }
      if (std::fabs(x - y) > 1e3 * noise + 1e-12 && std::fabs(x - y) > 1e-8 * std::max(std::fabs(x), std::fabs(y))) { report(label, "cex", "witness-small", tm.ms(), &s, "a=" + dbl(x) + " b=" + dbl(y)); return; }
    }
  }
  // no numeric difference seen: let the solver decide the inequality itself
  Emitter e; SmtR r = SMT_UNKNOWN; Model m;
  try {
    std::vector<T> cs = slice({a, b}); g_emit++;
    emitPC(e, cs);
    if (k == 0 && !nz.zero()) { std::string p = e.poly(nz); e.assertS("(not (= " + p + " 0.0))"); }
    else { e.raw = true; std::string x = e.re(a), y = e.re(b); e.assertS("(not (= " + x + " " + y + "))"); }
    g_emit--;
    r = smtRun(e, g_opt.qt * 2, &m);
  } catch (EngineError&) { g_emit--; } catch (NeedSplit&) { g_emit--; }
  if (r == SMT_UNSAT) { report(label, "proved", "smt-nlsat", tm.ms(), nullptr); return; }
  if (r == SMT_SAT) {
    Sample s; fromModel(m, s); double x = evalReal(a, s), y = evalReal(b, s);
    if (evalPC(s, true) && !closeEnough(x, y, 1e-6)) { report(label, "cex", "smt", tm.ms(), &s, "a=" + dbl(x) + " b=" + dbl(y)); return; }
  }
  report(label, "undecided", how.empty() ? "nonzero normal form, no witness" : how.c_str(), tm.ms(), pool.empty() ? nullptr : &pool[0], pShow(nz, 10) + " || " + showTerm(a, 4) + " =?= " + showTerm(b, 4));
}
void reportViolation(const std::string& kind, const std::string& msg) {
  if (pool.empty()) resample(1, 500);
  std::string verdict = "cex"; Sample s; Sample* sp = nullptr;
  if (!pool.empty()) sp = &pool[0];
  else {
    Model m; Emitter e; SmtR r = SMT_UNKNOWN;
    try { emitIeeeRanges(e, g_pc); emitPC(e, g_pc); r = smtRun(e, g_opt.qt, &m); } catch (...) {}
    if (r == SMT_UNSAT) { finishPath("infeasible", ""); return; }
    fromModel(m, s); sp = &s; if (r != SMT_SAT) verdict = "undecided";
  }
  report(kind + ": " + msg, verdict.c_str(), kind.c_str(), 0, sp, g_where);
}
void waitChildren() { int st; while (unreaped > 0) { pid_t p = wait(&st); if (p < 0) break; unreaped--; if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) logLine("{\"t\":\"crash\",\"status\":" + std::to_string(st) + "}"); } }
void finishPath(const std::string& status, const std::string& msg) {
  if (getenv("KSE_PC") && pool.empty()) for (T c : g_pc) fprintf(stderr, "PC %s\n", showTerm(c, 8).c_str());
  std::string l = "{\"t\":\"path\",\"status\":" + jstr(status) + ",\"msg\":" + jstr(msg) + ",\"pc\":" + std::to_string(g_pc.size()) + ",\"instr\":" + std::to_string(g_instr) + ",\"checks\":" + std::to_string(nchk) +
    ",\"forks\":" + std::to_string(forks) + ",\"q\":" + std::to_string(g_smt.queries) + ",\"unsat\":" + std::to_string(g_smt.unsat) + ",\"sat\":" + std::to_string(g_smt.sat) + ",\"unknown\":" + std::to_string(g_smt.unknown) + ",\"ms\":" + std::to_string(g_smt.ms) +
    ",\"witnessed\":" + (pool.empty() ? "false" : "true");
  if (status == "ok" && !pool.empty()) {
    // values of the checks on a concrete sample, for the comparison with the native run
    size_t bi = 0; Sample& s = pool[bi]; s.bad = false; s.memoR.clear(); s.memoB.clear();
    l += ",\"sample\":" + sampleJson(s) + ",\"vals\":[";
    bool first = true; char b[80];
    for (auto& c : chkLog) {
      if (!first) l += ","; first = false;
      if (c.second.second) { double x = evalReal(c.second.first, s), y = evalReal(c.second.second, s); snprintf(b, 80, "[\"%.17g\",\"%.17g\"]", x, y); l += b; }
      else { int v = evalBool(c.second.first, s); if (s.bad) v = -1; l += std::to_string(v); }
      if (l.size() > 200000) break;
    }
    l += "]";
  }
  for (auto& n : g_notes) l += "," + jstr(n.first) + ":" + jstr(n.second);
  if (getenv("KSE_PC") ) { std::string p; for (T c : g_pc) p += showTerm(c, 4) + " & "; l += ",\"pcs\":" + jstr(p); }
  logLine(l + "}");
  if (holdsSlot) sh->active.fetch_sub(1);
  waitChildren();
}
