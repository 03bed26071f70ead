#include "smt.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <poll.h>
#include <cstring>
#include <chrono>
#include <cmath>
#include <fcntl.h>
#include <sstream>

SmtStats g_smt;
std::map<int, int> g_unitLast;
std::string g_smtCmd = "z3-new -in -smt2";
std::string g_smtDump;
static pid_t zpid = 0; static int zin = -1, zout = -1; static std::string zbuf; static pid_t zowner = 0;

std::string qStr(const mpq_class& q) {
  std::string n = mpz_class(abs(q.get_num())).get_str() + ".0", s = n;
  if (q.get_den() != 1) s = "(/ " + n + " " + q.get_den().get_str() + ".0)";
  return q < 0 ? "(- " + s + ")" : s;
}
static std::string sym(const std::string& n) { return "|" + n + "|"; }
static std::string f64c(double d) { uint64_t u; memcpy(&u, &d, 8); char b[100]; snprintf(b, 100, "((_ to_fp 11 53) #x%016llx)", (unsigned long long)u); return b; }
static std::string f32c(double d) { float f = d; uint32_t u; memcpy(&u, &f, 4); char b[100]; snprintf(b, 100, "((_ to_fp 8 24) #x%08x)", u); return b; }
static std::string bvc(const mpz_class& z, unsigned w) { return "(_ bv" + z.get_str() + " " + std::to_string(w) + ")"; }

void Emitter::var(T v) {
  if (!varSet.insert(v).second) return;
  vars.push_back(v);
  std::string s;
  if (v->sort == S_BOOL) s = "Bool";
  else if (v->sort == S_BV) s = "(_ BitVec " + std::to_string(v->w) + ")";
  else if (g_ieee) s = v->sort == S_F32 ? "(_ BitVec 32)" : "(_ BitVec 64)";
  else s = "Real";
  out += "(declare-const " + sym(v->name) + " " + s + ")\n";
  if (!g_ieee && v->sort == S_REAL && lemmas) { auto u = g_unitLast.find(atomOfVar(v)); if (u != g_unitLast.end()) atom(u->second); }
}
std::string Emitter::def(T t, const std::string& sort, const std::string& body) {
  std::string n = "n" + std::to_string(t->id);
  out += "(define-fun " + n + " () " + sort + " " + body + ")\n";
  node[t] = n;
  return n;
}
std::string Emitter::bv(T t) {
  if (t->op == O_BVC) return bvc(t->z, t->w);
  if (t->op == O_VAR) { var(t); return sym(t->name); }
  auto it = node.find(t); if (it != node.end()) return it->second;
  std::string s; auto A = [&](int i) { return bv(t->a[i]); };
  const char* o = nullptr;
  switch (t->op) {
    case O_ADD: o = "bvadd"; break; case O_SUB: o = "bvsub"; break; case O_MUL: o = "bvmul"; break; case O_UDIV: o = "bvudiv"; break;
    case O_SDIV: o = "bvsdiv"; break; case O_UREM: o = "bvurem"; break; case O_SREM: o = "bvsrem"; break; case O_AND: o = "bvand"; break;
    case O_OR: o = "bvor"; break; case O_XOR: o = "bvxor"; break; case O_SHL: o = "bvshl"; break; case O_LSHR: o = "bvlshr"; break;
    case O_ASHR: o = "bvashr"; break; case O_CONCAT: o = "concat"; break;
    case O_EXTRACT: s = "((_ extract " + std::to_string(t->n1) + " " + std::to_string(t->n2) + ") " + A(0) + ")"; break;
    case O_ZEXT: s = "((_ zero_extend " + std::to_string(t->w - t->a[0]->w) + ") " + A(0) + ")"; break;
    case O_SEXT: s = "((_ sign_extend " + std::to_string(t->w - t->a[0]->w) + ") " + A(0) + ")"; break;
    case O_ITE: { std::string c = b(t->a[0]), x = A(1), y = A(2); s = "(ite " + c + " " + x + " " + y + ")"; break; }
    case O_BITS: {
      if (!g_ieee) throw EngineError("bits of a real reached the solver");
      // fresh bit-vector constrained to denote the float
      std::string f = re(t->a[0]); std::string n = "bits" + std::to_string(t->id);
      out += "(declare-const " + n + " (_ BitVec " + std::to_string(t->w) + "))\n(assert (= ((_ to_fp " + (t->w == 32 ? "8 24" : "11 53") + ") " + n + ") " + f + "))\n";
      node[t] = n; return n;
    }
    case O_FP2SI: s = "((_ fp.to_sbv " + std::to_string(t->w) + ") RTZ " + re(t->a[0]) + ")"; break;
    case O_FP2UI: s = "((_ fp.to_ubv " + std::to_string(t->w) + ") RTZ " + re(t->a[0]) + ")"; break;
    default: throw EngineError("smt bv op");
  }
  if (o) { std::string x = A(0), y = A(1); s = std::string("(") + o + " " + x + " " + y + ")"; }
  return def(t, "(_ BitVec " + std::to_string(t->w) + ")", s);
}
std::string Emitter::b(T t) {
  if (t->op == O_BOOLC) return t->n1 ? "true" : "false";
  if (t->op == O_VAR) { var(t); return sym(t->name); }
  auto it = node.find(t); if (it != node.end()) return it->second;
  std::string s; const char* o = nullptr; bool isb = false;
  switch (t->op) {
    case O_NOT: s = "(not " + b(t->a[0]) + ")"; break;
    case O_BAND: o = "and"; isb = true; break; case O_BOR: o = "or"; isb = true; break; case O_BXOR: o = "xor"; isb = true; break;
    case O_ITE: { std::string c = b(t->a[0]), x = b(t->a[1]), y = b(t->a[2]); s = "(ite " + c + " " + x + " " + y + ")"; break; }
    case O_EQ: o = "="; break; case O_ULT: o = "bvult"; break; case O_ULE: o = "bvule"; break; case O_SLT: o = "bvslt"; break; case O_SLE: o = "bvsle"; break;
    case O_FISNAN: s = "(fp.isNaN " + re(t->a[0]) + ")"; break;
    case O_RLT: case O_RLE: case O_REQ: {
      const char* op = t->op == O_RLT ? "<" : t->op == O_RLE ? "<=" : "=";
      if (g_ieee) { std::string x = re(t->a[0]), y = re(t->a[1]); s = std::string("(") + (t->op == O_RLT ? "fp.lt" : t->op == O_RLE ? "fp.leq" : "fp.eq") + " " + x + " " + y + ")"; break; }
      bool done = false;
      if (!raw && useCanonCmp) {
        try {
          RF r = canon(rSub(t->a[0], t->a[1]));
          Poly p = r->n;
          if (t->op != O_REQ) for (auto& f : r->d) if (f.second & 1) p = pMul(p, factorPoly(f.first));
          std::string ps = poly(p);
          s = std::string("(") + op + " " + ps + " 0.0)"; done = true;
        } catch (NeedSplit&) {} catch (PolyBudget&) {}
      }
      if (!done) { std::string x = re(t->a[0]), y = re(t->a[1]); s = std::string("(") + op + " " + x + " " + y + ")"; }
      break;
    }
    default: throw EngineError("smt bool op");
  }
  if (o) { std::string x = isb ? b(t->a[0]) : bv(t->a[0]), y = isb ? b(t->a[1]) : bv(t->a[1]); s = std::string("(") + o + " " + x + " " + y + ")"; }
  return def(t, "Bool", s);
}
std::string Emitter::re(T t) {
  if (t->op == O_RC) return g_ieee ? (t->sort == S_F32 ? f32c(t->d) : f64c(t->d)) : qStr(t->q);
  if (t->op == O_VAR) {
    var(t);
    if (g_ieee) return std::string("((_ to_fp ") + (t->sort == S_F32 ? "8 24" : "11 53") + ") " + sym(t->name) + ")";
    return sym(t->name);
  }
  auto it = node.find(t); if (it != node.end()) return it->second;
  std::string s; auto A = [&](int i) { return re(t->a[i]); };
  if (g_ieee) {
    std::string sort = t->sort == S_F32 ? "(_ FloatingPoint 8 24)" : "(_ FloatingPoint 11 53)";
    static const char* rms[] = {"RTN", "RTP", "RTZ", "RNA", "RNE"};
    switch (t->op) {
      case O_RADD: { std::string x = A(0), y = A(1); s = "(fp.add RNE " + x + " " + y + ")"; break; }
      case O_RSUB: { std::string x = A(0), y = A(1); s = "(fp.sub RNE " + x + " " + y + ")"; break; }
      case O_RMUL: { std::string x = A(0), y = A(1); s = "(fp.mul RNE " + x + " " + y + ")"; break; }
      case O_RDIV: { std::string x = A(0), y = A(1); s = "(fp.div RNE " + x + " " + y + ")"; break; }
      case O_RNEG: s = "(fp.neg " + A(0) + ")"; break;
      case O_FABS: s = "(fp.abs " + A(0) + ")"; break;
      case O_SQRT: s = "(fp.sqrt RNE " + A(0) + ")"; break;
      case O_FROUND: s = std::string("(fp.roundToIntegral ") + rms[t->n1] + " " + A(0) + ")"; break;
      case O_FROMBITS: s = std::string("((_ to_fp ") + (t->sort == S_F32 ? "8 24" : "11 53") + ") " + bv(t->a[0]) + ")"; break;
      case O_SI2R: s = std::string("((_ to_fp ") + (t->sort == S_F32 ? "8 24" : "11 53") + ") RNE " + bv(t->a[0]) + ")"; break;
      case O_UI2R: s = std::string("((_ to_fp_unsigned ") + (t->sort == S_F32 ? "8 24" : "11 53") + ") RNE " + bv(t->a[0]) + ")"; break;
      case O_FEXT: s = "((_ to_fp 11 53) RNE " + A(0) + ")"; break;
      case O_FTRUNC: s = "((_ to_fp 8 24) RNE " + A(0) + ")"; break;
      case O_ITE: { std::string c = b(t->a[0]), x = A(1), y = A(2); s = "(ite " + c + " " + x + " " + y + ")"; break; }
      default: throw EngineError("smt ieee op " + showTerm(t, 1));
    }
    return def(t, sort, s);
  }
  std::string n;
  auto fresh = [&]() { n = "n" + std::to_string(t->id); out += "(declare-const " + n + " Real)\n"; node[t] = n; };
  switch (t->op) {
    case O_PI: { int pa = atomOfVar(mkPi()); atom(pa); return node[t] = "a" + std::to_string(pa); }
    case O_RADD: { std::string x = A(0), y = A(1); s = "(+ " + x + " " + y + ")"; break; }
    case O_RSUB: { std::string x = A(0), y = A(1); s = "(- " + x + " " + y + ")"; break; }
    case O_RMUL: { std::string x = A(0), y = A(1); s = "(* " + x + " " + y + ")"; break; }
    case O_RDIV: {
      std::string x = A(0), y = A(1); fresh();
      out += "(assert (= (* " + n + " " + y + ") " + x + "))\n(assert (not (= " + y + " 0.0)))\n"; return n;
    }
    case O_RNEG: s = "(- " + A(0) + ")"; break;
    case O_SQRT: { std::string x = A(0); fresh(); out += "(assert (and (>= " + n + " 0.0) (= (* " + n + " " + n + ") " + x + ")))\n"; return n; }
    case O_ITE: { std::string c = b(t->a[0]), x = A(1), y = A(2); s = "(ite " + c + " " + x + " " + y + ")"; break; }
    case O_ACOS: case O_ASIN: case O_ATAN: case O_ATAN2: { std::string x = t->op == O_ATAN2 ? std::string() : A(0); fresh(); funFacts(t->op, n, lemmas ? x : std::string()); return n; }
    default: fresh(); return n;   // opaque (over-approximation: sound for unsat)
  }
  return def(t, "Real", s);
}
void Emitter::funFacts(Op fn, const std::string& n, const std::string& x) {
  int pa = atomOfVar(mkPi()); atom(pa); std::string pi = "a" + std::to_string(pa), hpi = "(/ " + pi + " 2.0)";
  if (fn == O_ACOS) out += "(assert (<= " + n + " " + pi + "))\n";
  else if (fn == O_ATAN2) out += "(assert (and (<= (- " + pi + ") " + n + ") (<= " + n + " " + pi + ")))\n";
  else out += "(assert (and (<= (- " + hpi + ") " + n + ") (<= " + n + " " + hpi + ")))\n";
  if (fn == O_ACOS && !x.empty()) { std::string c = "(- " + pi + " " + n + ")", c2 = "(* " + c + " " + c + ")"; out += "(assert (=> (> " + x + " (- 1.0)) (< " + n + " " + pi + ")))\n(assert (and (>= " + c2 + " (* 2.0 (+ 1.0 " + x + "))) (<= " + c2 + " (* 4.9349 (+ 1.0 " + x + ")))))\n"; }
  if (!x.empty() && (fn == O_ACOS || fn == O_ASIN || fn == O_ATAN)) {   // facts that hold for every argument of the domain
        std::string m = "(* " + n + " " + n + ")", x2 = "(* " + x + " " + x + ")";
        if (fn == O_ACOS) {
          out += "(assert (<= " + x2 + " 1.0))\n(assert (>= " + m + " (- 1.0 " + x2 + ")))\n(assert (=> (> " + x + " 0.0) (and (<= " + n + " (- 1.5707963268 " + x + ")) (< " + n + " 1.5707963268))))\n(assert (=> (< " + x + " 0.0) (and (>= " + n + " (- 1.5707963267 " + x + ")) (> " + n + " 1.5707963267))))\n(assert (=> (< " + x + " 1.0) (> " + n + " 0.0)))\n";
          out += "(assert (<= " + m + " (* 4.9349 (- 1.0 " + x + "))))\n(assert (>= " + m + " (* 2.0 (- 1.0 " + x + "))))\n";
        } else if (fn == O_ASIN) out += "(assert (<= " + x2 + " 1.0))\n(assert (>= " + m + " " + x2 + "))\n(assert (>= (* " + n + " " + x + ") 0.0))\n(assert (<= " + m + " (* 2.4675 " + x2 + ")))\n";
        else out += "(assert (<= " + m + " " + x2 + "))\n(assert (>= (* " + n + " " + x + ") 0.0))\n(assert (=> (not (= " + x + " 0.0)) (not (= " + n + " 0.0))))\n";
      }
      if (fn == O_ACOS) out += "(assert (and (<= 0.0 " + n + ") (<= " + n + " 3.1415926535898)))\n";
      else if (fn == O_ASIN || fn == O_ATAN) out += "(assert (and (<= (- 1.5707963267949) " + n + ") (<= " + n + " 1.5707963267949)))\n";
      else if (fn == O_ATAN2) out += "(assert (and (<= (- 3.1415926535898) " + n + ") (<= " + n + " 3.1415926535898)))\n";
}
void Emitter::atom(int a) {
  if (atomDone.count(a)) return;
  atomDone[a] = true;
  Atom A = g_atoms[a];
  std::string n = "a" + std::to_string(a);
  if (A.kind == A_VAR && A.term->op == O_VAR) {
    if (varSet.insert(A.term).second) { vars.push_back(A.term); out += "(declare-const " + sym(A.term->name) + " Real)\n"; }
    out += "(define-fun " + n + " () Real " + sym(A.term->name) + ")\n";
    if (!A.hasRel && lemmas) { auto u = g_unitLast.find(a); if (u != g_unitLast.end()) atom(u->second); }
    if (A.hasRel) { std::string r = poly(A.rel); out += "(assert (= (* " + n + " " + n + ") " + r + "))\n"; }
    return;
  }
  out += "(declare-const " + n + " Real)\n";
  switch (A.kind) {
    case A_PI: out += "(assert (and (< 3.1415926535897 " + n + ") (< " + n + " 3.1415926535898)))\n"; break;
    case A_SQRT: { std::string r = poly(A.rad); out += "(assert (and (>= " + n + " 0.0) (= (* " + n + " " + n + ") " + r + ")))\n"; break; }
    case A_SIN: case A_COS: {
      int o = A.pair; atom(o);
      if (A.kind == A_SIN) {
        std::string c = "a" + std::to_string(o);
        out += "(assert (= (+ (* " + n + " " + n + ") (* " + c + " " + c + ")) 1.0))\n";
        if (lemmas && A.args[0].d.empty()) {
          std::string u = poly(A.args[0].n);
          // |sin u| <= |u|, cos u >= 1 - u^2/2, and sign facts on the first half turn (all hold for every real u)
          out += "(assert (<= (* " + n + " " + n + ") (* " + u + " " + u + ")))\n(assert (>= " + c + " (- 1.0 (/ (* " + u + " " + u + ") 2.0))))\n";
          int pa = atomOfVar(mkPi()); atom(pa); std::string pi = "a" + std::to_string(pa);
          auto in = [&](double lo, double hi) { auto m = [&](double k) { return k == 0 ? std::string("0.0") : k < 0 ? "(- (* " + std::to_string(-k) + " " + pi + "))" : "(* " + std::to_string(k) + " " + pi + ")"; }; return "(and (< " + m(lo) + " " + u + ") (< " + u + " " + m(hi) + "))"; };
          out += "(assert (=> " + in(0, 1) + " (and (> " + n + " 0.0) (< " + n + " " + u + "))))\n(assert (=> " + in(-1, 0) + " (and (< " + n + " 0.0) (> " + n + " " + u + "))))\n";
          out += "(assert (=> " + in(-0.5, 0.5) + " (> " + c + " 0.0)))\n(assert (=> " + in(0.5, 1.5) + " (< " + c + " 0.0)))\n(assert (=> " + in(-1.5, -0.5) + " (< " + c + " 0.0)))\n(assert (=> " + in(1, 2) + " (< " + n + " 0.0)))\n(assert (=> " + in(-2, -1) + " (> " + n + " 0.0)))\n";
          // Jordan's inequality and the cubic lower bound (closed ranges)
          auto incl = [&](double lo, double hi) { auto m = [&](double k) { return "(* " + std::to_string(k) + " " + pi + ")"; }; return "(and (<= " + m(lo) + " " + u + ") (<= " + u + " " + m(hi) + "))"; };
          out += "(assert (=> " + incl(0, 0.5) + " (and (>= (* " + n + " " + pi + ") (* 2.0 " + u + ")) (>= " + n + " (- " + u + " (/ (* " + u + " " + u + " " + u + ") 6.0))))))\n(assert (=> " + incl(0.5, 1) + " (>= (* " + n + " " + pi + ") (* 2.0 (- " + pi + " " + u + ")))))\n";
        }
      }
      break;
    }
    case A_FUN: {
      if (A.fn == O_ACOS || A.fn == O_ASIN || A.fn == O_ATAN || A.fn == O_ATAN2) funFacts(A.fn, n, lemmas && A.fn != O_ATAN2 ? rf(A.args[0]) : std::string());
      else if (A.fn == O_EXP) { out += "(assert (> " + n + " 0.0))\n"; if (lemmas && A.args[0].d.empty()) { std::string u = poly(A.args[0].n); out += "(assert (>= " + n + " (+ 1.0 " + u + ")))\n"; } }
      break;
    }
    default: break;
  }
}
std::string Emitter::rf(const RatFn& r) {   // a rational function as a term (its denominator is non-zero)
  if (r.d.empty()) return poly(r.n);
  std::string num = poly(r.n), den = "1.0";
  for (auto& f : r.d) { std::string d = poly(factorPoly(f.first)); for (int i = 0; i < f.second; i++) den = den == "1.0" ? d : "(* " + den + " " + d + ")"; }
  std::string n = "rf" + std::to_string(rfCount++);
  out += "(declare-const " + n + " Real)\n(assert (and (not (= " + den + " 0.0)) (= (* " + n + " " + den + ") " + num + ")))\n";
  return n;
}
std::string Emitter::poly(const Poly& p) {
  if (p.zero()) return "0.0";
  for (auto& x : p.t) for (uint32_t m : x.first) atom(m >> 10);
  std::string s;
  bool many = p.t.size() > 1;
  if (many) s = "(+";
  for (auto& x : p.t) {
    if (many) s += ' ';
    if (x.first.empty()) { s += qStr(x.second); continue; }
    unsigned cnt = 0; for (uint32_t m : x.first) cnt += m & 1023;
    bool one = x.second == 1;
    if (one && cnt == 1) { s += "a" + std::to_string(x.first[0] >> 10); continue; }
    s += "(*"; if (!one) s += " " + qStr(x.second);
    for (uint32_t m : x.first) for (unsigned i = 0; i < (m & 1023); i++) s += " a" + std::to_string(m >> 10);
    s += ")";
  }
  if (many) s += ")";
  return s;
}
void Emitter::assertB(T t) {
  if (t->op == O_BAND) { assertB(t->a[0]); assertB(t->a[1]); return; }
  std::string s = b(t); assertS(s);
}

// ---------------------------------------------------------------- process
static void stopZ() { if (zpid && zowner == getpid()) { close(zin); close(zout); kill(zpid, SIGKILL); waitpid(zpid, nullptr, 0); } zpid = 0; zbuf.clear(); }
void smtAfterFork() { if (zpid) { close(zin); close(zout); } zpid = 0; zbuf.clear(); }
static void startZ() {
  if (zpid && zowner == getpid()) return;
  int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw EngineError("pipe");
  zpid = fork();
  if (!zpid) {
    dup2(a[0], 0); dup2(b[1], 1); dup2(b[1], 2);
    execl("/bin/sh", "sh", "-c", ("exec " + g_smtCmd).c_str(), (char*)0); _exit(127);
  }
  zowner = getpid(); close(a[0]); close(b[1]); zin = a[1]; zout = b[0]; zbuf.clear();
}
static bool readUntil(const std::string& mark, std::string& res, int ms) {
  auto t0 = std::chrono::steady_clock::now();
  while (true) {
    size_t p = zbuf.find(mark);
    if (p != std::string::npos) { res = zbuf.substr(0, p); zbuf.erase(0, p + mark.size()); return true; }
    int left = ms - (int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
    if (left <= 0) return false;
    pollfd f{zout, POLLIN, 0};
    int r = poll(&f, 1, left);
    if (r <= 0) return false;
    char tmp[65536]; ssize_t n = read(zout, tmp, sizeof tmp);
    if (n <= 0) return false;
    zbuf.append(tmp, n);
  }
}
static bool writeAll(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(zin, s.data() + o, s.size() - o); if (n <= 0) return false; o += n; } return true; }

// tiny s-expression reader for get-value answers
struct SX { std::string a; std::vector<SX> l; bool atom = true; };
static SX parseSX(const std::string& s, size_t& i) {
  while (i < s.size() && isspace((unsigned char)s[i])) i++;
  SX x;
  if (i < s.size() && s[i] == '(') { x.atom = false; i++; while (true) { while (i < s.size() && isspace((unsigned char)s[i])) i++; if (i >= s.size() || s[i] == ')') { i++; return x; } x.l.push_back(parseSX(s, i)); } }
  if (i < s.size() && s[i] == '|') { size_t j = s.find('|', i + 1); x.a = s.substr(i, j - i + 1); i = j + 1; return x; }
  size_t j = i; while (j < s.size() && !isspace((unsigned char)s[j]) && s[j] != '(' && s[j] != ')') j++;
  x.a = s.substr(i, j - i); i = j == i ? i + 1 : j; return x;
}
static bool sxRat(const SX& x, mpq_class& q) {
  if (x.atom) {
    std::string s = x.a; if (s.empty()) return false;
    if (s.back() == '?') s.pop_back();
    size_t d = s.find('.');
    try {
      if (d == std::string::npos) { q = mpq_class(mpz_class(s)); return true; }
      std::string fr = s.substr(d + 1); mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(), 10, fr.size());
      q = mpq_class(mpz_class(s.substr(0, d) + fr, 10), p); q.canonicalize(); return true;
    } catch (...) { return false; }
  }
  if (x.l.size() == 2 && x.l[0].a == "-") { if (!sxRat(x.l[1], q)) return false; q = -q; return true; }
  if (x.l.size() == 3 && x.l[0].a == "/") { mpq_class a, b; if (!sxRat(x.l[1], a) || !sxRat(x.l[2], b) || b == 0) return false; q = a / b; return true; }
  return false;
}
SmtR smtRun(Emitter& e, int timeoutMs, Model* m) {
  startZ();
  auto t0 = std::chrono::steady_clock::now();
  std::string s = "(reset)\n(set-option :timeout " + std::to_string(timeoutMs) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n(set-option :produce-models true)\n" + e.out + "(check-sat)\n(echo \"@@1\")\n";
  if (!g_smtDump.empty()) { FILE* f = fopen((g_smtDump + "." + std::to_string(getpid()) + "." + std::to_string(g_smt.queries)).c_str(), "w"); fputs(s.c_str(), f); fclose(f); }
  g_smt.queries++;
  SmtR res = SMT_UNKNOWN; std::string r;
  if (!writeAll(s) || !readUntil("@@1", r, timeoutMs + 3000 + (int)(s.size() / 2000))) { stopZ(); }
  else if (r.find("(error") != std::string::npos) { if (getenv("KSE_DEBUG")) fprintf(stderr, "SMT error: %s\n", r.substr(0, 500).c_str()); }
  else if (r.find("unsat") != std::string::npos) res = SMT_UNSAT;
  else if (r.find("unknown") != std::string::npos || r.find("timeout") != std::string::npos) res = SMT_UNKNOWN;
  else if (r.find("sat") != std::string::npos) res = SMT_SAT;
  if (res == SMT_SAT && m) {
    std::string q = "(get-value (";
    for (T v : e.vars) q += sym(v->name) + " ";
    q += "))\n(echo \"@@2\")\n";
    if (e.vars.empty()) {}
    else if (!writeAll(q) || !readUntil("@@2", r, 5000)) stopZ();
    else {
      size_t i = 0; SX x = parseSX(r, i);
      for (size_t k = 0; k < x.l.size() && k < e.vars.size(); k++) {
        if (x.l[k].l.size() != 2) continue;
        const SX& v = x.l[k].l[1]; T var = e.vars[k];
        if (var->sort == S_BOOL) m->b[var] = v.a == "true";
        else if (var->sort == S_BV || g_ieee) {
          uint64_t u = 0;
          if (v.a.compare(0, 2, "#x") == 0) u = strtoull(v.a.c_str() + 2, 0, 16);
          else if (v.a.compare(0, 2, "#b") == 0) u = strtoull(v.a.c_str() + 2, 0, 2);
          if (var->sort == S_BV) m->b[var] = u;
          else if (var->sort == S_F32) { uint32_t w = u; float f; memcpy(&f, &w, 4); m->r[var] = f; }
          else { double d; memcpy(&d, &u, 8); m->r[var] = d; }
        } else { mpq_class qv; if (sxRat(v, qv)) { m->rq[var] = qv; m->r[var] = qv.get_d(); } }
      }
    }
  }
  g_smt.ms += std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
  if (res == SMT_UNSAT) g_smt.unsat++; else if (res == SMT_SAT) g_smt.sat++; else g_smt.unknown++;
  return res;
}
