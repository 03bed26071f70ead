#include "term.hpp"
#include <cmath>
#include <cstring>
#include <sstream>
#include <algorithm>
#include <unordered_set>

bool g_ieee = false;
bool g_roundSqrt = false;

namespace {
struct Key { std::string s; };
std::unordered_map<std::string, T> table;
uint32_t nextId = 1;

std::string keyOf(Op op, Sort s, unsigned w, const std::vector<T>& a, int n1, int n2, const std::string& name,
                  const mpz_class* z, const mpq_class* q, const double* d) {
  std::string k;
  k.reserve(32 + name.size());
  auto put = [&](const void* p, size_t n) { k.append((const char*)p, n); };
  put(&op, 1); put(&s, 1); uint16_t ww = w; put(&ww, 2); put(&n1, 4); put(&n2, 4);
  for (T t : a) put(&t->id, 4);
  if (z) k += z->get_str(62);
  if (q) k += q->get_str(62);
  if (d) { put(d, 8); }
  k += '|'; k += name;
  return k;
}
T intern(Op op, Sort s, unsigned w, const std::vector<T>& a, int n1, int n2, const std::string& name,
         const mpz_class* z = nullptr, const mpq_class* q = nullptr, const double* d = nullptr) {
  std::string k = keyOf(op, s, w, a, n1, n2, name, z, q, d);
  auto it = table.find(k);
  if (it != table.end()) return it->second;
  Term* t = new Term();
  t->op = op; t->sort = s; t->w = w; t->n1 = n1; t->n2 = n2; t->id = nextId++; t->a = a; t->name = name;
  if (z) t->z = *z;
  if (q) t->q = *q;
  if (d) t->d = *d;
  table.emplace(std::move(k), t);
  return t;
}
}  // namespace

T mk(Op op, Sort s, unsigned w, const std::vector<T>& a, int n1, int n2, const std::string& name) {
  return intern(op, s, w, a, n1, n2, name);
}
static mpz_class maskZ(unsigned w) { mpz_class m = 1; m <<= w; m -= 1; return m; }
T mkBV(unsigned w, const mpz_class& v) {
  mpz_class m = v & maskZ(w);   // gmpxx & on negatives is two's complement
  return intern(O_BVC, S_BV, w, {}, 0, 0, "", &m);
}
T mkBV64(unsigned w, uint64_t v) {
  mpz_class z; mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &v);
  return mkBV(w, z);
}
T mkBool(bool b) { return intern(O_BOOLC, S_BOOL, 0, {}, b, 0, ""); }
T mkReal(const mpq_class& q0) { mpq_class q = q0; q.canonicalize(); return intern(O_RC, S_REAL, 0, {}, 0, 0, "", nullptr, &q); }
T mkSpecial(int k) { return intern(O_SPECIAL, S_REAL, 0, {}, k, 0, ""); }
T mkPi() { return intern(O_PI, S_REAL, 0, {}, 0, 0, ""); }
T mkVar(const std::string& n, Sort s, unsigned w) { return intern(O_VAR, s, w, {}, 0, 0, n); }
T mkIeee(double d, bool f32) { return intern(O_RC, f32 ? S_F32 : S_REAL, 0, {}, 0, 0, "", nullptr, nullptr, &d); }

// smallest-denominator rational within the rounding interval of d
static bool cfRational(double d, long maxDen, mpq_class& out, bool isFloat) {
  double x = std::fabs(d);
  long double xx = x;
  mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 40; i++) {
    long double fl = floorl(xx);
    if (fl > 1e15L) return false;
    mpz_class a((double)fl);
    mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
    if (q2 > maxDen) return false;
    p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    long double r = (long double)p1.get_d() / (long double)q1.get_d();
    bool same = isFloat ? (float)r == (float)x : (double)r == x;
    if (same) { out = mpq_class(p1, q1); out.canonicalize(); if (d < 0) out = -out; return true; }
    long double frac = xx - fl;
    if (frac < 1e-17L) return false;
    xx = 1.0L / frac;
  }
  return false;
}
static T litReal(double d, bool isFloat) {
  if (std::isnan(d)) return mkSpecial(2);
  if (std::isinf(d)) return mkSpecial(d > 0 ? 1 : -1);
  if (d == 0) return mkReal(0);
  mpq_class q(d);
  if (q.get_den() <= (1 << 20)) return mkReal(q);
  mpq_class r;
  if (cfRational(d, 10000, r, isFloat)) return mkReal(r);
  // multiples of pi
  double ratio = (double)((long double)d / (isFloat ? (long double)(float)M_PI : M_PIl));
  if (cfRational(ratio, 720, r, isFloat)) {
    double back = (double)((long double)r.get_d() * M_PIl);
    if (std::fabs(back - d) <= 4e-16 * std::fabs(d) * (isFloat ? 4e8 : 1)) return rMul(mkReal(r), mkPi());
  }
  // short decimal literal
  char buf[64];
  for (int prec = 1; prec <= 12; prec++) {
    snprintf(buf, sizeof buf, "%.*e", prec - 1, d);
    double back = strtod(buf, nullptr);
    if (isFloat ? (float)back == (float)d : back == d) {
      std::string s = buf;
      size_t e = s.find('e');
      std::string m = s.substr(0, e);
      long ex = atol(s.c_str() + e + 1);
      size_t dot = m.find('.');
      if (dot != std::string::npos) { ex -= (long)(m.size() - dot - 1); m.erase(dot, 1); }
      mpq_class v(mpz_class(m, 10));
      mpz_class p10; mpz_ui_pow_ui(p10.get_mpz_t(), 10, labs(ex));
      if (ex >= 0) v *= p10; else v /= p10;
      v.canonicalize();
      return mkReal(v);
    }
  }
  return mkReal(q);
}
T mkDouble(double d) { return g_ieee ? mkIeee(d) : litReal(d, false); }
T mkFloatLit(float d) { return g_ieee ? mkIeee(d, true) : litReal(d, true); }

// ---------------------------------------------------------------- bit-vectors
static mpz_class toSigned(const mpz_class& z, unsigned w) {
  if (mpz_tstbit(z.get_mpz_t(), w - 1)) { mpz_class m = 1; m <<= w; return z - m; }
  return z;
}
static bool foldBV(Op op, unsigned w, const mpz_class& a, const mpz_class& b, mpz_class& r) {
  switch (op) {
    case O_ADD: r = a + b; return true;
    case O_SUB: r = a - b; return true;
    case O_MUL: r = a * b; return true;
    case O_UDIV: if (b == 0) return false; r = a / b; return true;
    case O_UREM: if (b == 0) return false; r = a % b; return true;
    case O_SDIV: { if (b == 0) return false; mpz_class x = toSigned(a, w), y = toSigned(b, w); mpz_tdiv_q(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return true; }
    case O_SREM: { if (b == 0) return false; mpz_class x = toSigned(a, w), y = toSigned(b, w); mpz_tdiv_r(r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return true; }
    case O_AND: r = a & b; return true;
    case O_OR: r = a | b; return true;
    case O_XOR: r = a ^ b; return true;
    case O_SHL: if (b >= w) { r = 0; return true; } r = a << b.get_ui(); return true;
    case O_LSHR: if (b >= w) { r = 0; return true; } r = a >> b.get_ui(); return true;
    case O_ASHR: { mpz_class x = toSigned(a, w); unsigned long s = b >= w ? w - 1 : b.get_ui(); mpz_fdiv_q_2exp(r.get_mpz_t(), x.get_mpz_t(), s); return true; }
    default: return false;
  }
}
T bvBin(Op op, T a, T b) {
  unsigned w = a->w;
  if (a->sort != S_BV || b->sort != S_BV || b->w != w) throw EngineError("bvBin: sort mismatch");
  if (isBVC(a) && isBVC(b)) { mpz_class r; if (foldBV(op, w, a->z, b->z, r)) return mkBV(w, r); }
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
  if (comm && isBVC(a)) std::swap(a, b);
  if (isBVC(b)) {
    const mpz_class& c = b->z;
    if (c == 0) {
      switch (op) {
        case O_ADD: case O_SUB: case O_OR: case O_XOR: case O_SHL: case O_LSHR: case O_ASHR: return a;
        case O_AND: case O_MUL: return b;
        default: break;
      }
    }
    if (c == 1 && (op == O_MUL || op == O_UDIV || op == O_SDIV)) return a;
    if (op == O_AND && c == maskZ(w)) return a;
    if (op == O_OR && c == maskZ(w)) return b;
    if (op == O_ADD && a->op == O_ADD && isBVC(a->a[1])) return bvBin(O_ADD, a->a[0], mkBV(w, a->a[1]->z + c));
    if (op == O_SUB) return bvBin(O_ADD, a, mkBV(w, -c));
    // shifts of extends by byte multiples -> concat form keeps memory bytes simple
    if (op == O_SHL && c < w) {
      unsigned s = c.get_ui();
      return bvConcat(bvExtract(a, w - 1 - s, 0), mkBV64(s, 0));
    }
    if (op == O_LSHR && c < w) {
      unsigned s = c.get_ui();
      return bvConcat(mkBV64(s, 0), bvExtract(a, w - 1, s));
    }
    if (op == O_AND) {
      // low-bit mask
      mpz_class m = c + 1;
      if (mpz_popcount(m.get_mpz_t()) == 1) {
        unsigned k = mpz_scan1(m.get_mpz_t(), 0);
        if (k < w) return bvConcat(mkBV64(w - k, 0), bvExtract(a, k - 1, 0));
      }
    }
  }
  if (isBVC(a) && a->z == 0 && (op == O_SHL || op == O_LSHR || op == O_ASHR || op == O_UDIV || op == O_UREM)) return a;
  if (a == b) {
    if (op == O_SUB || op == O_XOR) return mkBV64(w, 0);
    if (op == O_AND || op == O_OR) return a;
  }
  if (op == O_OR && a->op == O_CONCAT && b->op == O_CONCAT) {
    // or of disjoint concats: (X . 0) | (0 . Y)
    T ah = a->a[0], al = a->a[1], bh = b->a[0], bl = b->a[1];
    if (ah->w == bh->w) {
      auto zero = [](T t) { return isBVC(t) && t->z == 0; };
      if ((zero(ah) || zero(bh)) && (zero(al) || zero(bl)))
        return bvConcat(zero(ah) ? bh : ah, zero(al) ? bl : al);
    }
  }
  if (comm && a->id > b->id && !isBVC(b)) std::swap(a, b);
  return mk(op, S_BV, w, {a, b});
}
T bvCmp(Op op, T a, T b) {
  if (a->sort == S_BOOL) {
    if (op == O_EQ) return mkEqBool(a, b);
    throw EngineError("bool compare");
  }
  if (isBVC(a) && isBVC(b)) {
    switch (op) {
      case O_EQ: return mkBool(a->z == b->z);
      case O_ULT: return mkBool(a->z < b->z);
      case O_ULE: return mkBool(a->z <= b->z);
      case O_SLT: return mkBool(toSigned(a->z, a->w) < toSigned(b->z, b->w));
      case O_SLE: return mkBool(toSigned(a->z, a->w) <= toSigned(b->z, b->w));
      default: break;
    }
  }
  if (a == b) return mkBool(op == O_EQ || op == O_ULE || op == O_SLE);
  if (isBVC(b) && b->z != 0 && a->op == O_UREM && isBVC(a->a[1]) && a->a[1]->z != 0 && ((op == O_ULT && a->a[1]->z <= b->z) || (op == O_ULE && a->a[1]->z <= b->z + 1))) return mkBool(true);
  if (op == O_EQ) {
    if (isBVC(a)) std::swap(a, b);
    if (isBVC(b)) {
      if (a->op == O_ITE && isBVC(a->a[1]) && isBVC(a->a[2])) {
        bool e1 = a->a[1]->z == b->z, e2 = a->a[2]->z == b->z;
        if (e1 && e2) return mkBool(true);
        if (e1) return a->a[0];
        if (e2) return mkNot(a->a[0]);
        return mkBool(false);
      }
      if (a->op == O_ZEXT) {
        T x = a->a[0];
        if ((b->z >> x->w) != 0) return mkBool(false);
        return bvCmp(O_EQ, x, mkBV(x->w, b->z));
      }
      if (a->op == O_CONCAT) {
        T h = a->a[0], l = a->a[1];
        return mkAnd(bvCmp(O_EQ, h, mkBV(h->w, b->z >> l->w)), bvCmp(O_EQ, l, mkBV(l->w, b->z)));
      }
    }
    if (a->id > b->id && !isBVC(b)) std::swap(a, b);
  }
  return mk(op, S_BOOL, 0, {a, b});
}
T bvExtract(T a, unsigned hi, unsigned lo) {
  if (lo == 0 && hi == a->w - 1u) return a;
  if (isBVC(a)) return mkBV(hi - lo + 1, a->z >> lo);
  if (a->op == O_EXTRACT) return bvExtract(a->a[0], hi + a->n2, lo + a->n2);
  if (a->op == O_CONCAT) {
    unsigned lw = a->a[1]->w;
    if (hi < lw) return bvExtract(a->a[1], hi, lo);
    if (lo >= lw) return bvExtract(a->a[0], hi - lw, lo - lw);
    return bvConcat(bvExtract(a->a[0], hi - lw, 0), bvExtract(a->a[1], lw - 1, lo));
  }
  if (a->op == O_ZEXT) {
    unsigned iw = a->a[0]->w;
    if (hi < iw) return bvExtract(a->a[0], hi, lo);
    if (lo >= iw) return mkBV64(hi - lo + 1, 0);
    return bvExt(O_ZEXT, bvExtract(a->a[0], iw - 1, lo), hi - lo + 1);
  }
  if (a->op == O_SEXT) {
    unsigned iw = a->a[0]->w;
    if (hi < iw) return bvExtract(a->a[0], hi, lo);
  }
  if ((a->op == O_AND || a->op == O_OR || a->op == O_XOR))
    return bvBin(a->op, bvExtract(a->a[0], hi, lo), bvExtract(a->a[1], hi, lo));
  if ((a->op == O_ADD || a->op == O_SUB || a->op == O_MUL) && lo == 0)
    return bvBin(a->op, bvExtract(a->a[0], hi, 0), bvExtract(a->a[1], hi, 0));
  if (a->op == O_ITE) return mkIte(a->a[0], bvExtract(a->a[1], hi, lo), bvExtract(a->a[2], hi, lo));
  return mk(O_EXTRACT, S_BV, hi - lo + 1, {a}, hi, lo);
}
T bvConcat(T hi, T lo) {
  if (isBVC(hi) && isBVC(lo)) return mkBV(hi->w + lo->w, (hi->z << lo->w) | lo->z);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a[0] == lo->a[0] && hi->n2 == lo->n1 + 1)
    return bvExtract(hi->a[0], hi->n1, lo->n2);
  if (lo->op == O_CONCAT && hi->op == O_EXTRACT && lo->a[0]->op == O_EXTRACT && hi->a[0] == lo->a[0]->a[0] && hi->n2 == lo->a[0]->n1 + 1)
    return bvConcat(bvExtract(hi->a[0], hi->n1, lo->a[0]->n2), lo->a[1]);
  if (isBVC(hi) && hi->z == 0) return bvExt(O_ZEXT, lo, hi->w + lo->w);
  return mk(O_CONCAT, S_BV, hi->w + lo->w, {hi, lo});
}
T bvExt(Op op, T a, unsigned w) {
  if (a->w == w) return a;
  if (isBVC(a)) return mkBV(w, op == O_SEXT ? toSigned(a->z, a->w) : a->z);
  if (op == O_ZEXT && a->op == O_ZEXT) return bvExt(O_ZEXT, a->a[0], w);
  if (op == O_SEXT && a->op == O_ZEXT) return bvExt(O_ZEXT, a->a[0], w);
  if (op == O_SEXT && a->op == O_SEXT) return bvExt(O_SEXT, a->a[0], w);
  if (a->op == O_ITE && isBVC(a->a[1]) && isBVC(a->a[2])) return mkIte(a->a[0], bvExt(op, a->a[1], w), bvExt(op, a->a[2], w));
  return mk(op, S_BV, w, {a});
}
T mkIte(T c, T a, T b) {
  if (isBoolC(c)) return c->n1 ? a : b;
  if (a == b) return a;
  if (a->sort == S_BOOL) {
    if (isBoolC(a) && isBoolC(b)) return a->n1 ? c : mkNot(c);
    if (isBoolC(a)) return a->n1 ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isBoolC(b)) return b->n1 ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (c->op == O_NOT) return mkIte(c->a[0], b, a);
  return mk(O_ITE, a->sort, a->w, {c, a, b});
}
T mkNot(T a) {
  if (isBoolC(a)) return mkBool(!a->n1);
  if (a->op == O_NOT) return a->a[0];
  if (!g_ieee) {
    if (a->op == O_RLT) return mk(O_RLE, S_BOOL, 0, {a->a[1], a->a[0]});
    if (a->op == O_RLE) return mk(O_RLT, S_BOOL, 0, {a->a[1], a->a[0]});
  }
  return mk(O_NOT, S_BOOL, 0, {a});
}
T mkAnd(T a, T b) {
  if (isBoolC(a)) return a->n1 ? b : a;
  if (isBoolC(b)) return b->n1 ? a : b;
  if (a == b) return a;
  if (mkNot(a) == b) return mkBool(false);
  if (a->id > b->id) std::swap(a, b);
  return mk(O_BAND, S_BOOL, 0, {a, b});
}
T mkOr(T a, T b) {
  if (isBoolC(a)) return a->n1 ? a : b;
  if (isBoolC(b)) return b->n1 ? b : a;
  if (a == b) return a;
  if (mkNot(a) == b) return mkBool(true);
  if (a->id > b->id) std::swap(a, b);
  return mk(O_BOR, S_BOOL, 0, {a, b});
}
T mkBXor(T a, T b) {
  if (isBoolC(a)) return a->n1 ? mkNot(b) : b;
  if (isBoolC(b)) return b->n1 ? mkNot(a) : a;
  if (a == b) return mkBool(false);
  if (a->id > b->id) std::swap(a, b);
  return mk(O_BXOR, S_BOOL, 0, {a, b});
}
T mkEqBool(T a, T b) { return mkNot(mkBXor(a, b)); }
T boolToBV(T b, unsigned w, bool sgn) {
  if (isBoolC(b)) return sgn && b->n1 ? mkBV(w, maskZ(w)) : mkBV64(w, b->n1);
  return mkIte(b, sgn ? mkBV(w, maskZ(w)) : mkBV64(w, 1), mkBV64(w, 0));
}

// ---------------------------------------------------------------- reals
double qToDouble(const mpq_class& q) { return q.get_d(); }
double specialVal(T t) { return t->n1 == 1 ? INFINITY : t->n1 == -1 ? -INFINITY : NAN; }
double realConstApprox(T t) {
  if (t->op == O_RC) return g_ieee ? t->d : t->q.get_d();
  if (t->op == O_PI) return M_PI;
  if (t->op == O_SPECIAL) return specialVal(t);
  throw EngineError("not a constant");
}
static T specialArith(Op op, T a, T b) {
  // at least one special
  if ((isSpecial(a) && a->n1 == 2) || (b && isSpecial(b) && b->n1 == 2)) return mkSpecial(2);
  auto cst = [](T t) { return isRC(t) || isSpecial(t) || t->op == O_PI; };
  if (cst(a) && (!b || cst(b))) {
    double x = realConstApprox(a), y = b ? realConstApprox(b) : 0, r;
    switch (op) {
      case O_RADD: r = x + y; break; case O_RSUB: r = x - y; break; case O_RMUL: r = x * y; break;
      case O_RDIV: r = x / y; break; case O_RNEG: r = -x; break;
      default: throw EngineError("special arith");
    }
    return mkDouble(r);
  }
  if (op == O_RADD) return isSpecial(a) ? a : b;
  if (op == O_RSUB) return isSpecial(a) ? a : mkSpecial(-b->n1);
  if (op == O_RDIV && isSpecial(b)) return mkReal(0);
  throw EngineError("symbolic arithmetic with inf");
}
static T ieeeBin(Op op, T a, T b) {
  if (isRC(a) && isRC(b)) {
    double r;
    switch (op) {
      case O_RADD: r = a->d + b->d; break; case O_RSUB: r = a->d - b->d; break;
      case O_RMUL: r = a->d * b->d; break; default: r = a->d / b->d; break;
    }
    if (a->sort == S_F32) {
      float x = a->d, y = b->d, rr;
      switch (op) { case O_RADD: rr = x + y; break; case O_RSUB: rr = x - y; break; case O_RMUL: rr = x * y; break; default: rr = x / y; break; }
      return mkIeee(rr, true);
    }
    return mkIeee(r);
  }
  return mk(op, a->sort, 0, {a, b});
}
T rAdd(T a, T b) {
  if (g_ieee) return ieeeBin(O_RADD, a, b);
  if (isSpecial(a) || isSpecial(b)) return specialArith(O_RADD, a, b);
  if (isRC(a) && isRC(b)) return mkReal(a->q + b->q);
  if (isRC(a) && a->q == 0) return b;
  if (isRC(b) && b->q == 0) return a;
  if (b->op == O_RNEG) return rSub(a, b->a[0]);
  if (a->id > b->id) std::swap(a, b);
  return mk(O_RADD, S_REAL, 0, {a, b});
}
T rSub(T a, T b) {
  if (g_ieee) return ieeeBin(O_RSUB, a, b);
  if (isSpecial(a) || isSpecial(b)) return specialArith(O_RSUB, a, b);
  if (isRC(a) && isRC(b)) return mkReal(a->q - b->q);
  if (isRC(b) && b->q == 0) return a;
  if (isRC(a) && a->q == 0) return rNeg(b);
  if (a == b) return mkReal(0);
  if (b->op == O_RNEG) return rAdd(a, b->a[0]);
  return mk(O_RSUB, S_REAL, 0, {a, b});
}
T rNeg(T a) {
  if (g_ieee) { if (isRC(a)) return mkIeee(-a->d, a->sort == S_F32); if (a->op == O_RNEG) return a->a[0]; return mk(O_RNEG, a->sort, 0, {a}); }
  if (isSpecial(a)) return specialArith(O_RNEG, a, nullptr);
  if (isRC(a)) return mkReal(-a->q);
  if (a->op == O_RNEG) return a->a[0];
  if (a->op == O_RSUB) return rSub(a->a[1], a->a[0]);
  return mk(O_RNEG, S_REAL, 0, {a});
}
T rMul(T a, T b) {
  if (g_ieee) return ieeeBin(O_RMUL, a, b);
  if (isSpecial(a) || isSpecial(b)) return specialArith(O_RMUL, a, b);
  if (isRC(a) && isRC(b)) return mkReal(a->q * b->q);
  if (isRC(b)) std::swap(a, b);
  if (isRC(a)) {
    if (a->q == 0) return a;
    if (a->q == 1) return b;
    if (a->q == -1) return rNeg(b);
    if (b->op == O_RMUL && isRC(b->a[0])) return rMul(mkReal(a->q * b->a[0]->q), b->a[1]);
    if (b->op == O_RNEG) return rMul(mkReal(-a->q), b->a[0]);
    return mk(O_RMUL, S_REAL, 0, {a, b});
  }
  if (a->op == O_RNEG) return rNeg(rMul(a->a[0], b));
  if (b->op == O_RNEG) return rNeg(rMul(a, b->a[0]));
  if (a->id > b->id) std::swap(a, b);
  return mk(O_RMUL, S_REAL, 0, {a, b});
}
T rDiv(T a, T b) {
  if (g_ieee) return ieeeBin(O_RDIV, a, b);
  if (isSpecial(a) || isSpecial(b)) return specialArith(O_RDIV, a, b);
  if (isRC(b)) {
    if (b->q == 0) {
      if (isRC(a)) return mkSpecial(a->q == 0 ? 2 : a->q > 0 ? 1 : -1);
      throw EngineError("division by constant zero of a symbolic value");
    }
    return rMul(mkReal(1 / b->q), a);
  }
  if (isRC(a) && a->q == 0) return a;
  if (a == b) return mkReal(1);
  if (b->op == O_RNEG) return rNeg(rDiv(a, b->a[0]));
  if (a->op == O_RNEG) return rNeg(rDiv(a->a[0], b));
  return mk(O_RDIV, S_REAL, 0, {a, b});
}
T rPowInt(T a, long n) {
  if (n == 0) return mkDouble(1);
  if (n < 0) return rDiv(mkDouble(1), rPowInt(a, -n));
  T r = nullptr, b = a;
  while (n) { if (n & 1) r = r ? rMul(r, b) : b; n >>= 1; if (n) b = rMul(b, b); }
  return r;
}
T rCmp(Op op, T a, T b) {
  if (g_ieee) {
    if (isRC(a) && isRC(b)) return mkBool(op == O_RLT ? a->d < b->d : op == O_RLE ? a->d <= b->d : a->d == b->d);
    return mk(op, S_BOOL, 0, {a, b});
  }
  if (isSpecial(a) || isSpecial(b)) {
    double x = isSpecial(a) ? specialVal(a) : isRC(a) ? a->q.get_d() : 0.0;
    double y = isSpecial(b) ? specialVal(b) : isRC(b) ? b->q.get_d() : 0.0;
    return mkBool(op == O_RLT ? x < y : op == O_RLE ? x <= y : x == y);
  }
  if (isRC(a) && isRC(b)) return mkBool(op == O_RLT ? a->q < b->q : op == O_RLE ? a->q <= b->q : a->q == b->q);
  if (a == b) return mkBool(op != O_RLT);
  if (op == O_REQ && a->id > b->id) std::swap(a, b);
  return mk(op, S_BOOL, 0, {a, b});
}
T rFn(Op op, T a) {
  if (isSpecial(a)) {
    double x = specialVal(a), r;
    switch (op) { case O_EXP: r = exp(x); break; case O_LOG: r = log(x); break; case O_ATAN: r = atan(x); break; case O_SQRT: r = sqrt(x); break; default: r = NAN; }
    return mkDouble(r);
  }
  if (isRC(a) && !g_ieee) {
    if (a->q == 0) switch (op) {
      case O_SIN: case O_TAN: case O_ASIN: case O_ATAN: case O_SQRT: return a;
      case O_COS: case O_EXP: return mkReal(1);
      case O_ACOS: return rMul(mkReal(mpq_class(1, 2)), mkPi());
      case O_LOG: return mkSpecial(-1);
      default: break;
    }
    if (a->q == 1) switch (op) {
      case O_SQRT: return a; case O_ACOS: case O_LOG: return mkReal(0);
      case O_ASIN: return rMul(mkReal(mpq_class(1, 2)), mkPi());
      case O_ATAN: return rMul(mkReal(mpq_class(1, 4)), mkPi());
      default: break;
    }
    if (a->q == -1) switch (op) {
      case O_ACOS: return mkPi();
      case O_ASIN: return rMul(mkReal(mpq_class(-1, 2)), mkPi());
      case O_ATAN: return rMul(mkReal(mpq_class(-1, 4)), mkPi());
      default: break;
    }
    if (op == O_SQRT) {
      if (a->q < 0) return mkSpecial(2);
      if (mpz_perfect_square_p(a->q.get_num_mpz_t()) && mpz_perfect_square_p(a->q.get_den_mpz_t())) {
        mpz_class n = sqrt(a->q.get_num()), d = sqrt(a->q.get_den());
        return mkReal(mpq_class(n, d));
      }
      if (g_roundSqrt) {  // requested by the harness: roots of numbers to 200 bits (relative)
        mpz_class n = a->q.get_num() * a->q.get_den(), d = a->q.get_den(); mpz_class sh = mpz_class(1) << 256; mpz_class r = sqrt(n * sh * sh);
        mpq_class v(r, d * sh); v.canonicalize(); return mkReal(v);
      }
    }
    if ((op == O_ASIN || op == O_ACOS) && abs(a->q) > 1) return mkSpecial(2);
    if (op == O_LOG && a->q < 0) return mkSpecial(2);
  }
  if (isRC(a) && g_ieee) {
    double x = a->d;
    switch (op) {
      case O_SQRT: return mkIeee(sqrt(x), a->sort == S_F32); case O_SIN: return mkIeee(sin(x)); case O_COS: return mkIeee(cos(x));
      case O_TAN: return mkIeee(tan(x)); case O_ASIN: return mkIeee(asin(x)); case O_ACOS: return mkIeee(acos(x));
      case O_ATAN: return mkIeee(atan(x)); case O_EXP: return mkIeee(exp(x)); case O_LOG: return mkIeee(log(x)); default: break;
    }
  }
  if (!g_ieee) {
    // odd/even
    T n = a->op == O_RNEG ? a->a[0] : (a->op == O_RMUL && isRC(a->a[0]) && a->a[0]->q < 0) ? rMul(mkReal(-a->a[0]->q), a->a[1]) : nullptr;
    if (n) {
      if (op == O_SIN || op == O_TAN || op == O_ASIN || op == O_ATAN) return rNeg(rFn(op, n));
      if (op == O_COS) return rFn(op, n);
    }
  }
  return mk(op, a->sort, 0, {a});
}
T rAtan2(T y, T x) {
  if (g_ieee) { if (isRC(x) && isRC(y)) return mkIeee(atan2(y->d, x->d)); return mk(O_ATAN2, S_REAL, 0, {y, x}); }
  if (isRC(y) && isRC(x)) {
    if (y->q == 0) return x->q >= 0 ? mkReal(0) : mkPi();
    if (x->q == 0) return rMul(mkReal(mpq_class(y->q > 0 ? 1 : -1, 2)), mkPi());
    if (y->q == x->q) return rMul(mkReal(y->q > 0 ? mpq_class(1, 4) : mpq_class(-3, 4)), mkPi());
    if (y->q == -x->q) return rMul(mkReal(y->q > 0 ? mpq_class(3, 4) : mpq_class(-1, 4)), mkPi());
  }
  return mk(O_ATAN2, S_REAL, 0, {y, x});
}
T rUF(const std::string& name, const std::vector<T>& args, const std::vector<int>& d) {
  std::string n = name;
  if (!d.empty()) { n += "@"; for (size_t i = 0; i < d.size(); i++) { n += std::to_string(d[i]); n += '.'; } }
  return mk(O_UF, S_REAL, 0, args, 0, 0, n);
}
T bitsOf(T r, unsigned w) {
  if (r->op == O_FROMBITS) return r->a[0];
  if (isRC(r) || isSpecial(r)) {
    double d = realConstApprox(r);
    if (w == 32) { float f = d; uint32_t u; memcpy(&u, &f, 4); return mkBV64(32, u); }
    uint64_t u; memcpy(&u, &d, 8); return mkBV64(64, u);
  }
  return mk(O_BITS, S_BV, w, {r});
}
T fromBits(T b, bool f32) {
  if (b->op == O_BITS) return b->a[0];
  if (isBVC(b)) {
    uint64_t u = mpz_get_ui(b->z.get_mpz_t());
    if (f32) { uint32_t v = u; float f; memcpy(&f, &v, 4); return mkFloatLit(f); }
    double d; memcpy(&d, &u, 8); return mkDouble(d);
  }
  if (!g_ieee) {
    // ite over constants
    if (b->op == O_ITE) return mk(O_ITE, S_REAL, 0, {b->a[0], fromBits(b->a[1], f32), fromBits(b->a[2], f32)});
  }
  return mk(O_FROMBITS, f32 && g_ieee ? S_F32 : S_REAL, 0, {b});
}

// ---------------------------------------------------------------- calculus
static T diffRec(T e, T v, std::unordered_map<T, T>& memo) {
  if (e == v) return mkReal(1);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  T r = nullptr;
  auto D = [&](int i) { return diffRec(e->a[i], v, memo); };
  auto two = mkReal(2);
  switch (e->op) {
    case O_RC: case O_SPECIAL: case O_PI: case O_VAR: case O_SI2R: case O_UI2R: case O_FROMBITS: r = mkReal(0); break;
    case O_RADD: r = rAdd(D(0), D(1)); break;
    case O_RSUB: r = rSub(D(0), D(1)); break;
    case O_RNEG: r = rNeg(D(0)); break;
    case O_RMUL: r = rAdd(rMul(D(0), e->a[1]), rMul(e->a[0], D(1))); break;
    case O_RDIV: {
      T da = D(0), db = D(1);
      r = rDiv(da, e->a[1]);
      if (!(isRC(db) && db->q == 0)) r = rSub(r, rDiv(rMul(e, db), e->a[1]));
      break;
    }
    case O_SQRT: { T d = D(0); r = isRC(d) && d->q == 0 ? d : rDiv(d, rMul(two, e)); break; }
    case O_SIN: { T d = D(0); r = isRC(d) && d->q == 0 ? d : rMul(rFn(O_COS, e->a[0]), d); break; }
    case O_COS: { T d = D(0); r = isRC(d) && d->q == 0 ? d : rNeg(rMul(rFn(O_SIN, e->a[0]), d)); break; }
    case O_TAN: { T d = D(0); r = isRC(d) && d->q == 0 ? d : rMul(rAdd(mkReal(1), rMul(e, e)), d); break; }
    case O_ASIN: { T d = D(0); r = isRC(d) && d->q == 0 ? d : rDiv(d, rFn(O_SQRT, rSub(mkReal(1), rMul(e->a[0], e->a[0])))); break; }
    case O_ACOS: { T d = D(0); r = isRC(d) && d->q == 0 ? d : rNeg(rDiv(d, rFn(O_SQRT, rSub(mkReal(1), rMul(e->a[0], e->a[0]))))); break; }
    case O_ATAN: { T d = D(0); r = isRC(d) && d->q == 0 ? d : rDiv(d, rAdd(mkReal(1), rMul(e->a[0], e->a[0]))); break; }
    case O_ATAN2: {
      T dy = D(0), dx = D(1);
      T y = e->a[0], x = e->a[1];
      T n = rSub(rMul(x, dy), rMul(y, dx));
      r = isRC(n) && n->q == 0 ? n : rDiv(n, rAdd(rMul(x, x), rMul(y, y)));
      break;
    }
    case O_EXP: r = rMul(e, D(0)); break;
    case O_LOG: r = rDiv(D(0), e->a[0]); break;
    case O_UF: {
      std::string base = e->name; std::vector<int> ds;
      size_t at = base.find('@');
      if (at != std::string::npos) {
        std::string rest = base.substr(at + 1); base = base.substr(0, at);
        std::stringstream ss(rest); std::string tok;
        while (std::getline(ss, tok, '.')) if (!tok.empty()) ds.push_back(atoi(tok.c_str()));
      }
      r = mkReal(0);
      for (size_t i = 0; i < e->a.size(); i++) {
        T d = D(i);
        if (isRC(d) && d->q == 0) continue;
        std::vector<int> d2 = ds; d2.push_back(i); std::sort(d2.begin(), d2.end());
        r = rAdd(r, rMul(rUF(base, e->a, d2), d));
      }
      break;
    }
    case O_ITE: r = mkIte(e->a[0], D(1), D(2)); break;
    default: throw EngineError("diff: unsupported op");
  }
  memo[e] = r;
  return r;
}
T diff(T e, T v) { std::unordered_map<T, T> m; return diffRec(e, v, m); }

static T rebuild(T e, const std::vector<T>& a) {
  switch (e->op) {
    case O_RADD: return rAdd(a[0], a[1]); case O_RSUB: return rSub(a[0], a[1]); case O_RMUL: return rMul(a[0], a[1]);
    case O_RDIV: return rDiv(a[0], a[1]); case O_RNEG: return rNeg(a[0]);
    case O_SQRT: case O_SIN: case O_COS: case O_TAN: case O_ASIN: case O_ACOS: case O_ATAN: case O_EXP: case O_LOG: return rFn(e->op, a[0]);
    case O_ATAN2: return rAtan2(a[0], a[1]);
    case O_RLT: case O_RLE: case O_REQ: return rCmp(e->op, a[0], a[1]);
    case O_NOT: return mkNot(a[0]); case O_BAND: return mkAnd(a[0], a[1]); case O_BOR: return mkOr(a[0], a[1]);
    case O_ITE: return mkIte(a[0], a[1], a[2]);
    default: return mk(e->op, e->sort, e->w, a, e->n1, e->n2, e->name);
  }
}
static T substRec(T e, const std::map<T, T>& m, std::unordered_map<T, T>& memo) {
  auto f = m.find(e);
  if (f != m.end()) return f->second;
  if (e->a.empty()) return e;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  std::vector<T> a; bool ch = false;
  for (T x : e->a) { T y = substRec(x, m, memo); ch |= y != x; a.push_back(y); }
  T r = ch ? rebuild(e, a) : e;
  memo[e] = r;
  return r;
}
T subst(T e, const std::map<T, T>& m) { std::unordered_map<T, T> memo; return substRec(e, m, memo); }

void collectVars(T t, std::vector<T>& out) {
  std::unordered_set<T> seen; std::vector<T> st{t};
  while (!st.empty()) {
    T x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    if (x->op == O_VAR) out.push_back(x);
    for (T y : x->a) st.push_back(y);
  }
}

// ---------------------------------------------------------------- numeric evaluation
static double ufEval(const std::string& name, const std::vector<double>& a) {
  // a fixed smooth "generic" function per UF name, so that samples can witness facts about UFs.
  // derivatives ("@i.") are obtained from the same closed form: f = sum_k c_k sin(w_k . a + p_k)
  std::string base = name; std::vector<int> ds;
  size_t at = base.find('@');
  if (at != std::string::npos) {
    std::string rest = base.substr(at + 1); base = base.substr(0, at);
    std::stringstream ss(rest); std::string tok;
    while (std::getline(ss, tok, '.')) if (!tok.empty()) ds.push_back(atoi(tok.c_str()));
  }
  double r = 0;
  for (int k = 0; k < 3; k++) {
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; };
    for (char c : base) mix((unsigned char)c);
    mix(k + 17);
    auto u = [&](int j) { uint64_t g = h; g ^= (uint64_t)(j + 1) * 0x9E3779B97F4A7C15ull; g *= 0xBF58476D1CE4E5B9ull; g ^= g >> 31; g *= 0x94D049BB133111EBull; g ^= g >> 29; return (double)(g >> 11) / 9007199254740992.0; };
    double ph = 6.28 * u(100), c = 0.5 + u(101);
    for (size_t i = 0; i < a.size(); i++) ph += (0.3 + 0.9 * u(i)) * a[i];
    for (int i : ds) { c *= (0.3 + 0.9 * u(i)); ph += M_PI / 2; }
    r += c * sin(ph);
  }
  return r;
}
extern "C" double vp_uf_eval_native(const char* name, const double* a, int n) { return ufEval(name, std::vector<double>(a, a + n)); }

double evalReal(T t, Sample& s) {
  switch (t->op) {
    case O_RC: return g_ieee ? t->d : t->q.get_d();
    case O_PI: return M_PI;
    case O_SPECIAL: return specialVal(t);
    case O_VAR: { auto it = s.r.find(t); if (it == s.r.end()) { s.bad = true; return NAN; } return it->second; }
    default: break;
  }
  auto it = s.memoR.find(t);
  if (it != s.memoR.end()) return it->second;
  double r;
  auto A = [&](int i) { return evalReal(t->a[i], s); };
  switch (t->op) {
    case O_RADD: r = A(0) + A(1); break; case O_RSUB: r = A(0) - A(1); break; case O_RMUL: r = A(0) * A(1); break;
    case O_RDIV: r = A(0) / A(1); break; case O_RNEG: r = -A(0); break; case O_SQRT: r = sqrt(A(0)); break;
    case O_SIN: r = sin(A(0)); break; case O_COS: r = cos(A(0)); break; case O_TAN: r = tan(A(0)); break;
    case O_ASIN: r = asin(A(0)); break; case O_ACOS: r = acos(A(0)); break; case O_ATAN: r = atan(A(0)); break;
    case O_ATAN2: r = atan2(A(0), A(1)); break; case O_EXP: r = exp(A(0)); break; case O_LOG: r = log(A(0)); break;
    case O_FABS: r = fabs(A(0)); break;
    case O_FROUND: { double x = A(0); r = t->n1 == 0 ? floor(x) : t->n1 == 1 ? ceil(x) : t->n1 == 2 ? trunc(x) : t->n1 == 3 ? round(x) : nearbyint(x); break; }
    case O_FEXT: r = A(0); break; case O_FTRUNC: r = (float)A(0); break;
    case O_UF: { std::vector<double> v; for (size_t i = 0; i < t->a.size(); i++) v.push_back(A(i)); r = ufEval(t->name, v); break; }
    case O_ITE: { int b = evalBool(t->a[0], s); if (b < 0) { s.bad = true; r = NAN; } else r = b ? A(1) : A(2); break; }
    case O_FROMBITS: { mpz_class z = evalBV(t->a[0], s); uint64_t u = mpz_get_ui(z.get_mpz_t()); if (t->a[0]->w == 32) { uint32_t v = u; float f; memcpy(&f, &v, 4); r = f; } else memcpy(&r, &u, 8); break; }
    case O_SI2R: { mpz_class z = toSigned(evalBV(t->a[0], s), t->a[0]->w); r = z.get_d(); break; }
    case O_UI2R: { r = evalBV(t->a[0], s).get_d(); break; }
    default: s.bad = true; r = NAN;
  }
  if (t->sort == S_F32) r = (float)r;
  s.memoR[t] = r;
  return r;
}
mpz_class evalBV(T t, Sample& s) {
  if (t->op == O_BVC) return t->z;
  if (t->op == O_VAR) { auto it = s.b.find(t); if (it == s.b.end()) { s.bad = true; return 0; } mpz_class z; mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &it->second); return z; }
  auto it = s.memoB.find(t);
  if (it != s.memoB.end()) return it->second;
  mpz_class r = 0;
  auto A = [&](int i) { return evalBV(t->a[i], s); };
  switch (t->op) {
    case O_CONCAT: r = (A(0) << t->a[1]->w) | A(1); break;
    case O_EXTRACT: r = A(0) >> t->n2; break;
    case O_ZEXT: r = A(0); break;
    case O_SEXT: r = toSigned(A(0), t->a[0]->w); break;
    case O_ITE: { int b = evalBool(t->a[0], s); if (b < 0) s.bad = true; r = b == 1 ? A(1) : A(2); break; }
    case O_BITS: { double d = evalReal(t->a[0], s); uint64_t u = 0; if (t->w == 32) { float f = d; memcpy(&u, &f, 4); } else memcpy(&u, &d, 8); mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &u); break; }
    case O_FP2SI: { double d = evalReal(t->a[0], s); if (!std::isfinite(d)) { s.bad = true; break; } r = mpz_class(trunc(d)); break; }
    case O_FP2UI: { double d = evalReal(t->a[0], s); if (!std::isfinite(d)) { s.bad = true; break; } r = mpz_class(trunc(d)); break; }
    default:
      if (!foldBV(t->op, t->w, A(0), A(1), r)) { s.bad = true; r = 0; }
  }
  mpz_class m = r & maskZ(t->w);
  s.memoB[t] = m;
  return m;
}
int evalBool(T t, Sample& s) {
  switch (t->op) {
    case O_BOOLC: return t->n1;
    case O_VAR: { auto it = s.b.find(t); if (it == s.b.end()) { s.bad = true; return -1; } return it->second & 1; }
    case O_NOT: { int a = evalBool(t->a[0], s); return a < 0 ? a : !a; }
    case O_BAND: { int a = evalBool(t->a[0], s), b = evalBool(t->a[1], s); if (a == 0 || b == 0) return 0; return a < 0 || b < 0 ? -1 : 1; }
    case O_BOR: { int a = evalBool(t->a[0], s), b = evalBool(t->a[1], s); if (a == 1 || b == 1) return 1; return a < 0 || b < 0 ? -1 : 0; }
    case O_BXOR: { int a = evalBool(t->a[0], s), b = evalBool(t->a[1], s); return a < 0 || b < 0 ? -1 : a ^ b; }
    case O_ITE: { int c = evalBool(t->a[0], s); return c < 0 ? -1 : evalBool(t->a[c ? 1 : 2], s); }
    case O_EQ: return evalBV(t->a[0], s) == evalBV(t->a[1], s);
    case O_ULT: return evalBV(t->a[0], s) < evalBV(t->a[1], s);
    case O_ULE: return evalBV(t->a[0], s) <= evalBV(t->a[1], s);
    case O_SLT: return toSigned(evalBV(t->a[0], s), t->a[0]->w) < toSigned(evalBV(t->a[1], s), t->a[0]->w);
    case O_SLE: return toSigned(evalBV(t->a[0], s), t->a[0]->w) <= toSigned(evalBV(t->a[1], s), t->a[0]->w);
    case O_FISNAN: return std::isnan(evalReal(t->a[0], s));
    case O_RLT: case O_RLE: case O_REQ: {
      double a = evalReal(t->a[0], s), b = evalReal(t->a[1], s);
      if (g_ieee) return t->op == O_RLT ? a < b : t->op == O_RLE ? a <= b : a == b;
      if (std::isnan(a) || std::isnan(b)) { s.bad = true; return -1; }
      double tol = 1e-9 * (1e-6 + std::max(std::fabs(a), std::fabs(b)));
      if (std::isinf(a) || std::isinf(b)) tol = 0;
      if (std::fabs(a - b) <= tol) return -1;
      return t->op == O_REQ ? 0 : a < b;
    }
    default: s.bad = true; return -1;
  }
}

std::string showTerm(T t, int depth) {
  static const char* nm[] = {"bv", "bool", "real", "special", "pi", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "=", "u<", "u<=", "s<", "s<=", "<", "<=", "==", "not", "band", "bor", "bxor", "+", "-", "*", "/", "neg", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "uf", "bits", "frombits", "si2r", "ui2r", "fabs", "fround", "fp2si", "fp2ui", "isnan", "fext", "ftrunc"};
  switch (t->op) {
    case O_BVC: return t->z.get_str();
    case O_BOOLC: return t->n1 ? "true" : "false";
    case O_RC: if (g_ieee) { char b[40]; snprintf(b, 40, "%.17g", t->d); return b; } return t->q.get_str();
    case O_SPECIAL: return t->n1 == 1 ? "inf" : t->n1 == -1 ? "-inf" : "nan";
    case O_PI: return "PI";
    case O_VAR: return t->name;
    default: break;
  }
  if (depth == 0) return "..";
  std::string r = "(";
  r += t->op == O_UF ? t->name : nm[t->op];
  for (T x : t->a) { r += ' '; r += showTerm(x, depth - 1); }
  return r + ")";
}
