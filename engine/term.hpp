// Hash-consed term DAG shared by the executor, the normaliser and the SMT printer.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include <stdexcept>
#include <functional>

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };

enum Op : uint8_t {
  // leaves
  O_BVC, O_BOOLC, O_RC, O_SPECIAL, O_PI, O_VAR,
  // bit-vectors
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  // predicates
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_RLT, O_RLE, O_REQ,
  // booleans
  O_NOT, O_BAND, O_BOR, O_BXOR,
  // reals / floats
  O_RADD, O_RSUB, O_RMUL, O_RDIV, O_RNEG, O_SQRT, O_SIN, O_COS, O_TAN, O_ASIN, O_ACOS, O_ATAN, O_ATAN2,
  O_EXP, O_LOG, O_UF, O_BITS, O_FROMBITS, O_SI2R, O_UI2R,
  // ieee only
  O_FABS, O_FROUND /* n = rm: 0 floor 1 ceil 2 trunc 3 rna 4 rne */, O_FP2SI, O_FP2UI, O_FISNAN, O_FEXT, O_FTRUNC
};
enum Sort : uint8_t { S_BOOL, S_BV, S_REAL, S_F32 /*ieee mode only*/ };

struct Term {
  Op op; Sort sort; uint16_t w;     // width for BV
  int n1 = 0, n2 = 0;               // extract hi/lo; UF name id; special kind
  uint32_t id;
  std::vector<const Term*> a;
  mpz_class z;                      // BVC
  mpq_class q;                      // RC
  std::string name;                 // VAR / UF
  double d = 0;                     // ieee constants
};
typedef const Term* T;

extern bool g_ieee, g_roundSqrt;

T mkBV(unsigned w, const mpz_class& v);
T mkBV64(unsigned w, uint64_t v);
T mkBool(bool b);
T mkReal(const mpq_class& q);
T mkDouble(double d);       // literal -> real (with rationalisation) or ieee constant
T mkFloatLit(float d);
T mkIeee(double d, bool f32 = false);
T mkSpecial(int k);         // 1 inf, -1 -inf, 2 nan
T mkPi();
T mkVar(const std::string& n, Sort s, unsigned w = 0);
T mk(Op op, Sort s, unsigned w, const std::vector<T>& a, int n1 = 0, int n2 = 0, const std::string& name = "");

inline bool isBVC(T t) { return t->op == O_BVC; }
inline bool isBoolC(T t) { return t->op == O_BOOLC; }
inline bool isRC(T t) { return t->op == O_RC; }
inline bool isSpecial(T t) { return t->op == O_SPECIAL; }

// smart constructors
T bvBin(Op op, T a, T b);
T bvCmp(Op op, T a, T b);
T bvExtract(T a, unsigned hi, unsigned lo);
T bvConcat(T hi, T lo);
T bvExt(Op op, T a, unsigned w);
T mkIte(T c, T a, T b);
T mkNot(T a);
T mkAnd(T a, T b);
T mkOr(T a, T b);
T mkBXor(T a, T b);
T mkEqBool(T a, T b);
T boolToBV(T b, unsigned w, bool sgn);

T rAdd(T a, T b); T rSub(T a, T b); T rMul(T a, T b); T rDiv(T a, T b); T rNeg(T a);
T rPowInt(T a, long n);
T rCmp(Op op, T a, T b);     // RLT RLE REQ
T rFn(Op op, T a);           // sin cos ...
T rAtan2(T y, T x);
T rUF(const std::string& name, const std::vector<T>& args, const std::vector<int>& d);
T bitsOf(T r, unsigned w = 64);
T fromBits(T b, bool f32 = false);

T diff(T e, T var);
T subst(T e, const std::map<T, T>& m);
double realConstApprox(T t);   // for O_RC / O_PI / special
double specialVal(T t);
double qToDouble(const mpq_class& q);
void collectVars(T t, std::vector<T>& out);

// numeric evaluation on an assignment
struct Sample {
  std::unordered_map<T, double> r;      // real vars
  std::unordered_map<T, uint64_t> b;    // bv vars (<=64)
  std::unordered_map<T, double> memoR;
  std::unordered_map<T, mpz_class> memoB;
  bool bad = false;
};
double evalReal(T t, Sample& s);
mpz_class evalBV(T t, Sample& s);
// returns 1 true, 0 false, -1 too close to call
int evalBool(T t, Sample& s);
std::string showTerm(T t, int depth = 6);
