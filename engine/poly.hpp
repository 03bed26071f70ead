// Rational-function normal form over the reals with algebraic / trigonometric relations.
#pragma once
#include "term.hpp"
#include <memory>
#include <set>

typedef std::vector<uint32_t> Mono;   // (atom << 10 | exponent), descending
struct Poly {
  std::vector<std::pair<Mono, mpq_class>> t;   // descending monomials, non-zero coefficients
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first.empty()); }
  mpq_class cst() const { return t.empty() ? mpq_class(0) : t[0].second; }
};
Poly pConst(const mpq_class& c);
Poly pAtom(int a);
Poly pAdd(const Poly& a, const Poly& b);
Poly pSub(const Poly& a, const Poly& b);
Poly pNeg(const Poly& a);
Poly pScale(const Poly& a, const mpq_class& c);
Poly pMulRaw(const Poly& a, const Poly& b);          // no reduction
Poly pMul(const Poly& a, const Poly& b);             // reduced modulo the relations
bool pEq(const Poly& a, const Poly& b);
bool pDivExact(const Poly& a, const Poly& b, Poly& q);
typedef std::map<int, Poly> Cof;                      // relation atom -> cofactor
Poly pReduce(const Poly& a, Cof* cof = nullptr);
std::string pKey(const Poly& p);
std::string pShow(const Poly& p, size_t maxTerms = 12);

struct RatFn { Poly n; std::map<int, int> d; };      // factor id -> exponent
const Poly& factorPoly(int fid);
Poly denPoly(const RatFn& r);

enum AtomKind { A_VAR, A_PI, A_SQRT, A_SIN, A_COS, A_FUN, A_UF };
struct Atom {
  AtomKind kind; T term = nullptr;  // VAR
  Op fn = O_VAR;                    // A_FUN
  Poly rad;                         // A_SQRT radicand
  std::vector<RatFn> args;          // FUN / UF / SIN / COS (arg[0])
  std::string name; int pair = -1;  // SIN<->COS partner
  bool hasRel = false; Poly rel;    // a^2 = rel
};
extern std::vector<Atom> g_atoms;
int atomOfVar(T v);
void addRelation(int atom, const Poly& sq);           // atom^2 = sq
void addSubstitution(int atom, const Poly& value);    // atom = value  (from equalities on the path)
typedef std::shared_ptr<const RatFn> RF;
RF canon(T t);
extern int g_quiet, g_emit;                                   // > 0: no sign questions (used while a solver script is written)
void canonReset();                                    // forget memo (after new relations)
std::string rfKey(const RatFn& r);
RatFn rfAdd(const RatFn& a, const RatFn& b); RatFn rfSub(const RatFn& a, const RatFn& b); RatFn rfMul(const RatFn& a, const RatFn& b); RatFn rfDiv(const RatFn& a, const RatFn& b);
RatFn rfConst(const mpq_class& c);
RatFn rfPoly(const Poly& p);
double evalPoly(const Poly& p, std::unordered_map<int, double>& v);

// thrown when normalisation needs a case split on the path
struct NeedSplit { T cond; };
// asked by the normaliser: sign knowledge about a term on the current path: 1 (>=0) -1 (<=0) 0 unknown
extern std::function<int(const Poly&)> g_signOracle;
T polyToTerm(const Poly& p);
T rfToTerm(const RatFn& r);
T atomTerm(int a);
extern uint64_t g_polyBudget;   // term-operation budget (0 = unlimited) -> throws PolyBudget
struct PolyBudget {};
