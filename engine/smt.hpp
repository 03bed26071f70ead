#pragma once
#include "poly.hpp"
#include <set>
enum SmtR { SMT_UNSAT, SMT_SAT, SMT_UNKNOWN };
struct SmtStats { uint64_t queries = 0, unsat = 0, sat = 0, unknown = 0; double ms = 0; };
extern SmtStats g_smt;
struct Model { std::map<T, double> r; std::map<T, mpq_class> rq; std::map<T, uint64_t> b; };

// builds one SMT-LIB script
struct Emitter {
  std::string out; std::set<std::string> decl; std::map<int, bool> atomDone; std::unordered_map<T, std::string> node;
  std::vector<T> vars; std::set<T> varSet; bool raw = false; bool lemmas = true; bool useCanonCmp = true;
  std::string b(T t);         // boolean term
  std::string bv(T t);
  std::string re(T t);        // raw real / fp term
  std::string poly(const Poly& p); std::string rf(const RatFn& r); int rfCount = 0;
  void atom(int a); void funFacts(Op fn, const std::string& n, const std::string& x);
  void assertB(T t);
  void assertS(const std::string& s) { out += "(assert " + s + ")\n"; }
  std::string def(T t, const std::string& sort, const std::string& body);
  void var(T v);
};
std::string qStr(const mpq_class& q);
SmtR smtRun(Emitter& e, int timeoutMs, Model* m = nullptr);
void smtAfterFork();
extern std::map<int, int> g_unitLast;   // variable atom of a unit vector -> the atom that carries the norm relation
extern std::string g_smtDump;
extern std::string g_smtCmd;
