// The optimiser loop, the trust region policies and the problem container; the linear solver and, for the loop, the policy are stand-ins whose answers are arbitrary.
#include <Eigen/Core>
#include <Eigen/Dense>
#include <string>
#include <set>
#include <map>
#include <sstream>
#include <boost/shared_ptr.hpp>
#include <boost/thread.hpp>
#include <boost/unordered_map.hpp>
#include <boost/function.hpp>
#include <functional>
#include <sm_common/assert_macros.hpp>
#define private public
#define protected public
#include <aslam_backend/backend/TrustRegionPolicy.hpp>
#include <aslam_backend/backend/DogLegTrustRegionPolicy.hpp>
#include <aslam_backend/backend/LevenbergMarquardtTrustRegionPolicy.hpp>
#undef private
#undef protected
#include <aslam_backend/backend/Optimizer2.hpp>
#include <aslam_backend/backend/DogLegTrustRegionPolicy.hpp>
#include <aslam_backend/backend/LevenbergMarquardtTrustRegionPolicy.hpp>
#include <aslam_backend/backend/GaussNewtonTrustRegionPolicy.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <aslam_backend/backend/SimpleOptimizationProblem.hpp>
#include <aslam_backend/backend/ErrorTermDs.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <sm_boost/null_deleter.hpp>
#include "vp.h"
using namespace Eigen; using namespace aslam::backend;
template <class T> static boost::shared_ptr<T> own(T& t) { return boost::shared_ptr<T>(&t, sm::null_deleter()); }
static bool throws(std::function<void()> f) { try { f(); } catch (const std::exception&) { return true; } return false; }
static VectorXd vec(const char* n, int k) { VectorXd v(k); for (int i = 0; i < k; i++) v[i] = vp_real(vpn(n, i)); return v; }
struct Dv : public DesignVariable { int n; VectorXd v, o; int ups, revs; Dv(int n_, bool act = true) : n(n_), v(VectorXd::Zero(n_)), o(v), ups(0), revs(0) { setActive(act); setBlockIndex(-1); }
  virtual void revertUpdateImplementation() { v = o; revs++; } virtual void updateImplementation(const double* dp, int s) { o = v; ups++; for (int i = 0; i < s; i++) v[i] += dp[i]; } virtual int minimalDimensionsImplementation() const { return n; }
  virtual void getParametersImplementation(MatrixXd& m) const { m = v; } virtual void setParametersImplementation(const MatrixXd& m) { v = m; } virtual void minimalDifferenceImplementation(const MatrixXd&, VectorXd&) const {} virtual void minimalDifferenceAndJacobianImplementation(const MatrixXd&, VectorXd&, MatrixXd&) const {} };
// an error term whose cost is an arbitrary function of the state
static double costAt(double a, double b, double c) { double x[3] = {a, b, c}; return vp_uf("cost", 3, x); }
struct Et : public ErrorTermDs { Dv *a, *b, *c; int evals; Et(Dv& a_, Dv& b_, Dv& c_) : ErrorTermDs(1), a(&a_), b(&b_), c(&c_), evals(0) { setDesignVariables(a, b, c); } virtual double evaluateErrorImplementation() { evals++; setError(VectorXd::Zero(1)); return costAt(a->v[0], b->v[0], c->v[0]); } virtual void evaluateJacobiansImplementation(JacobianContainer&) const {} };
struct Sol : public LinearSystemSolver { int builds, solves, inits; bool diag, okay; int nt; bool rob; VectorXd cond, next; MatrixXd gjjg; double q; int badSolves; Sol() : builds(0), solves(0), inits(0), diag(false), okay(true), nt(0), rob(false), q(1), badSolves(0) {} virtual void buildSystem(size_t n, bool m) { builds++; nt = n; rob = m; } virtual bool solveSystem(VectorXd& dx) { solves++; cond = _diagonalConditioner; dx = next; if (!okay) badSolves++; return okay; } virtual std::string name() const { return "stand-in"; } virtual double rhsJtJrhs() { return q; } virtual void initMatrixStructureImplementation(const std::vector<DesignVariable*>&, const std::vector<ErrorTerm*>&, bool d) { diag = d; inits++; } void rhsIs(const VectorXd& g) { _rhs = g; } void size(int n) { _JCols = n; } };
// ---- the optimiser loop under an arbitrary policy
struct Pol : public TrustRegionPolicy { Dv *a, *b, *c; double acc[2], cand[2], lastJ, accJ; bool rev, lastFail, pending, started, lin; int k, fails, its; double sa, sc, bb, dX; Pol(Dv& a_, Dv& b_, Dv& c_, bool r) : a(&a_), b(&b_), c(&c_), rev(r), lastFail(false), pending(false), started(false), lin(false), k(0), fails(0), its(0) { acc[0] = a->v[0]; acc[1] = c->v[0]; bb = b->v[0]; sa = a->scaling(); sc = c->scaling(); accJ = lastJ = costAt(acc[0], bb, acc[1]); }
  // settles the step handed out last: what the optimiser must have done with it
  void settle() { if (!pending) return; pending = false; its++; lin = false; lastJ = costAt(cand[0], bb, cand[1]); if (rev && accJ - lastJ < 0) { fails++; lastFail = true; } else { acc[0] = cand[0]; acc[1] = cand[1]; accJ = lastJ; if (rev) lastFail = false; } }
  void look(const char* n) { vp_check_eq(a->v[0], acc[0], (std::string(n) + "_a").c_str()); vp_check_eq(c->v[0], acc[1], (std::string(n) + "_c").c_str()); vp_check_eq(b->v[0], bb, (std::string(n) + "_inactive").c_str()); }
  virtual bool revertOnFailure() { return rev; } virtual bool requiresAugmentedDiagonal() const { return rev; } virtual std::string name() const { return "arbitrary"; } virtual std::ostream& printState(std::ostream& o) const { return o; } virtual void optimizationStartingImplementation(double J) { vp_check(!started && getSolver(), "started_once"); started = true; vp_check_eq(J, accJ, "starting_cost"); }
  virtual bool solveSystemImplementation(double J, bool failed, int nt, VectorXd& dx) { vp_check(started && isFirstIteration() == (k == 0), "first"); settle(); look("state"); vp_check_eq(J, lastJ, "cost_passed"); vp_check(failed == lastFail, "failure_passed"); vp_check(nt == 1, "threads"); k++; dx = vec(vpn("dx", k), 2); if (!vp_bool(vpn("ok", k))) { fails++; lastFail = true; lin = true; return false; } cand[0] = acc[0] + sa * dx[0]; cand[1] = acc[1] + sc * dx[1]; double x = dx[0] < 0 ? -dx[0] : dx[0], y = dx[1] < 0 ? -dx[1] : dx[1]; dX = x > y ? x : y; pending = true; return true; } };
struct Prob { Dv a, b, c; Et e; OptimizationProblem p; Prob() : a(1), b(1, false), c(1), e(a, b, c) { a.v = vec("a", 1); b.v = vec("b", 1); c.v = vec("c", 1); p.addDesignVariable(&a, false); p.addDesignVariable(&b, false); p.addDesignVariable(&c, false); p.addErrorTerm(&e, false); } };
static void loop(bool rev, int maxIt) { Prob q; q.a.setScaling(vp_real("sa")); Sol s; Pol pol(q.a, q.b, q.c, rev); Optimizer2Options o; o.nThreads = 1; o.maxIterations = maxIt; o.convergenceDeltaX = vp_real_in("cX", 0, 10); o.convergenceDeltaJ = vp_real_in("cJ", 0, 10); o.linearSystemSolver = own<LinearSystemSolver>(s); o.trustRegionPolicy = own<TrustRegionPolicy>(pol); Optimizer2 opt(o); opt.setProblem(own<OptimizationProblemBase>(q.p));
  double J0 = pol.accJ; SolutionReturnValue r = opt.optimize(); bool stepped = pol.its + pol.pending; double prev = pol.accJ; pol.settle(); pol.look("final"); vp_check_eq(r.JStart, J0, "JStart"); vp_check_eq(r.JFinal, pol.accJ, "JFinal"); if (rev) vp_check(r.JFinal <= r.JStart, "no_increase"); vp_check(r.iterations == pol.its && r.failedIterations == pol.fails && r.iterations <= maxIt && r.failedIterations <= maxIt, "counts"); vp_check(r.linearSolverFailure == pol.lin, "failure_reported"); (void)prev;
  if (stepped) vp_check_eq(r.dXFinal, pol.dX, "dX"); bool limit = r.iterations == maxIt || r.failedIterations == maxIt; if (!limit) vp_check(!pol.lin && ((r.dXFinal <= o.convergenceDeltaX) | (r.dJFinal <= o.convergenceDeltaJ & r.dJFinal >= -o.convergenceDeltaJ)), "stop_reason"); vp_check(q.b.ups == 0 && q.b.revs == 0, "inactive"); vp_check(s.inits == 1 && s.diag == rev && s.JCols() == 2 && s.JRows() == 1, "structure"); vp_check(opt.numDesignVariables() == 2 && opt.designVariable(0) == &q.a && opt.designVariable(1) == &q.c && q.a.blockIndex() == 0 && q.c.blockIndex() == 1 && q.a.columnBase() == 0 && q.c.columnBase() == 1, "layout"); }
HARNESS(c24_loop_revert) { loop(true, 2); }
HARNESS(c24_loop_keep) { loop(false, 2); }
HARNESS(c24_loop_one) { loop(vp_bool("rev"), 1); }
HARNESS(c24_loop_none) { loop(vp_bool("rev"), 0); }
HARNESS(c24_refused) { Dv a(1, false), b(1), c(1); Et e(a, b, c); Sol s; GaussNewtonTrustRegionPolicy g; Optimizer2Options o; o.nThreads = 1; o.linearSystemSolver = own<LinearSystemSolver>(s); o.trustRegionPolicy = own<TrustRegionPolicy>(g); Optimizer2 opt(o); vp_check(throws([&] { opt.optimize(); }), "no_problem"); OptimizationProblem p; p.addDesignVariable(&a, false); opt.setProblem(own<OptimizationProblemBase>(p)); vp_check(throws([&] { opt.optimize(); }), "no_active_variable"); p.addDesignVariable(&b, false); vp_check(throws([&] { opt.optimize(); }), "no_error_term"); vp_check(a.ups == 0 && b.ups == 0, "untouched"); }
HARNESS(c24_sizes) { Dv a(2), b(1, false), c(1); a.v = vec("a", 2); c.v = vec("c", 1); Et e(a, b, c), f(a, b, c); OptimizationProblem p; p.addDesignVariable(&c, false); p.addDesignVariable(&b, false); p.addDesignVariable(&a, false); p.addErrorTerm(&e, false); p.addErrorTerm(&f, false); Sol s; GaussNewtonTrustRegionPolicy g; s.next = vec("d", 3); Optimizer2Options o; o.nThreads = 1; o.maxIterations = 1; o.linearSystemSolver = own<LinearSystemSolver>(s); o.trustRegionPolicy = own<TrustRegionPolicy>(g); Optimizer2 opt(o); opt.setProblem(own<OptimizationProblemBase>(p)); VectorXd a0 = a.v, c0 = c.v; double ka = vp_real("ka"), kc = vp_real("kc"); a.setScaling(ka); c.setScaling(kc); opt.optimize(); VectorXd a1 = a0 + ka * s.next.tail(2), c1 = c0 + kc * s.next.head(1); vp_eq(a.v, a1, "a"); vp_eq(c.v, c1, "c"); vp_check(e.rowBase() == 0 && f.rowBase() == 1 && a.columnBase() == 1 && c.columnBase() == 0, "layout"); }
// ---- trust region policies under an arbitrary linear solver
HARNESS(c24_gauss_newton) { GaussNewtonTrustRegionPolicy g; Sol s; s.size(2); g.setSolver(own<LinearSystemSolver>(s)); g.optimizationStarting(vp_real("J")); bool failed = false; for (int k = 0; k < 2; k++) { s.next = vec(vpn("d", k), 2); s.okay = vp_bool(vpn("ok", k)); VectorXd dx; bool ok = g.solveSystem(vp_real(vpn("J", k)), failed, 1, dx); vp_check(ok == s.okay && s.builds == k + 1 && s.solves == k + 1 && s.rob, "rebuilt"); vp_eq(dx, s.next, "step"); failed = vp_bool(vpn("fail", k)); } vp_check(!g.revertOnFailure() && !g.requiresAugmentedDiagonal(), "kind"); }

HARNESS(c24_levenberg) { double l0 = vp_real_in("l0", 1e-6, 100); LevenbergMarquardtTrustRegionPolicy m(l0); Sol s; s.size(2); m.setSolver(own<LinearSystemSolver>(s)); double J = vp_real_in("J", 0, 100), acc = J, last = 0; m.optimizationStarting(J); bool failed = false, okay = true; VectorXd dx; vp_check(m.revertOnFailure() && m.requiresAugmentedDiagonal(), "kind"); s.rhsIs(vec("g", 2));
  for (int k = 0; k < 3; k++) { double prev = acc, gain = 1; if (k) { if (okay) J = vp_real_in(vpn("N", k), 0, 100); failed = !okay || J > acc; gain = dx.dot(last * dx + s.rhs()); vp_assume(gain >= 0.01); if (!failed) { acc = J; vp_assume(prev - J >= 0.01); } } int b = s.builds; s.next = vec(vpn("d", k), 2); s.okay = k == 2 || vp_bool(vpn("ok", k)); bool ok = m.solveSystem(J, failed, 1, dx); okay = s.okay; vp_check(ok == okay && s.solves == k + 1 && s.rob, "solved"); vp_eq(dx, s.next, "step"); vp_check_eq(m.get_dJ(), k ? prev - J : 0., "decrease"); vp_check(s.cond.size() == 2, "conditioner_size"); double l = s.cond[0]; vp_check_eq(s.cond[1], l, "constant");
    if (k == 0) { vp_check(s.builds == 1, "first_build"); vp_check_eq(l, l0, "initial"); } else if (failed) { vp_check(s.builds == b, "kept"); vp_check(l >= 2 * last, "more_damping"); } else { vp_check(s.builds == b + 1, "rebuilt"); double rho = (prev - J) / gain, u = 1 - (2 * rho - 1) * (2 * rho - 1) * (2 * rho - 1), f = 1. / 3; vp_check_eq(l, last * (f > u ? f : u), "schedule"); vp_check((l > 0) & (l <= 2 * last), "bounded"); break; } last = l; } }
// One call from an arbitrary state of the policy. Rotations leave the problem alone, so the gradient lies on the first axis.
struct Dog { DogLegTrustRegionPolicy d; Sol s; double acc, J, delta0, L0, t, gnn, alpha, sig, gn[2]; int type; bool failed;
  Dog() { s.size(2); d.setSolver(own<LinearSystemSolver>(s)); acc = vp_real_in("acc", 0, 100); d.optimizationStarting(acc); J = vp_real_in("J", 0, 100); failed = J > acc; d._isFirstIteration = false; d._delta = delta0 = vp_real_in("delta", 0.1, 10); d._L0 = L0 = vp_real_in("L0", 0.1, 10); t = vp_real_in("t", 0, 10); vp_assume(t <= delta0); d._dx = VectorXd::Zero(2); d._dx[0] = t; gnn = vp_real_in("gnn", 0, 10); type = vp_choice("type", 3); d._stepType = type == 0 ? "SD" : type == 1 ? "GN" : "DL"; if (type == 1) vp_assume(gnn <= delta0); d._dx_gn_norm = gnn; }
  // what the region has to become
  double region() { double rho = (acc - J) / L0; if (rho > 0.75) return delta0 > 3 * t ? delta0 : 3 * t; if (rho > 0 && rho < 0.25) return delta0 / 2; if (rho <= 0) return type == 1 ? gnn / 2 : delta0 / 2; return delta0; }
  void after(const VectorXd& dx, double a, double sd, double gg, double u, double v) { double D = region(); vp_check_eq(d._delta, D, "region"); if (failed) vp_check(d._delta <= delta0 / 2, "shrinks"); if (d._stepType == "SD") { vp_check(sd >= D, "sd_only_outside"); vp_check_eq(dx[0], D, "sd"); vp_check_eq(dx[1], 0, "sd"); vp_check_eq(d._L0, D * (2 * sd - D) / (2 * a), "sd_gain"); } else if (d._stepType == "GN") { vp_check_eq(dx[0], u, "gn"); vp_check_eq(dx[1], v, "gn"); vp_check(u * u + v * v <= D * D, "gn_inside"); vp_check_eq(d._L0, J, "gn_gain"); } else { double b = d._beta; vp_check_eq(dx[0], sd + b * (u - sd), "dl"); vp_check_eq(dx[1], b * v, "dl"); vp_check_eq(dx.squaredNorm(), D * D, "dl_radius"); vp_check_eq(d._L0, 0.5 * a * (1 - b) * (1 - b) * gg + b * (2 - b) * J, "dl_gain"); } } };
HARNESS(c24_dogleg_step) { Dog x; vp_assume(!x.failed); double g = vp_real_in("g", 0.1, 10), q = vp_real_in("q", 0.1, 10), u = vp_real_in("u", -10, 10), v = vp_real_in("v", 0, 10); VectorXd r = VectorXd::Zero(2); r[0] = g; x.s.rhsIs(r); x.s.q = q; x.s.next = VectorXd::Zero(2); x.s.next[0] = u; x.s.next[1] = v; VectorXd dx; vp_assume(x.region() >= 0.01); bool ok = x.d.solveSystem(x.J, false, 1, dx); vp_check(ok && x.s.builds == 1 && x.s.rob, "rebuilt"); double a = g * g / q; x.after(dx, a, a * g, g * g, u, v); vp_check(x.s.solves == (x.d._stepType != "SD"), "solved"); }
HARNESS(c24_dogleg_retry) { Dog x; vp_assume(x.failed); double g = vp_real_in("g", 0.1, 10), q = vp_real_in("q", 0.1, 10), u = vp_real_in("u", -10, 10), v = vp_real_in("v", 0, 10); VectorXd r = VectorXd::Zero(2); r[0] = g; x.s.rhsIs(r); double a = g * g / q; x.d._sd_scale = a; x.d._dx_sd = a * r; x.d._dx_sd_norm = a * g; bool had = vp_bool("had"); x.d._dx_gn = x.s.next = VectorXd::Zero(2); x.s.next[0] = u; x.s.next[1] = v; if (had) { x.d._dx_gn = x.s.next; } x.d._gnComputed = had; if (had) { x.d._dx_gn_norm = x.gnn; vp_assume((u * u + v * v <= x.gnn * x.gnn) & (u * u + v * v >= x.gnn * x.gnn)); } else vp_assume(x.type != 1); vp_assume(x.region() >= 0.01); VectorXd dx; bool ok = x.d.solveSystem(x.J, true, 1, dx); vp_check(ok && x.s.builds == 0, "not_rebuilt"); x.after(dx, a, a * g, g * g, u, v); vp_check(x.s.solves == (x.d._stepType != "SD" && !had), "solved_once"); }
HARNESS(c24_dogleg_first) { DogLegTrustRegionPolicy d; Sol s; s.size(2); d.setSolver(own<LinearSystemSolver>(s)); double g = vp_real_in("g", 0.1, 10), q = vp_real_in("q", 0.1, 10), J = vp_real_in("J", 0, 10); VectorXd r = VectorXd::Zero(2); r[0] = g; s.rhsIs(r); s.q = q; double a = g * g / q, u = vp_real_in("u", -10, 10), v = vp_real_in("v", 0.1, 10); if (vp_bool("again")) { d._delta = 3; d._stepType = "GN"; d._L0 = 1; d._gnComputed = true; } d.optimizationStarting(J); VectorXd dx; int fails = vp_choice("fails", 3); for (int k = 0; k < fails; k++) { s.okay = false; s.next = VectorXd(2); s.next[0] = s.next[1] = 77; vp_check(!d.solveSystem(J, k > 0, 1, dx) && s.builds == 1 && s.solves == k + 1, "failure"); } s.okay = true; s.next = VectorXd::Zero(2); s.next[0] = u; s.next[1] = v; vp_check(d.solveSystem(J, fails > 0, 1, dx) && s.builds == 1 && s.solves == fails + 1, "recovered"); double sd = a * g, mx = (sd + u) / 2, my = v / 2; vp_check_eq(d._delta * d._delta, mx * mx + my * my, "first_region"); vp_check(d._delta > 0, "positive"); if (d._stepType == "GN") { vp_eq(dx, s.next, "gn"); vp_check(d._dx_gn_norm <= d._delta, "inside"); vp_check_eq(d._dx_gn_norm * d._dx_gn_norm, u * u + v * v, "gn_norm"); } else { vp_check(d._stepType == "DL", "type"); vp_check_eq(dx.squaredNorm(), d._delta * d._delta, "radius"); } vp_check(d.revertOnFailure() && !d.requiresAugmentedDiagonal(), "kind"); }
HARNESS(c24_decrease) { DogLegTrustRegionPolicy d; Sol s; s.size(1); d.setSolver(own<LinearSystemSolver>(s)); VectorXd r(1); r[0] = 1; s.rhsIs(r); s.next = r; double J = vp_real_in("J", 0, 10), acc = J; d.optimizationStarting(J); VectorXd dx; bool failed = false; for (int k = 0; k < 4; k++) { double prev = acc; if (k) { J = vp_real_in(vpn("N", k), 0, 10); failed = J > acc; if (!failed) acc = J; } d._L0 = 1e6; d._delta = 5; d.solveSystem(J, failed, 1, dx); vp_check_eq(d.get_dJ(), k ? prev - J : 0., "decrease"); } }
// ---- the problem container
HARNESS(c26_history) { Dv a(1), b(1), c(1); Dv* d[3] = {&a, &b, &c}; Et e(a, b, c); struct E2 : public ErrorTermDs { E2(std::vector<DesignVariable*> v) : ErrorTermDs(1) { setDesignVariables(v); } virtual double evaluateErrorImplementation() { return 0; } virtual void evaluateJacobiansImplementation(JacobianContainer&) const {} } f({&a, &b}), g({&c}); ErrorTerm* t[2] = {&f, &g}; std::set<DesignVariable*> need[2] = {{&a, &b}, {&c}}; OptimizationProblem p; std::vector<DesignVariable*> dv; std::vector<ErrorTerm*> et;
  for (int k = 0; k < 4; k++) { int op = vp_choice(vpn("op", k), 4); if (op == 0) { int i = vp_choice(vpn("i", k), 3); bool has = std::find(dv.begin(), dv.end(), d[i]) != dv.end(); bool th = throws([&] { p.addDesignVariable(d[i], false); }); vp_check(th == has, "add_variable"); if (!has) dv.push_back(d[i]); } else if (op == 1) { int j = vp_choice(vpn("j", k), 2); if (std::find(et.begin(), et.end(), t[j]) != et.end()) continue; bool okd = true; for (auto* q : need[j]) okd = okd && std::find(dv.begin(), dv.end(), q) != dv.end(); bool th = throws([&] { p.addErrorTerm(t[j], false); }); vp_check(th == !okd, "add_term"); if (okd) et.push_back(t[j]); } else if (op == 2) { int i = vp_choice(vpn("i", k), 3); p.removeDesignVariable(d[i]); auto it = std::find(dv.begin(), dv.end(), d[i]); if (it != dv.end()) dv.erase(it); for (int j = 0; j < 2; j++) if (need[j].count(d[i])) { auto jt = std::find(et.begin(), et.end(), t[j]); if (jt != et.end()) et.erase(jt); } } else { int j = vp_choice(vpn("j", k), 2); p.removeErrorTerm(t[j]); auto jt = std::find(et.begin(), et.end(), t[j]); if (jt != et.end()) et.erase(jt); }
    vp_check(p.numDesignVariables() == dv.size() && p.numErrorTerms() == et.size(), "counts"); if (p.numDesignVariables() != dv.size() || p.numErrorTerms() != et.size()) return; for (size_t i = 0; i < dv.size(); i++) vp_check(p.designVariable(i) == dv[i], "variable_order"); for (size_t i = 0; i < et.size(); i++) vp_check(p.errorTerm(i) == et[i], "term_order"); for (int i = 0; i < 3; i++) { vp_check(p.isDesignVariableInProblem(d[i]) == (std::find(dv.begin(), dv.end(), d[i]) != dv.end()), "contains"); std::set<ErrorTerm*> s, w; p.getErrors(d[i], s); for (int j = 0; j < 2; j++) if (need[j].count(d[i]) && std::find(et.begin(), et.end(), t[j]) != et.end()) w.insert(t[j]); vp_check(s == w, "terms_of_variable"); } vp_check(throws([&] { p.designVariable(dv.size()); }) && throws([&] { p.errorTerm(et.size()); }), "range"); }
  p.clear(); std::set<ErrorTerm*> s; p.getErrors(&a, s); vp_check(p.numDesignVariables() == 0 && p.numErrorTerms() == 0 && s.empty(), "clear"); }
static int gDead[2]; struct Od : public Dv { int k; Od(int k_) : Dv(1), k(k_) {} virtual ~Od() { gDead[0]++; } }; struct Oe : public ErrorTermDs { Oe(DesignVariable* v) : ErrorTermDs(1) { setDesignVariables(v); } virtual ~Oe() { gDead[1]++; } virtual double evaluateErrorImplementation() { return 0; } virtual void evaluateJacobiansImplementation(JacobianContainer&) const {} };
HARNESS(c26_ownership) { gDead[0] = gDead[1] = 0; Od keep(0); Oe* kept = 0; { OptimizationProblem p; Od* o = new Od(1); p.addDesignVariable(o, true); p.addDesignVariable(&keep, false); p.addErrorTerm(new Oe(o), true); kept = new Oe(&keep); p.addErrorTerm(kept, false); int w = vp_choice("w", 4); if (w == 0) { p.removeDesignVariable(o); vp_check(gDead[0] == 1 && gDead[1] == 1, "removed"); } else if (w == 1) { p.clear(); vp_check(gDead[0] == 1 && gDead[1] == 1, "cleared"); } else if (w == 2) { p.removeDesignVariable(&keep); vp_check(gDead[0] == 0 && gDead[1] == 0 && p.numErrorTerms() == 1, "not_owned"); } vp_check(p.countActiveDesignVariables() == (w == 1 ? 0 : w == 0 || w == 2 ? 1 : 2), "active"); } vp_check(gDead[0] == 1 && gDead[1] == 1, "end"); delete kept; }
HARNESS(c26_simple) { Dv a(1), b(1, false); Dv* d[2] = {&a, &b}; Oe e(&a), f(&b); SimpleOptimizationProblem p; int o = vp_choice("o", 2); p.addDesignVariable(d[o], false); vp_check(throws([&] { p.addDesignVariable(d[o], false); }) && throws([&] { p.addDesignVariable(own<DesignVariable>(*d[o])); }), "twice"); vp_check(p.isDesignVariableInProblem(d[o]) && !p.isDesignVariableInProblem(d[1 - o]), "contains"); p.addDesignVariable(own<DesignVariable>(*d[1 - o])); p.addErrorTerm(&e, false); p.addErrorTerm(&f, false); vp_check(p.numDesignVariables() == 2 && p.numErrorTerms() == 2 && p.designVariable(0) == d[o] && p.designVariable(1) == d[1 - o] && p.errorTerm(0) == &e && p.errorTerm(1) == &f, "content"); p.clear(); vp_check(p.numDesignVariables() == 0 && p.numErrorTerms() == 0, "clear"); }
