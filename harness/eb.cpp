#include <Eigen/Core>
#include <Eigen/Dense>
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <aslam_backend/backend/ErrorTerm.hpp>
#include <aslam_backend/backend/ErrorTermDs.hpp>
#include <aslam_backend/backend/MEstimatorPolicies.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include "vp.h"
using namespace Eigen; using namespace aslam::backend;
struct Dv : public DesignVariable { int n; VectorXd v, o; Dv(int n_, int b, bool act = true) : n(n_), v(VectorXd::Zero(n_)), o(v) { setBlockIndex(b); setActive(act); }
  virtual void revertUpdateImplementation() { v = o; } virtual void updateImplementation(const double* dp, int s) { o = v; for (int i = 0; i < s; i++) v[i] += dp[i]; } virtual int minimalDimensionsImplementation() const { return n; }
  virtual void getParametersImplementation(MatrixXd& m) const { m = v; } virtual void setParametersImplementation(const MatrixXd& m) { v = m; } virtual void minimalDifferenceImplementation(const MatrixXd&, VectorXd&) const {} virtual void minimalDifferenceAndJacobianImplementation(const MatrixXd&, VectorXd&, MatrixXd&) const {} };
static MatrixXd mat(const char* n, int r, int c) { MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = vp_real(vpn(n, i, j)); return m; }
static VectorXd vec(const char* n, int k) { VectorXd v(k); for (int i = 0; i < k; i++) v[i] = vp_real(vpn(n, i)); return v; }
static const int DIM[3] = {1, 2, 1}, OFF[4] = {0, 1, 3, 4};
struct Ctx { Dv a, b, c; Dv* d[3]; Ctx() : a(1, 0), b(2, 1), c(1, 2) { d[0] = &a; d[1] = &b; d[2] = &c; } };
// a sequence of additions in arbitrary order, with repetitions and inactive variables; D accumulates densely
static void seq(Ctx& x, JacobianContainer& jc, const char* n, int len, MatrixXd& D, bool act[3]) { D = MatrixXd::Zero(2, 4); for (int k = 0; k < len; k++) { int i = vp_choice(vpn((std::string(n) + "w").c_str(), k), 3); MatrixXd J = mat(vpn(n, k), 2, DIM[i]); jc.add(x.d[i], J); if (act[i]) D.block(0, OFF[i], 2, DIM[i]) += J; } }
static MatrixXd dense(const JacobianContainer& jc) { MatrixXd D = MatrixXd::Zero(jc.rows(), 4); int last = -1; for (auto it = jc.begin(); it != jc.end(); ++it) { int b = it->first->blockIndex(); vp_check(b > last, "ordered"); last = b; vp_check(it->second.rows() == jc.rows() && it->second.cols() == it->first->minimalDimensions(), "block_dims"); D.block(0, OFF[b], jc.rows(), DIM[b]) = it->second; } return D; }
HARNESS(c13_add) { Ctx x; bool act[3]; for (int i = 0; i < 3; i++) { act[i] = vp_bool(vpn("act", i)); x.d[i]->setActive(act[i]); } JacobianContainer jc(2); MatrixXd D; seq(x, jc, "J", 3, D, act); vp_eq(dense(jc), D, "sum"); int n = 0, c = 0; for (auto it = jc.begin(); it != jc.end(); ++it) { n++; c += it->first->minimalDimensions(); vp_check(it->first->isActive(), "active_only"); vp_eq(jc.Jacobian(it->first), it->second, "lookup"); } vp_check((int)jc.numDesignVariables() == n && jc.cols() == c, "counts"); }
HARNESS(c13_merge) { Ctx x; bool act[3] = {true, true, true}; JacobianContainer p(2), q(2); MatrixXd P, Q; seq(x, p, "p", 2, P, act); seq(x, q, "q", 3, Q, act); p.add(q); vp_eq(dense(p), P + Q, "sum"); vp_eq(dense(q), Q, "rhs_kept"); JacobianContainer e(2); e.add(q); vp_eq(dense(e), Q, "into_empty"); JacobianContainer f(2); q.add(f); vp_eq(dense(q), Q, "add_empty"); }
HARNESS(c13_chain) { Ctx x; bool act[3] = {true, true, true}; JacobianContainer p(2); MatrixXd P; seq(x, p, "p", 3, P, act); MatrixXd A = mat("A", 3, 2); p.applyChainRule(A); vp_check(p.rows() == 3, "rows"); vp_eq(dense(p), A * P, "chain"); bool t = false; try { p.applyChainRule(A); } catch (const std::exception&) { t = true; } vp_check(t, "dims_refused"); JacobianContainer r(2); t = false; try { r.add(p); } catch (const std::exception&) { t = true; } vp_check(t, "rows_refused"); t = false; try { r.add(&x.b, mat("B", 2, 1)); } catch (const std::exception&) { t = true; } vp_check(t, "cols_refused"); t = false; try { r.add(&x.a, mat("C", 1, 1)); } catch (const std::exception&) { t = true; } vp_check(t, "block_rows_refused"); t = false; try { r.Jacobian(&x.a); } catch (const std::exception&) { t = true; } vp_check(t, "missing_refused"); }
HARNESS(c13_views) { Ctx x; bool act[3] = {true, true, true}; JacobianContainer p(2); MatrixXd P; seq(x, p, "p", 2, P, act); std::vector<int> ci{1, 3, 4}; vp_eq(p.asDenseMatrix(ci), P, "dense_layout"); vp_eq(p.asSparseMatrix(ci).toDense(), P, "sparse_layout"); MatrixXd C = p.asDenseMatrix(); vp_check(C.cols() == p.cols() && C.rows() == 2, "compact_dims"); int o = 0, i = 0; for (auto it = p.begin(); it != p.end(); ++it, ++i) { vp_check(p.designVariable(i) == it->first, "designVariable"); vp_eq(C.block(0, o, 2, it->first->minimalDimensions()), it->second, "compact"); o += it->first->minimalDimensions(); }
  bool t = false; try { p.designVariable(i); } catch (const std::exception&) { t = true; } vp_check(t, "index_refused"); p.reset(3); vp_check(p.rows() == 3 && p.numDesignVariables() == 0, "reset"); p.add(&x.a, mat("r", 3, 1)); p.clear(); vp_check(p.rows() == 3 && p.numDesignVariables() == 0, "clear"); }
HARNESS(c13_hessian) { Ctx x; for (int i = 0; i < 3; i++) x.d[i]->setScaling(vp_real(vpn("s", i))); bool act[3] = {true, true, true}; JacobianContainer p(2); MatrixXd P; seq(x, p, "p", 3, P, act); MatrixXd R = mat("R", 2, 2); VectorXd e = vec("e", 2), rhs = vec("g", 4), g0 = rhs; std::vector<int> ci{1, 3, 4}; SparseBlockMatrix H(ci, ci, true); MatrixXd H0 = mat("h", 1, 2); bool pre = vp_bool("pre"); if (pre) *H.block(0, 1, true) = H0;
  p.evaluateHessian(e, R, H, rhs); MatrixXd S = P; for (int i = 0; i < 3; i++) S.middleCols(OFF[i], DIM[i]) *= x.d[i]->scaling(); MatrixXd E = S.transpose() * R * R.transpose() * S; if (pre) E.block(0, 1, 1, 2) += H0; vp_eq(rhs, g0 - S.transpose() * R * R.transpose() * e, "rhs"); MatrixXd D = H.toDense(); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) vp_eq(D.block(OFF[i], OFF[j], DIM[i], DIM[j]), E.block(OFF[i], OFF[j], DIM[i], DIM[j]), "hessian_upper"); for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) vp_check(((const SparseBlockMatrix&)H).block(i, j) == 0, "upper_only"); vp_eq(dense(p), P, "container_kept"); }
// ---- error terms
struct Et : public ErrorTermFs<2> { using ErrorTerm::setDesignVariables; using ErrorTermFs<2>::setInvR; using ErrorTermFs<2>::setSqrtInvR; Dv* x; MatrixXd A; VectorXd b; virtual double evaluateErrorImplementation() { setError(A * x->v + b); return evaluateChiSquaredError(); } virtual void evaluateJacobiansImplementation(JacobianContainer& J) const { J.add(x, A); } Et(Dv* d, const MatrixXd& A_, const VectorXd& b_) : x(d), A(A_), b(b_) { setDesignVariables(d); } };
struct Ed : public ErrorTermDs { using ErrorTermDs::setInvR; using ErrorTermDs::setSqrtInvR; Dv* x; MatrixXd A; VectorXd b; virtual double evaluateErrorImplementation() { setError(A * x->v + b); return evaluateChiSquaredError(); } virtual void evaluateJacobiansImplementation(JacobianContainer& J) const { J.add(x, A); } Ed(Dv* d, const MatrixXd& A_, const VectorXd& b_) : ErrorTermDs(2), x(d), A(A_), b(b_) { setDesignVariables(d); } };
struct Wt : public MEstimator { double w; mutable double at; Wt(double w_) : w(w_), at(-1) {} virtual double getWeight(double e) const { at = e; return w; } virtual std::string name() const { return "w"; } };
template <class T> void term() {
  Dv x(2, 0); x.v = vec("x", 2); double sc = vp_real("sc"); x.setScaling(sc); MatrixXd A = mat("A", 2, 2), R = mat("R", 2, 2); VectorXd b = vec("b", 2); T e(&x, A, b); vp_check(e.dimension() == 2 && e.numDesignVariables() == 1 && e.designVariable(0) == &x, "structure"); VectorXd r = A * x.v + b;
  vp_check_eq(e.evaluateError(), r.dot(r), "identity_weight"); vp_check_eq(e.getWeightedSquaredError(), r.dot(r), "weighted0"); e.setSqrtInvR(R); MatrixXd W = R * R.transpose(); double chi = r.dot(W * r); vp_check_eq(e.evaluateError(), chi, "chi2"); vp_check_eq(e.getRawSquaredError(), chi, "raw"); vp_eq(e.invR(), W, "invR"); MatrixXd W2; e.getInvR(W2); vp_eq(W2, W, "getInvR"); vp_eq(e.vsInvR(), W, "vsInvR"); vp_eq(e.vsError(), r, "vsError");
  double w = vp_real_in("w", 0.01, 4); boost::shared_ptr<Wt> m(new Wt(w * w)); e.setMEstimatorPolicy(m); vp_check_eq(e.evaluateError(), w * w * chi, "robust"); vp_check_eq(m->at, chi, "weight_at"); vp_check_eq(e.getWeightedSquaredError(), w * w * chi, "robust_weighted"); vp_check_eq(e.getRawSquaredError(), chi, "robust_raw"); vp_check_eq(e.getCurrentMEstimatorWeight(), w * w, "current_weight"); vp_check_eq(e.getMEstimatorWeight(3), w * w, "weight"); vp_check_eq(m->at, 3, "weight_arg");
  bool rob = vp_bool("rob"); double k = rob ? w : 1; VectorXd we; e.getWeightedError(we, rob); vp_eq(we, k * R.transpose() * r, "weighted_error"); JacobianContainer J(2); e.getWeightedJacobians(J, rob); vp_eq(J.Jacobian(&x), k * sc * R.transpose() * A, "weighted_jacobian"); std::vector<int> ci{2}; SparseBlockMatrix H(ci, ci, true); VectorXd g = VectorXd::Zero(2); e.buildHessian(H, g, rob); vp_eq(H.toDense(), (k * k * sc * sc) * A.transpose() * W * A, "hessian"); vp_eq(g, -(k * k * sc) * A.transpose() * W * r, "rhs");
  vp_check_eq(e.getRawSquaredError(), chi, "raw_kept"); e.clearMEstimatorPolicy(); vp_check_eq(e.evaluateError(), chi, "cleared"); JacobianContainer K(2); K.add(&x, A); e.evaluateJacobians(K); vp_eq(K.Jacobian(&x), A, "jacobian_cleared_first"); }
HARNESS(c12_fixed) { term<Et>(); }
HARNESS(c12_dynamic) { term<Ed>(); }
template <class T> void invr() { Dv x(2, 0); MatrixXd A = mat("A", 2, 2); VectorXd b = vec("b", 2); T e(&x, A, b); double p = vp_real_in("p", 0.1, 10), q = vp_real_in("q", -5, 5), s = vp_real_in("s", 0.1, 10); MatrixXd W(2, 2); W << p * p, p * q, p * q, q * q + s * s; e.setInvR(W); vp_eq(e.invR(), W, "invR"); vp_check_eq(e.evaluateError(), b.dot(W * b), "chi2"); }
HARNESS(c12_invr_fixed) { invr<Et>(); }
HARNESS(c12_invr_dynamic) { invr<Ed>(); }
// ---- robust weights
HARNESS(c12_m_none) { NoMEstimator m; vp_check_eq(m.getWeight(vp_real("e")), 1, "weight"); }
HARNESS(c12_m_geman) { double s = vp_real_in("s", 0.01, 100), e = vp_real_in("e", 0, 1e6); GemanMcClureMEstimator m(s); vp_check_eq(m.getWeight(e), s / ((s + e) * (s + e)), "weight"); }
HARNESS(c12_m_cauchy) { double s = vp_real_in("s", 0.01, 100), e = vp_real_in("e", 0, 1e6); CauchyMEstimator m(s); vp_check_eq(m.getWeight(e), s / (s + e), "weight"); }
HARNESS(c12_m_huber) { double k = vp_real_in("k", 0.01, 100), r = vp_real_in("r", 0, 1e3); HuberMEstimator m(k); double w = m.getWeight(r * r); if (r <= k) vp_check_eq(w, 1, "inlier"); else vp_check_eq(w, k / r, "outlier"); }
HARNESS(c12_m_decreasing) { double a = vp_real_in("a", 0, 1e3), b = vp_real_in("b", 0, 1e3), k = vp_real_in("k", 0.1, 10); vp_assume(a <= b); CauchyMEstimator c(k); GemanMcClureMEstimator g(k); HuberMEstimator h(k); vp_check(c.getWeight(a) >= c.getWeight(b) && c.getWeight(a) <= 1 && c.getWeight(b) > 0, "cauchy"); vp_check(g.getWeight(a) >= g.getWeight(b) && g.getWeight(b) > 0, "geman"); vp_check(h.getWeight(a * a) >= h.getWeight(b * b) && h.getWeight(b * b) > 0 && h.getWeight(a * a) <= 1, "huber"); }
HARNESS(c12_set_dvs) { Dv x(2, 0), y(1, 1); MatrixXd A = mat("A", 2, 2); VectorXd b = vec("b", 2); Et e(&x, A, b); bool t = false; try { e.setDesignVariables(&y); } catch (const std::exception&) { t = true; } vp_check(t, "once"); vp_check(e.numDesignVariables() == 1 && e.designVariables()[0] == &x, "kept"); e.setRowBase(7); vp_check(e.rowBase() == 7, "rowBase"); }
