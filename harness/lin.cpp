// Linear systems of the optimiser, with CHOLMOD and SPQR replaced by stand-ins that record the system they are given and return an arbitrary solution.
#include <Eigen/Core>
#include <Eigen/Dense>
#include <string.h>
#include <cholmod.h>
#include <SuiteSparseQR.hpp>
template <> SuiteSparseQR_factorization<double>* SuiteSparseQR_symbolic<double>(int, int, cholmod_sparse*, cholmod_common*);
int spqrNumeric(double, cholmod_sparse*, SuiteSparseQR_factorization<double>*, cholmod_common*) __asm__("_Z21SuiteSparseQR_numericIdlEidP21cholmod_sparse_structP27SuiteSparseQR_factorizationIT_T0_EP21cholmod_common_struct");
template <> cholmod_dense* SuiteSparseQR_qmult<double>(int, SuiteSparseQR_factorization<double>*, cholmod_dense*, cholmod_common*);
template <> cholmod_dense* SuiteSparseQR_solve<double>(int, SuiteSparseQR_factorization<double>*, cholmod_dense*, cholmod_common*);
template <> int SuiteSparseQR_free<double>(SuiteSparseQR_factorization<double>**, cholmod_common*);
#include <aslam_backend/backend/CompressedColumnMatrix.hpp>
#include <aslam_backend/backend/CompressedColumnJacobianTransposeBuilder.hpp>
#include <aslam_backend/backend/BlockCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseCholeskyLinearSystemSolver.hpp>
#include <aslam_backend/backend/SparseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseQrLinearSystemSolver.hpp>
#include <aslam_backend/backend/DenseMatrix.hpp>
#include <aslam_backend/backend/ErrorTermDs.hpp>
#include <aslam_backend/backend/MEstimatorPolicies.hpp>
#include <aslam_backend/backend/DesignVariable.hpp>
#include <memory>
#include "vp.h"
using namespace Eigen; using namespace aslam::backend;
// ---- what the factorisation library is asked to solve
static MatrixXd gM; static VectorXd gB, gX; static bool gFail; static int gN, gSolves, gLive;
template <class I> static MatrixXd dense(cholmod_sparse* A) { MatrixXd D = MatrixXd::Zero(A->nrow, A->ncol); I *p = (I*)A->p, *i = (I*)A->i; double* x = (double*)A->x; for (size_t c = 0; c < A->ncol; c++) for (I k = p[c]; k < p[c + 1]; k++) { vp_check(i[k] >= 0 && (size_t)i[k] < A->nrow && (k == p[c] || i[k] > i[k - 1]), "well_formed"); D(i[k], c) = x[k]; } return D; }
template <class I> static cholmod_sparse* sparse(const MatrixXd& D) { cholmod_sparse* S = new cholmod_sparse(); S->nrow = D.rows(); S->ncol = D.cols(); I *p = new I[D.cols() + 1], *i = new I[D.size()]; double* x = new double[D.size()]; I k = 0; for (int c = 0; c < D.cols(); c++) { p[c] = k; for (int r = 0; r < D.rows(); r++, k++) { i[k] = r; x[k] = D(r, c); } } p[D.cols()] = k; S->p = p; S->i = i; S->x = x; S->nzmax = k; return S; }
static cholmod_dense* answer(int n) { cholmod_dense* r = new cholmod_dense(); r->nrow = n; r->ncol = 1; r->d = n; r->nzmax = n; r->xtype = CHOLMOD_REAL; r->dtype = CHOLMOD_DOUBLE; double* x = new double[n]; gX.resize(n); for (int i = 0; i < n; i++) x[i] = gX[i] = vp_real(vpn("sol", gN, i)); gN++; r->x = x; gLive++; return r; }
extern "C" {
int cholmod_start(cholmod_common* c) { memset(c, 0, sizeof *c); return 1; }
int cholmod_finish(cholmod_common*) { return 1; }
cholmod_factor* cholmod_analyze(cholmod_sparse*, cholmod_common* c) { c->status = CHOLMOD_OK; return new cholmod_factor(); }
int cholmod_free_factor(cholmod_factor** f, cholmod_common*) { delete *f; *f = 0; return 1; }
int cholmod_factorize(cholmod_sparse* A, cholmod_factor*, cholmod_common* c) { gM = dense<int>(A); if (A->stype > 0) { MatrixXd U = gM.triangularView<Upper>(); gM = U; for (int i = 0; i < U.rows(); i++) for (int j = 0; j < i; j++) gM(i, j) = U(j, i); } else { MatrixXd G = gM * gM.transpose(); gM = G; } c->status = gFail ? CHOLMOD_NOT_POSDEF : CHOLMOD_OK; return 1; }
cholmod_dense* cholmod_solve(int, cholmod_factor*, cholmod_dense* B, cholmod_common*) { gSolves++; gB = Map<VectorXd>((double*)B->x, B->nrow); return answer(gM.rows()); }
int cholmod_free_dense(cholmod_dense** d, cholmod_common*) { if (*d) { delete[] (double*)(*d)->x; delete *d; gLive--; } *d = 0; return 1; }
int cholmod_l_start(cholmod_common* c) { return cholmod_start(c); }
int cholmod_l_finish(cholmod_common*) { return 1; }
cholmod_sparse* cholmod_l_transpose(cholmod_sparse* A, int, cholmod_common*) { return sparse<SuiteSparse_long>(dense<SuiteSparse_long>(A).transpose()); }
int cholmod_l_free_sparse(cholmod_sparse** s, cholmod_common*) { if (*s) { delete[] (SuiteSparse_long*)(*s)->p; delete[] (SuiteSparse_long*)(*s)->i; delete[] (double*)(*s)->x; delete *s; } *s = 0; return 1; }
cholmod_dense* cholmod_l_allocate_dense(size_t n, size_t, size_t, int, cholmod_common*) { cholmod_dense* r = answer(n); return r; }
int cholmod_l_scale(cholmod_dense* S, int, cholmod_sparse* A, cholmod_common*) { SuiteSparse_long* p = (SuiteSparse_long*)A->p; for (size_t c = 0; c < A->ncol; c++) for (SuiteSparse_long k = p[c]; k < p[c + 1]; k++) ((double*)A->x)[k] *= ((double*)S->x)[c]; return 1; }
int cholmod_l_free_dense(cholmod_dense** d, cholmod_common* c) { return cholmod_free_dense(d, c); }
}
template <> SuiteSparseQR_factorization<double>* SuiteSparseQR_symbolic<double>(int, int, cholmod_sparse*, cholmod_common* c) { c->status = CHOLMOD_OK; return (SuiteSparseQR_factorization<double>*)calloc(1, sizeof(SuiteSparseQR_factorization<double>)); }
int spqrNumeric(double, cholmod_sparse* A, SuiteSparseQR_factorization<double>*, cholmod_common* c) { MatrixXd J = dense<SuiteSparse_long>(A); gM = J.transpose() * J; c->status = gFail ? CHOLMOD_OUT_OF_MEMORY : CHOLMOD_OK; gB = VectorXd(); return 1; }
template <> cholmod_dense* SuiteSparseQR_qmult<double>(int, SuiteSparseQR_factorization<double>*, cholmod_dense* B, cholmod_common*) { gSolves++; gB = Map<VectorXd>((double*)B->x, B->nrow); return answer(B->nrow); }
template <> cholmod_dense* SuiteSparseQR_solve<double>(int, SuiteSparseQR_factorization<double>*, cholmod_dense*, cholmod_common*) { return answer(gM.rows()); }
template <> int SuiteSparseQR_free<double>(SuiteSparseQR_factorization<double>** f, cholmod_common*) { free(*f); *f = 0; return 1; }
// ---- an arbitrary small problem
struct Dv : public DesignVariable { int n; VectorXd v, o; Dv(int n_, bool act = true) : n(n_), v(VectorXd::Zero(n_)), o(v) { setActive(act); setBlockIndex(-1); }
  virtual void revertUpdateImplementation() { v = o; } virtual void updateImplementation(const double* dp, int s) { o = v; for (int i = 0; i < s; i++) v[i] += dp[i]; } virtual int minimalDimensionsImplementation() const { return n; }
  virtual void getParametersImplementation(MatrixXd& m) const { m = v; } virtual void setParametersImplementation(const MatrixXd& m) { v = m; } virtual void minimalDifferenceImplementation(const MatrixXd&, VectorXd&) const {} virtual void minimalDifferenceAndJacobianImplementation(const MatrixXd&, VectorXd&, MatrixXd&) const {} };
static MatrixXd mat(const char* n, int r, int c) { MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = vp_real(vpn(n, i, j)); return m; }
static VectorXd vec(const char* n, int k) { VectorXd v(k); for (int i = 0; i < k; i++) v[i] = vp_real(vpn(n, i)); return v; }
struct Et : public ErrorTermDs { std::vector<Dv*> d; std::vector<MatrixXd> A; VectorXd b; Et(int n, const std::vector<Dv*>& d_, const char* nm) : ErrorTermDs(n), d(d_), b(vec(nm, n)) { std::vector<DesignVariable*> q; for (size_t k = 0; k < d.size(); k++) { A.push_back(mat(vpn(nm, k), n, d[k]->n)); q.push_back(d[k]); } setDesignVariables(q); }
  VectorXd err() const { VectorXd r = b; for (size_t k = 0; k < d.size(); k++) r += A[k] * d[k]->v; return r; } virtual double evaluateErrorImplementation() { setError(err()); return evaluateChiSquaredError(); } virtual void evaluateJacobiansImplementation(JacobianContainer& J) const { for (size_t k = 0; k < d.size(); k++) J.add(d[k], A[k]); } };
struct Wt : public MEstimator { double w; Wt(double w_) : w(w_) {} virtual double getWeight(double) const { return w; } virtual std::string name() const { return "w"; } };
struct Sys { Dv a, b, c; Et e, f; std::vector<DesignVariable*> dv; std::vector<ErrorTerm*> et; int col[2]; double w; bool rob;
  Sys(bool swap, bool weights = false) : a(2), b(1), c(1, false), e(2, {&a, &c, &b}, "e"), f(1, {&b}, "f"), w(1), rob(false) { gN = gLive = 0; gFail = false; if (swap) dv = {&b, &a}; else dv = {&a, &b}; int k = 0; for (int i = 0; i < 2; i++) { dv[i]->setBlockIndex(i); dv[i]->setColumnBase(k); k += dv[i]->minimalDimensions(); } col[0] = a.columnBase(); col[1] = b.columnBase(); et = {&e, &f}; if (vp_bool("eo")) et = {&f, &e}; k = 0; for (auto* t : et) { t->setRowBase(k); k += t->dimension(); }
    if (weights) { w = vp_real_in("w", 0.1, 4); boost::shared_ptr<Wt> m(new Wt(w * w)); e.setMEstimatorPolicy(m); rob = vp_bool("rob"); a.setScaling(vp_real("sa")); } state("x"); }
  void state(const char* n) { a.v = vec(vpn(n, 0), 2); b.v = vec(vpn(n, 1), 1); c.v = vec(vpn(n, 2), 1); }
  double k() const { return rob ? w : 1; }
  MatrixXd J() const { MatrixXd M = MatrixXd::Zero(3, 3); M.block(e.rowBase(), col[0], 2, 2) = k() * a.scaling() * e.A[0]; M.block(e.rowBase(), col[1], 2, 1) = k() * e.A[2]; M.block(f.rowBase(), col[1], 1, 1) = f.A[0]; return M; }
  VectorXd r() const { VectorXd r(3); r.segment(e.rowBase(), 2) = k() * e.err(); r.segment(f.rowBase(), 1) = f.err(); return r; }
  double cost() const { return w * w * e.err().squaredNorm() + f.err().squaredNorm(); } };
static void start(LinearSystemSolver& s, Sys& p, bool diag) { s.initMatrixStructure(p.dv, p.et, diag); vp_check(s.JRows() == 3 && s.JCols() == 3, "dims"); gFail = false; }
static bool throws(std::function<void()> f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// the objective, the error vector and the normal equations
template <class S> static void system(S& s) { Sys p(vp_bool("swap"), true); start(s, p, true); vp_check_eq(s.evaluateError(vp_choice("threads", 2), p.rob), p.cost(), "cost"); vp_eq(s.e(), -p.r(), "e"); s.buildSystem(1, p.rob); MatrixXd J = p.J(); VectorXd g = -(J.transpose() * p.r()); vp_eq(s.rhs(), g, "rhs"); vp_check_eq(s.rhsJtJrhs(), (J * g).squaredNorm(), "rhsJtJrhs"); if (s.Jacobian()) vp_eq(s.Jacobian()->toDense(), J, "jacobian"); }
HARNESS(c25_sys_block) { BlockCholeskyLinearSystemSolver s; system(s); }
HARNESS(c25_sys_sparse) { SparseCholeskyLinearSystemSolver s; system(s); }
HARNESS(c25_sys_qr) { SparseQrLinearSystemSolver s; system(s); }
HARNESS(c25_sys_dense) { DenseQrLinearSystemSolver s; system(s); }
// repeated solves: new conditioners and failed steps do not change the system until it is rebuilt
template <class S> static void solves(S& s, bool diag) { Sys p(false); start(s, p, diag); s.evaluateError(1, false); s.buildSystem(1, false); MatrixXd H = p.J().transpose() * p.J(); VectorXd g = -(p.J().transpose() * p.r()); int fail = vp_choice("fail", 3);
  for (int k = 0; k < 2; k++) { VectorXd c = vec(vpn("c", k), 3); if (k == 1 && vp_bool("constant")) { c.setConstant(c[0]); s.setConstantConditioner(c[0]); } else s.setConditioner(c); MatrixXd E = H; if (diag) E.diagonal() += c.cwiseProduct(c); VectorXd dx; gFail = fail == k + 1; gSolves = 0; bool ok = s.solveSystem(dx); vp_eq(gM, E, "matrix"); vp_check(ok == !gFail && gSolves == ok, "success"); if (ok) { vp_eq(gB, g, "rhs"); vp_eq(dx, gX, "solution"); } vp_check(gLive == 0, "freed"); vp_eq(s.rhs(), g, "rhs_kept"); if (s.Hessian()) { MatrixXd U = s.Hessian()->toDense().template triangularView<Upper>(), V = H.template triangularView<Upper>(); vp_eq(U, V, "hessian_kept"); }
    p.state("y"); s.evaluateError(1, false); /* the optimiser evaluates the new state; a failed step is retried without a rebuild */ }
  s.buildSystem(1, false); gFail = false; s.setConstantConditioner(0); VectorXd dx; vp_check(s.solveSystem(dx), "again"); vp_eq(gM, H, "rebuilt"); vp_eq(gB, -(p.J().transpose() * p.r()), "rebuilt_rhs");
  vp_check(throws([&] { s.setConditioner(VectorXd::Zero(2)); }), "conditioner_size"); }
HARNESS(c25_solve_block) { BlockCholeskyLinearSystemSolver s; solves(s, true); }
HARNESS(c25_solve_block_plain) { BlockCholeskyLinearSystemSolver s; solves(s, false); }
HARNESS(c25_solve_sparse) { SparseCholeskyLinearSystemSolver s; solves(s, true); }
HARNESS(c25_solve_sparse_plain) { SparseCholeskyLinearSystemSolver s; solves(s, false); }
HARNESS(c25_solve_qr) { SparseQrLinearSystemSolver s; Sys p(vp_bool("swap")); s.getOptions().colNorm = false; start(s, p, false); for (int k = 0; k < 2; k++) { p.state(vpn("y", k)); s.evaluateError(1, false); s.buildSystem(1, false); MatrixXd J = p.J(); VectorXd dx; gFail = vp_bool(vpn("fail", k)); bool ok = s.solveSystem(dx); vp_eq(gM, J.transpose() * J, "matrix"); vp_check(ok == !gFail, "success"); if (ok) { vp_eq(gB, -p.r(), "rhs"); vp_eq(dx, gX, "solution"); } vp_check(gLive == 0, "freed"); } }
HARNESS(c25_solve_qr_norm_failure) { SparseQrLinearSystemSolver s; Sys p(false); s.getOptions().colNorm = true; s.getOptions().normTol = -1; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) p.e.A[0](i, j) = i == j; p.e.A[2].setOnes(); start(s, p, false); s.evaluateError(1, false); s.buildSystem(1, false); gFail = true; VectorXd dx; vp_check(!s.solveSystem(dx), "reported"); }
// one variable, one residual: small enough to run the dense QR decomposition itself
HARNESS(c25_solve_dense) { Dv a(1); Et e(1, {&a}, "e"); a.setBlockIndex(0); a.setColumnBase(0); e.setRowBase(0); std::vector<DesignVariable*> dv{&a}; std::vector<ErrorTerm*> et{&e}; a.v = vec("x", 1); double j = e.A[0](0, 0); vp_assume((j >= 0.1) & (j <= 10)); DenseQrLinearSystemSolver s; bool diag = vp_bool("diag"); s.initMatrixStructure(dv, et, diag); s.evaluateError(1, false); s.buildSystem(1, false); double r = e.err()[0];
  for (int k = 0; k < 2; k++) { double c = vp_real_in(vpn("c", k), 0.1, 10); s.setConstantConditioner(c); VectorXd dx; vp_check(s.solveSystem(dx) && dx.size() == 1, "ok"); vp_check_eq(dx[0] * (j * j + (diag ? c * c : 0)), -j * r, "solution"); vp_check_eq(s.getJacobian()(0, 0), j, "jacobian_kept"); vp_check(s.getJacobian().rows() == 1 && s.e().size() == 1, "sizes_kept"); a.v = vec(vpn("y", k), 1); s.evaluateError(1, false); } }
// re-initialising with another set of variables
HARNESS(c25_reinit) { SparseCholeskyLinearSystemSolver s; Sys p(false); start(s, p, true); s.evaluateError(1, false); s.buildSystem(1, false); VectorXd dx; s.setConstantConditioner(1); s.solveSystem(dx); p.b.setActive(false); p.b.setBlockIndex(-1); std::vector<DesignVariable*> dv{&p.a}; std::vector<ErrorTerm*> et{&p.e}; p.e.setRowBase(0); s.initMatrixStructure(dv, et, true); vp_check(s.JRows() == 2 && s.JCols() == 2, "dims"); vp_check_eq(s.evaluateError(1, false), p.e.err().squaredNorm(), "cost"); s.buildSystem(1, false); MatrixXd A = p.e.A[0]; vp_eq(s.rhs(), -(A.transpose() * p.e.err()), "rhs"); double c = vp_real("c"); s.setConstantConditioner(c); s.solveSystem(dx); vp_eq(gM, A.transpose() * A + c * c * MatrixXd::Identity(2, 2), "matrix"); vp_eq(dx, gX, "solution"); }
// ---- compressed column matrices
typedef CompressedColumnMatrix<int> CM;
static void same(const CM& m, const MatrixXd& D, const char* n) { vp_check((int)m.rows() == D.rows() && (int)m.cols() == D.cols() && (int)m.col_ptr().size() == D.cols() + 1 && m.row_ind().size() == m.nnz() && m.values().size() == m.nnz(), (std::string(n) + "_structure").c_str()); if (m.rows() * m.cols() == 0) return; vp_eq(m.toDense(), D, n); if (m.nnz()) for (int c = 0; c < D.cols(); c++) for (int r = 0; r < D.rows(); r++) vp_check_eq(m.value(r, c), D(r, c), (std::string(n) + "_value").c_str()); }
struct Ctx { Dv a, b, c; Dv* d[3]; Ctx() : a(1), b(2), c(1) { d[0] = &a; d[1] = &b; d[2] = &c; int k = 0; for (int i = 0; i < 3; i++) { d[i]->setBlockIndex(i); d[i]->setColumnBase(k); k += d[i]->n; } } };
static JacobianContainer jac(Ctx& x, int rows, int set, const char* n, MatrixXd& D) { JacobianContainer jc(rows); MatrixXd N = MatrixXd::Zero(4, D.cols() + rows); N.leftCols(D.cols()) = D; for (int i = 2; i >= 0; i--) if (set >> i & 1) { MatrixXd J = mat(vpn(n, i), rows, x.d[i]->n); jc.add(x.d[i], J); N.block(x.d[i]->columnBase(), D.cols(), x.d[i]->n, rows) = J.transpose(); } D = N; return jc; }
HARNESS(c25_ccm_append) { Ctx x; CM m(4, 0, 10, 4); MatrixXd D(4, 0); m.appendJacobians(jac(x, 1 + vp_choice("r", 2), 1 + vp_choice("s", 7), "p", D)); same(m, D, "first"); m.appendJacobians(jac(x, 1, 1 + vp_choice("t", 7), "q", D)); same(m, D, "second"); VectorXd u = vec("u", D.cols()), v = vec("v", 4), y; m.rightMultiply(u, y); vp_eq(y, D * u, "right"); m.leftMultiply(v, y); vp_eq(y, D.transpose() * v, "left"); vp_check(throws([&] { m.rightMultiply(VectorXd::Zero(D.cols() + 1), y); }) && throws([&] { m.leftMultiply(u.head(1), y); }), "sizes"); vp_check(throws([&] { m.value(4, 0); }) && throws([&] { m.value(0, D.cols()); }), "range"); }
HARNESS(c25_ccm_diagonal) { Ctx x; CM m(4, 0, 10, 4); MatrixXd D(4, 0); m.appendJacobians(jac(x, 2, 5, "p", D)); MatrixXd E(4, 6); E.leftCols(2) = D; VectorXd y, u = vec("u", 2), v = vec("v", 4);
  for (int k = 0; k < 2; k++) { vp_check(throws([&] { m.popDiagonalBlock(); }), "pop_refused"); VectorXd d = vec(vpn("d", k), 4); if (vp_bool(vpn("const", k))) { d.setConstant(d[0]); m.pushConstantDiagonalBlock(d[0]); } else m.pushDiagonalBlock(d); E.rightCols(4) = d.asDiagonal(); same(m, E, "pushed"); m.rightMultiply(u, y); vp_eq(y, D * u, "right"); m.leftMultiply(v, y); vp_eq(y, D.transpose() * v, "left"); vp_check(throws([&] { m.pushConstantDiagonalBlock(1); }) && throws([&] { MatrixXd T(4, 0); m.appendJacobians(jac(x, 1, 1, "z", T)); }), "twice_refused"); same(m, E, "kept");
    d = vec(vpn("f", k), 4); if (vp_bool(vpn("fc", k))) { d.setConstant(d[0]); m.updateConstantDiagonalBlock(d[0]); } else m.updateDiagonalBlock(d); E.rightCols(4) = d.asDiagonal(); same(m, E, "updated"); m.popDiagonalBlock(); same(m, D, "popped"); } vp_check(throws([&] { m.pushDiagonalBlock(VectorXd::Zero(3)); }), "size_refused"); m.appendJacobians(jac(x, 1, 3, "q", D)); same(m, D, "append_after_pop"); }
HARNESS(c25_ccm_clear) { Ctx x; CM m(4, 0, 10, 4); MatrixXd D(4, 0); m.appendJacobians(jac(x, 1 + vp_choice("r", 2), 5, "p", D)); if (vp_bool("diag")) { m.pushConstantDiagonalBlock(2); D = MatrixXd(4, D.cols() + 4); } D.setZero(); m.clear(); vp_check(m.nnz() == 0, "empty"); same(m, D, "zero"); vp_check((int)m.col_ptr().size() == (int)m.cols() + 1, "columns"); vp_eq(m.toDense(), D, "dense"); }
HARNESS(c25_ccm_dense) { int r = 1 + vp_choice("r", 2); MatrixXd A = mat("a", r, 2); double t = vp_real_in("t", -3, 3); CM m; if (vp_bool("before")) { Ctx x; MatrixXd D(4, 0); CM n(4, 0, 10, 4); n.appendJacobians(jac(x, 1, 1, "q", D)); n.pushConstantDiagonalBlock(1); m = n; } bool tol = vp_bool("tol"); if (tol) m.fromDenseTolerance(A, t); else m.fromDense(A); MatrixXd E = A; double s = tol ? (t < 0 ? -t : t) : 0; size_t nz = 0; for (int i = 0; i < r; i++) for (int j = 0; j < 2; j++) { bool z = (A(i, j) <= s) & (A(i, j) >= -s); if (z) E(i, j) = 0; else nz++; } same(m, E, "dense"); vp_check(m.nnz() == nz, "nnz"); VectorXd d = vec("d", r); m.pushDiagonalBlock(d); MatrixXd F(r, 2 + r); F.leftCols(2) = E; F.rightCols(r) = d.asDiagonal(); same(m, F, "diagonal_afterwards"); }
HARNESS(c25_ccm_view) { Ctx x; CM m(4, 0, 10, 4); MatrixXd D(4, 0); m.appendJacobians(jac(x, 2, 1 + vp_choice("s", 7), "p", D)); cholmod_sparse v; memset(&v, 0, sizeof v); m.getView(&v); vp_check(v.packed && v.sorted && v.stype == 0 && v.itype == CHOLMOD_INT && v.xtype == CHOLMOD_REAL && v.dtype == CHOLMOD_DOUBLE && v.nzmax == m.nnz(), "flags"); vp_eq(dense<int>(&v), D, "view"); CM n(2, 0, 1, 1); if (vp_bool("before")) n.pushConstantDiagonalBlock(3); n.fromCholmodSparse(&v); same(n, D, "from"); VectorXd d = vec("d", 4); n.pushDiagonalBlock(d); n.popDiagonalBlock(); same(n, D, "diagonal"); m.getView(0); }
HARNESS(c25_dense_matrix) { MatrixXd A = mat("a", 2, 3); DenseMatrix m; m.fromDense(A); vp_check(m.rows() == 2 && m.cols() == 3, "dims"); vp_eq(m.toDense(), A, "dense"); VectorXd y, u = vec("u", 3), v = vec("v", 2); m.rightMultiply(u, y); vp_eq(y, A * u, "right"); m.leftMultiply(v, y); vp_eq(y, A.transpose() * v, "left"); vp_check_eq(m(1, 2), A(1, 2), "element"); MatrixXd o; m.toDenseInto(o); vp_eq(o, A, "into"); double t = vp_real_in("t", 0, 3); m.fromDenseTolerance(A.leftCols(1), t); for (int i = 0; i < 2; i++) vp_check_eq(m(i, 0), ((A(i, 0) <= t) & (A(i, 0) >= -t)) ? 0. : A(i, 0), "tolerance"); }
HARNESS(c25_block_wrapper) { std::vector<int> R{1, 3}, C{2, 3}; SparseBlockMatrixWrapper w; w._M = SparseBlockMatrix(R, C, true); w._M.block(1, 1, true)->setOnes(); MatrixXd A = mat("a", 3, 3); double t = vp_real_in("t", 0, 3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) A(i, j) = i * j; w.fromDenseTolerance(A, t); MatrixXd E = A; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if ((A(i, j) <= t) & (A(i, j) >= -t)) E(i, j) = 0; vp_eq(static_cast<const aslam::backend::Matrix&>(w).toDense(), E, "tolerance"); vp_check(w.rows() == 3 && w.cols() == 3, "dims"); VectorXd x = vec("x", 3), y; w.rightMultiply(x, y); vp_eq(y, E * x, "right"); w.leftMultiply(x, y); vp_eq(y, E.transpose() * x, "left"); vp_check_eq(w(2, 0), E(2, 0), "element"); vp_check(throws([&] { w.fromDense(MatrixXd::Zero(2, 3)); }), "size_refused"); }
