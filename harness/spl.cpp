#include <Eigen/Core>
#include <Eigen/Dense>
#include <aslam_bsplines/BSpline.hpp>
#include "vp.h"
using namespace Eigen; using aslam_bsplines::BSpline;
typedef std::vector<double> VD;
// independent reference: Cox - de Boor recursion on the span s (t in [knots[s], knots[s+1]))
static double q0(double a, double b) { return a / b; }
static double N(const VD& T, int s, int i, int k, double t) {
  if (k == 1) return i == s ? 1.0 : 0.0; if (s < i || s >= i + k) return 0.0; double r = 0;
  if (s < i + k - 1) { if (!(T[i + k - 1] == T[i])) r += q0(t - T[i], T[i + k - 1] - T[i]) * N(T, s, i, k - 1, t); }
  if (s > i) { if (!(T[i + k] == T[i + 1])) r += q0(T[i + k] - t, T[i + k] - T[i + 1]) * N(T, s, i + 1, k - 1, t); } return r;
}
// d-th derivative of the spline of order k with scalar coefficients c
static double S(const VD& T, const VD& c, int s, int k, double t, int d) {
  if (d >= k) return 0; if (d == 0) { double r = 0; for (int i = s - k + 1; i <= s; i++) r += c[i] * N(T, s, i, k, t); return r; }
  VD e(c.size(), 0.0); for (int i = std::max(1, s - k + 2); i <= s; i++) e[i] = (c[i] - c[i - 1]) * (k - 1) / (T[i + k - 1] - T[i]); return S(T, e, s, k - 1, t, d - 1);
}
static VD knots(int n) { VD T(n); T[0] = vp_var("t0"); for (int i = 1; i < n; i++) T[i] = T[i - 1] + vp_real_in(vpn("h", i), 0.01, 10); return T; }
static MatrixXd coef(int D, int C, const char* n = "c") { MatrixXd m(D, C); for (int d = 0; d < D; d++) for (int i = 0; i < C; i++) m(d, i) = vp_var(vpn(n, d, i)); return m; }
static VD row(const MatrixXd& m, int d) { VD r(m.cols()); for (int i = 0; i < m.cols(); i++) r[i] = m(d, i); return r; }
struct Sp { BSpline b; int k, n, D; VD T; MatrixXd C; int s; double t; // a spline with n segments; s is the knot span of the time t
  Sp(int k, int n, int D = 1) : b(k), k(k), n(n), D(D) { T = knots(n + 2 * k - 1); C = coef(D, n + k - 1); b.setKnotsAndCoefficients(T, C); }
  void time() { s = k - 1 + vp_choice("span", n); double a = vp_real_in("a", 0, 1); t = T[s] + a * (T[s + 1] - T[s]); if (s == k - 2 + n) { if (vp_bool("end")) { t = T[s + 1]; } else vp_assume(T[s + 1] - t >= 1e-10); } else vp_assume(a <= 0.999999); } };
template <int K> void ev(int n, int D, int dmax) { Sp p(K, n, D); p.time(); int d = vp_choice("deriv", dmax + 1); VectorXd v = p.b.evalD(p.t, d); vp_check(v.size() == D, "size"); for (int r = 0; r < D; r++) vp_check_eq(v[r], S(p.T, row(p.C, r), p.s, K, p.t, d), "value"); if (d == 0) vp_eq(p.b.eval(p.t), v, "eval"); }
HARNESS(c19_eval2) { ev<2>(2, 2, 2); }
HARNESS(c19_eval3) { ev<3>(2, 1, 3); }
HARNESS(c19_eval4) { ev<4>(2, 1, 4); }
HARNESS(c19_eval5) { ev<5>(1, 1, 5); }
// Jacobians, local coefficients and indices
HARNESS(c19_jacobian) {
  int K = 2 + vp_choice("order", 2); Sp p(K, 2, 2); p.time(); int d = vp_choice("deriv", 2); MatrixXd J; VectorXi ix; VectorXd v = p.b.evalDAndJacobian(p.t, d, &J, &ix); vp_eq(v, p.b.evalD(p.t, d), "value");
  vp_check(J.rows() == 2 && J.cols() == 2 * K && ix.size() == 2 * K, "dims"); int s = p.s - K + 1; VectorXd c = p.b.coefficientVector(), lc = p.b.localCoefficientVector(p.t); vp_check(c.size() == p.b.coefficientVectorLength() && c.size() == p.b.numCoefficients() && p.b.numVvCoefficients() == p.C.cols(), "lengths");
  for (int i = 0; i < K; i++) for (int r = 0; r < 2; r++) { int j = 2 * i + r; vp_check(ix[j] == (s + i) * 2 + r, "index"); vp_check_eq(c[ix[j]], p.C(r, s + i), "coefficient"); vp_check_eq(lc[j], p.C(r, s + i), "local"); VD e(p.C.cols(), 0.0); e[s + i] = 1; double w = S(p.T, e, p.s, K, p.t, d); for (int q = 0; q < 2; q++) vp_check_eq(J(q, j), q == r ? w : 0.0, "J"); }
  vp_eq(J, p.b.Phi(p.t, d), "Phi"); vp_eq(J, p.b.localBasisMatrix(p.t, d), "basis"); auto pr = p.b.evalDAndJacobian(p.t, d); vp_eq(pr.first, v, "pair"); vp_eq(pr.second, J, "pairJ"); vp_eq(p.b.localCoefficientMatrix(p.t), p.C.middleCols(s, K), "matrix"); vp_check(p.b.segmentIndex(p.t) == s, "segment");
  VectorXi a = p.b.localCoefficientVectorIndices(p.t), b = p.b.segmentCoefficientVectorIndices(s), e = p.b.localVvCoefficientVectorIndices(p.t), f = p.b.segmentVvCoefficientVectorIndices(s); vp_check(a == ix && b == ix && e.size() == K && f == e, "indices"); for (int i = 0; i < K; i++) vp_check(e[i] == s + i, "vv"); vp_eq(p.b.segmentCoefficientVector(s), lc, "segment_coefficients");
}
HARNESS(c19_basis) { int K = 2 + vp_choice("order", 3); Sp p(K, K == 4 ? 1 : 2); p.time(); VectorXd b = p.b.getLocalBiVector(p.t), cu = p.b.getLocalCumulativeBiVector(p.t); double sum = 0; for (int i = 0; i < K; i++) { vp_check_eq(b[i], N(p.T, p.s, p.s - K + 1 + i, K, p.t), "Bi"); sum += b[i]; double r = 0; for (int j = i; j < K; j++) r += b[j]; vp_check_eq(cu[i], r, "cumulative"); } vp_check_eq(sum, 1.0, "partition"); }
HARNESS(c19_matrices) { // v = U' M c, u' = D' u
  int K = 2 + vp_choice("order", 2); Sp p(K, 2, 2); p.time(); int s = p.s - K + 1; VectorXd lc = p.b.localCoefficientVector(p.t); for (int d = 0; d < 2; d++) { vp_eq(p.b.U(p.t, d).transpose() * p.b.Mi(s) * lc, p.b.evalD(p.t, d), "UMc"); } vp_eq(p.b.u(p.t, 1), p.b.Dii(s).transpose() * p.b.u(p.t, 0), "D"); vp_eq(p.b.U(p.t, 1), p.b.Di(s).transpose() * p.b.U(p.t, 0), "Di"); }
HARNESS(c19_repeated) { // repeated knots: the value is still the Cox - de Boor limit
  const int K = 3, n = 3; VD T(n + 2 * K - 1); T[0] = vp_var("t0"); for (size_t i = 1; i < T.size(); i++) { bool z = i >= 2 && i <= 6 && vp_bool(vpn("same", i)); T[i] = z ? T[i - 1] : T[i - 1] + vp_real_in(vpn("h", i), 0.01, 10); } int m = 1; for (size_t i = 1; i < T.size(); i++) { m = T[i] == T[i - 1] ? m + 1 : 1; vp_assume(m < K); }
  MatrixXd C = coef(1, n + K - 1); BSpline b(K); b.setKnotsAndCoefficients(T, C); int s = K - 1 + vp_choice("span", n); vp_assume(T[s] < T[s + 1]); double a = vp_real_in("a", 0, 0.999), t = T[s] + a * (T[s + 1] - T[s]); vp_check_eq(b.eval(t)[0], S(T, row(C, 0), s, K, t, 0), "value"); vp_check_eq(b.evalD(t, 1)[0], S(T, row(C, 0), s, K, t, 1), "derivative");
}
HARNESS(c19_end_value) { // the last valid time gives the limit from the left, also with a doubled knot
  const int K = 3, n = 2; VD T(n + 2 * K - 1); T[0] = vp_var("t0"); for (size_t i = 1; i < T.size(); i++) { bool z = i == n + K - 1 && vp_bool("double"); T[i] = z ? T[i - 1] : T[i - 1] + vp_real_in(vpn("h", i), 0.01, 10); } MatrixXd C = coef(1, n + K - 1); BSpline b(K); b.setKnotsAndCoefficients(T, C); double t = b.t_max(); vp_check_eq(t, T[n + K - 1], "t_max"); int s = n + K - 2; while (T[s] == T[s + 1]) s--; vp_check_eq(b.eval(t)[0], S(T, row(C, 0), s, K, t, 0), "value"); }
HARNESS(c19_layout) {
  int K = 2 + vp_choice("order", 5), n = 1 + vp_choice("segments", 4); BSpline b(K); vp_check(b.splineOrder() == K && b.polynomialDegree() == K - 1, "order"); vp_check(b.numCoefficientsRequired(n) == n + K - 1 && b.numKnotsRequired(n) == n + 2 * K - 1 && b.numValidTimeSegments(n + 2 * K - 1) == n && b.minimumKnotsRequired() == 2 * K, "counts"); vp_check(b.numValidTimeSegments(vp_choice("few", 2 * K)) == 0, "none");
  VD T; for (int i = 0; i < n + 2 * K - 1; i++) T.push_back(i * 0.5); MatrixXd C = coef(1, n + K - 1); b.setKnotsAndCoefficients(T, C); vp_check(b.numValidTimeSegments() == n, "segments"); vp_check_eq(b.t_min(), T[K - 1], "t_min"); vp_check_eq(b.t_max(), T[K - 1 + n], "t_max"); for (int i = 0; i < n; i++) { auto iv = b.timeInterval(i); vp_check_eq(iv.first, T[K - 1 + i], "lo"); vp_check_eq(iv.second, T[K + i], "hi"); } vp_check_eq(b.timeInterval().first, T[K - 1], "lo"); vp_check_eq(b.timeInterval().second, T[K - 1 + n], "hi");
}
static bool throws(std::function<void()> f) { try { f(); } catch (const std::exception&) { return true; } return false; }
HARNESS(c19_range) { Sp p(3, 2); double t = vp_var("t"); bool out = t < p.b.t_min() || t > p.b.t_max() + 1e-9; vp_assume(out || (t >= p.b.t_min() && t <= p.b.t_max())); vp_check(throws([&]() { p.b.eval(t); }) == out, "refused_iff_outside"); vp_check(throws([&]() { p.b.evalD(p.b.t_min(), -1); }), "negative_derivative"); }
HARNESS(c19_nondecreasing) { int K = 2; VD T(5); for (int i = 0; i < 5; i++) T[i] = vp_var(vpn("T", i)); bool ok = true; for (int i = 1; i < 5; i++) if (!(T[i] >= T[i - 1])) ok = false; BSpline b(K); if (vp_bool("again")) b.setKnotsAndCoefficients(VD{0, 1, 2, 3, 4, 5}, MatrixXd::Zero(1, 4)); vp_check(throws([&]() { b.setKnotsAndCoefficients(T, MatrixXd::Zero(1, 3)); }) == !ok, "refused_iff_decreasing"); }
HARNESS(c19_sizes) { int K = 3, nk = 4 + vp_choice("knots", 5), nc = 1 + vp_choice("coefs", 6); VD T; for (int i = 0; i < nk; i++) T.push_back(i); BSpline b(K); vp_check(throws([&]() { b.setKnotsAndCoefficients(T, MatrixXd::Zero(1, nc)); }) == !(nk >= 6 && nc == nk - 3), "refused"); vp_check(throws([]() { BSpline z(1); }), "order"); }
HARNESS(c19_set_again) { // the second setting replaces the first one completely
  const int K = 3; BSpline b(K); int n0 = 1 + vp_choice("first", 4); VD T0; for (int i = 0; i < n0 + 2 * K - 1; i++) T0.push_back(i * i); b.setKnotsAndCoefficients(T0, MatrixXd::Ones(2, n0 + K - 1)); VD T = knots(2 + 2 * K - 1); MatrixXd C = coef(1, 2 + K - 1); VectorXd tv(T.size()); for (size_t i = 0; i < T.size(); i++) tv[i] = T[i]; b.setKnotVectorAndCoefficients(tv, C); vp_eq(b.knotVector(), tv, "knots"); VD kk = b.knots(); vp_check(kk.size() == T.size(), "size"); vp_eq(b.coefficients(), C, "coefficients"); int s = K - 1 + vp_choice("span", 2); double t = T[s] + vp_real_in("a", 0, 0.99) * (T[s + 1] - T[s]); vp_check_eq(b.eval(t)[0], S(T, row(C, 0), s, K, t, 0), "value"); }
HARNESS(c19_coefficients) { Sp p(3, 2, 2); MatrixXd C2 = coef(2, 4, "d"); int how = vp_choice("how", 5); MatrixXd E = C2; if (how == 0) p.b.setCoefficientMatrix(C2); else if (how == 1) { VectorXd v(8); for (int i = 0; i < 4; i++) for (int r = 0; r < 2; r++) v[2 * i + r] = C2(r, i); p.b.setCoefficientVector(v); vp_eq(p.b.coefficientVector(), v, "vector"); }
  else if (how == 2) { int s = vp_choice("seg", 2); VectorXd v(6); E = p.C; for (int i = 0; i < 3; i++) for (int r = 0; r < 2; r++) { v[2 * i + r] = C2(r, i); E(r, s + i) = C2(r, i); } p.b.setLocalCoefficientVector(p.T[2 + s] + 0.25 * (p.T[3 + s] - p.T[2 + s]), v); }
  else if (how == 3) { int i = vp_choice("i", 4); E = p.C; E.col(i) = C2.col(i); p.b.vvCoefficientVector(i) = C2.col(i); } else { int i = vp_choice("i", 4); E = p.C; E.col(i) = C2.col(i); p.b.fixedSizeVvCoefficientVector<2>(i) = C2.col(i); const BSpline& cb = p.b; vp_eq(cb.fixedSizeVvCoefficientVector<2>(i), C2.col(i), "fixed"); vp_eq(cb.vvCoefficientVector(i), C2.col(i), "dynamic"); }
  vp_eq(p.b.coefficients(), E, "coefficients"); vp_check(throws([&]() { p.b.setCoefficientVector(VectorXd::Zero(7)); }) && throws([&]() { p.b.setCoefficientMatrix(MatrixXd::Zero(2, 3)); }) && throws([&]() { p.b.vvCoefficientVector(4); }) && throws([&]() { p.b.setLocalCoefficientVector(p.T[2], VectorXd::Zero(5)); }), "refused");
}
// ---------------------------------------------------------------- C20
HARNESS(c20_remove) { // dropping the oldest segment leaves the rest of the curve unchanged
  const int K = 3; Sp p(K, 3); p.b.removeCurveSegment(); vp_check(p.b.numValidTimeSegments() == 2, "segments"); vp_check_eq(p.b.t_min(), p.T[K], "t_min"); vp_check_eq(p.b.t_max(), p.T[K + 2], "t_max"); int s = K + vp_choice("span", 2); double t = p.T[s] + vp_real_in("a", 0, 0.99) * (p.T[s + 1] - p.T[s]); vp_check_eq(p.b.eval(t)[0], S(p.T, row(p.C, 0), s, K, t, 0), "value"); vp_check_eq(p.b.evalD(t, 1)[0], S(p.T, row(p.C, 0), s, K, t, 1), "derivative"); }
// Taylor polynomial of the d-th derivative on span s; integral over [x0, x1]
static double Iseg(const VD& T, const VD& c, int s, int k, double a, double b) { double r = 0, fa = 1, f = 1; double x = a - T[s], y = b - T[s], xp = x, yp = y; for (int d = 0; d < k; d++) { f *= d + 1; r += S(T, c, s, k, T[s], d) * (yp - xp) / f; xp *= x; yp *= y; } return r; }
template <int K> void integral(int n) { Sp p(K, n); int s1 = vp_choice("s1", n), s2 = vp_choice("s2", n); vp_assume(s1 <= s2); s1 += K - 1; s2 += K - 1; double a = vp_real_in("a", 0, 0.999), b = vp_real_in("b", 0, 0.999), t1 = p.T[s1] + a * (p.T[s1 + 1] - p.T[s1]), t2 = p.T[s2] + b * (p.T[s2 + 1] - p.T[s2]); if (s2 == n + K - 2 && vp_bool("end")) t2 = p.T[s2 + 1]; if (s1 == s2) vp_assume(t1 <= t2); vp_assume(t1 == p.T[s1] || t1 - p.T[s1] >= 1e-15); vp_assume(t2 == p.T[s2] || t2 - p.T[s2] >= 1e-15);
  VD c = row(p.C, 0); double I = 0; for (int s = s1; s <= s2; s++) I += Iseg(p.T, c, s, K, s == s1 ? t1 : p.T[s], s == s2 ? t2 : p.T[s + 1]); vp_check_eq(p.b.evalIntegral(t1, t2)[0], I, "integral"); vp_check_eq(p.b.evalI(t2, t1)[0], -I, "reversed"); }
HARNESS(c20_integral2) { integral<2>(3); }
HARNESS(c20_integral3) { integral<3>(2); }
HARNESS(c20_integral4) { integral<4>(1); }
static double ip(const VD& T, const VD& c, const VD& e, int s, int k, int d) { // integral of c^(d) e^(d) over the span
  double h = T[s + 1] - T[s], r = 0, fi = 1; for (int i = 0; i < k - d; i++) { double fj = 1; if (i) fi *= i; for (int j = 0; j < k - d; j++) { if (j) fj *= j; double hp = h; for (int q = 0; q < i + j; q++) hp *= h; r += S(T, c, s, k, T[s], d + i) * S(T, e, s, k, T[s], d + j) * hp / (fi * fj * (i + j + 1)); } } return r; }
HARNESS(c20_quadratic) { // c' Q c is the integral of the weighted squared derivative
  int K = 2 + vp_choice("order", 2); const int n = 2; Sp p(K, n, 2); int d = vp_choice("deriv", 3); double w0 = vp_var("w0"), w1 = vp_var("w1"), w2 = vp_var("w2"); Matrix2d W; W << w0, w1, w1, w2; VD x = row(p.C, 0), y = row(p.C, 1); double I = 0, Id = 0; VectorXd c = p.b.coefficientVector();
  for (int s = 0; s < n; s++) { double a = ip(p.T, x, x, s + K - 1, K, d), b = ip(p.T, x, y, s + K - 1, K, d), e = ip(p.T, y, y, s + K - 1, K, d), i = w0 * a + 2 * w1 * b + w2 * e; I += i; Id += w0 * a + w2 * e; VectorXd l = p.b.segmentCoefficientVector(s); MatrixXd Q = p.b.segmentQuadraticIntegral(W, s, d); vp_check_eq(l.dot(Q * l), i, "segment"); vp_check_eq(l.dot(p.b.segmentQuadraticIntegralDiag(Vector2d(w0, w2), s, d) * l), w0 * a + w2 * e, "segment_diag"); }
  MatrixXd Q = p.b.curveQuadraticIntegral(W, d), Qd = p.b.curveQuadraticIntegralDiag(Vector2d(w0, w2), d); vp_check_eq(c.dot(Q * c), I, "curve"); vp_check_eq(c.dot(Qd * c), Id, "curve_diag"); vp_eq(Q, Q.transpose(), "symmetric"); vp_eq(p.b.curveQuadraticIntegralSparse(W, d).toDense(), Q, "sparse"); vp_eq(p.b.curveQuadraticIntegralDiagSparse(Vector2d(w0, w2), d).toDense(), Qd, "sparse_diag");
}
HARNESS(c20_constant) { int K = 2 + vp_choice("order", 3), n = 1 + vp_choice("segments", 3); double t0 = vp_var("t0"), L = vp_real_in("L", 0.1, 10); VectorXd v = coef(2, 1).col(0); BSpline b(K); b.initConstantSpline(t0, t0 + L, n, v); vp_check(b.numValidTimeSegments() == n, "segments"); vp_check_eq(b.t_min(), t0, "t_min"); vp_check_eq(b.t_max(), t0 + L, "t_max"); for (int s = 0; s < n; s++) { double lo = b.timeInterval(s).first, hi = b.timeInterval(s).second, t = lo + vp_real_in(vpn("a", s), 0, 0.99) * (hi - lo); vp_eq(b.eval(t), v, "value"); vp_eq(b.evalD(t, 1), VectorXd::Zero(2), "rate"); vp_check_eq(hi - lo, L / n, "uniform"); } vp_check(throws([&]() { b.initConstantSpline(t0, t0, 1, v); }) && throws([&]() { b.initConstantSpline(t0, t0 + L, 0, v); }), "refused"); }
// the external sparse Cholesky solver is replaced by a stand-in that solves the same (upper triangular) system exactly by elimination
extern "C" {
#include <cholmod.h>
static cholmod_sparse* g_A;
int cholmod_start(cholmod_common* c) { c->status = 0; return 1; }
int cholmod_finish(cholmod_common*) { return 1; }
cholmod_factor* cholmod_analyze(cholmod_sparse*, cholmod_common*) { return (cholmod_factor*)calloc(1, sizeof(cholmod_factor)); }
int cholmod_free_factor(cholmod_factor** f, cholmod_common*) { free(*f); *f = 0; return 1; }
int cholmod_factorize(cholmod_sparse* A, cholmod_factor*, cholmod_common* c) { g_A = A; c->status = 0; return 1; }
cholmod_dense* cholmod_solve(int, cholmod_factor*, cholmod_dense* b, cholmod_common*) {
  int n = g_A->ncol; MatrixXd A = MatrixXd::Zero(n, n); const int* p = (int*)g_A->p; const int* ri = (int*)g_A->i; const double* x = (double*)g_A->x; for (int c = 0; c < n; c++) for (int k = p[c]; k < p[c + 1]; k++) { A(ri[k], c) = x[k]; A(c, ri[k]) = x[k]; }
  cholmod_dense* r = (cholmod_dense*)calloc(1, sizeof(cholmod_dense)); double* y = (double*)calloc(n, sizeof(double)); r->x = y; for (int i = 0; i < n; i++) y[i] = ((double*)b->x)[i];
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { double f = A(j, i) / A(i, i); for (int k = i; k < n; k++) A(j, k) -= f * A(i, k); y[j] -= f * y[i]; } for (int i = n - 1; i >= 0; i--) { for (int k = i + 1; k < n; k++) y[i] -= A(i, k) * y[k]; y[i] /= A(i, i); } return r; }
int cholmod_free_dense(cholmod_dense** d, cholmod_common*) { free((*d)->x); free(*d); *d = 0; return 1; }
}
// stationarity of  sum |p(t_i) - x_i|^2 + lambda * integral |p''|^2  in every coefficient (p' for order 2)
static void stationary(const BSpline& b, const VectorXd& times, const MatrixXd& X, double lambda, int kind) {
  VD T = b.knots(); int K = b.splineOrder(), C = b.numVvCoefficients(), n = b.numValidTimeSegments(); for (int r = 0; r < X.rows(); r++) { VD c(C); for (int i = 0; i < C; i++) c[i] = b.coefficients()(r, i);
    for (int j = 0; j < C; j++) { VD e(C, 0.0); e[j] = 1; double g = 0; for (int i = 0; i < times.size(); i++) { int s = K - 1; while (s < K - 2 + n && T[s + 1] <= times[i]) s++; g += (S(T, c, s, K, times[i], 0) - X(r, i)) * S(T, e, s, K, times[i], 0); }
      if (kind == 2) { for (int q = 0; q <= n; q++) { int s = K - 1 + (q == n ? n - 1 : q); double t = T[K - 1 + q]; g += lambda * lambda * S(T, c, s, K, t, 2) * S(T, e, s, K, t, 2); } } else for (int s = K - 1; s < K - 1 + n; s++) g += lambda * ip(T, c, e, s, K, K == 2 ? 1 : 2); vp_check_eq(g, 0.0, vpn("stationary", r, j)); } } }
static VectorXd times3(int w) { VectorXd t(5); if (w == 0) t << 0, 1, 2, 3, 4; else if (w == 1) t << 1, 1.5, 2.25, 5, 6; else t << -2, -1.75, 0.5, 0.5, 2; return t; }
static MatrixXd pts(int D, int n) { return coef(D, n, "x"); }
HARNESS(c20_init3) { int K = 2 + vp_choice("order", 3); BSpline b(K); VectorXd t = times3(vp_choice("times", 3)); MatrixXd X = pts(K == 3 ? 2 : 1, 5); b.initSpline3(t, X, 2, 0.125); vp_check(b.numValidTimeSegments() == 2, "segments"); vp_check_eq(b.t_min(), t[0], "t_min"); vp_check_eq(b.t_max(), t[4], "t_max"); stationary(b, t, X, 0.125, 3); }
HARNESS(c20_init2) { int K = 3 + vp_choice("order", 2); BSpline b(K); VectorXd t = times3(vp_choice("times", 3)); MatrixXd X = pts(K == 3 ? 2 : 1, 5); b.initSpline2(t, X, 2, 0.5); vp_check(b.numValidTimeSegments() == 2, "segments"); vp_check_eq(b.t_min(), t[0], "t_min"); vp_check_eq(b.t_max(), t[4], "t_max"); stationary(b, t, X, 0.5, 2); }
HARNESS(c20_init_sparse) { int K = 2 + vp_choice("order", 3); BSpline b(K); VectorXd t = times3(vp_choice("times", 3)); MatrixXd X = pts(K == 3 ? 2 : 1, 5); b.initSplineSparse(t, X, 2, 0.125); vp_check(b.numValidTimeSegments() == 2, "segments"); vp_check_eq(b.t_min(), t[0], "t_min"); vp_check_eq(b.t_max(), t[4], "t_max"); stationary(b, t, X, 0.125, 3); }
HARNESS(c20_init_sparse_knots) { const int K = 4; BSpline b(K); VectorXd t = times3(0), k(9); k << -3, -2, -1, 0, 1.5, 4, 5, 6, 7.5; MatrixXd X = pts(1, 5); b.initSplineSparseKnots(t, X, k, 0.125); vp_check(b.numValidTimeSegments() == 2, "segments"); vp_eq(b.knotVector(), k, "knots"); stationary(b, t, X, 0.125, 3); }
HARNESS(c20_init_refused) { BSpline b(3); MatrixXd X = MatrixXd::Zero(1, 3); VectorXd t(3); t << vp_var("a"), vp_var("b"), vp_var("c"); vp_assume(!(t[0] <= t[1] && t[1] <= t[2])); int w = vp_choice("fn", 4); vp_check(throws([&]() { if (w == 0) b.initSpline2(t, X, 1, 1); else if (w == 1) b.initSpline3(t, X, 1, 1); else if (w == 2) b.initSplineSparse(t, X, 1, 1); else b.initSplineSparseKnots(t, X, VectorXd::LinSpaced(6, 0, 5), 1); }), "decreasing"); }
static bool near(double a, double b, double scale) { double d = a - b; return d <= 1e-6 * scale && d >= -1e-6 * scale; }
HARNESS(c20_init) { vp_round_sqrt(); // two-point initialisation: end values, and constant velocity from order 3 on
  int K = 2 + vp_choice("order", 3); int w = vp_choice("interval", 2); double t0 = w ? -1 : 0, t1 = w ? 1 : 0.5; VectorXd p(1), q(1); p[0] = vp_real_in("p", -1, 1); q[0] = vp_real_in("q", -1, 1); BSpline b(K); b.initSpline(t0, t1, p, q); vp_check_eq(b.t_min(), t0, "t_min"); vp_check_eq(b.t_max(), t1, "t_max"); vp_check(near(b.eval(t0)[0], p[0], 1), "start"); vp_check(near(b.eval(t1)[0], q[0], 1), "end"); if (K > 2) { double v = (q[0] - p[0]) / (t1 - t0); vp_check(near(b.evalD(t0, 1)[0], v, 1) && near(b.evalD(t1, 1)[0], v, 1) && near(b.eval((t0 + t1) / 2)[0], (p[0] + q[0]) / 2, 1), "velocity"); } vp_check(throws([&]() { b.initSpline(t1, t1, p, q); }), "refused"); }
HARNESS(c20_add_segment) { vp_round_sqrt(); // a new segment ends in the given value and joins the end of the curve
  int K = 2 + vp_choice("order", 3); const int n = 2; VD T; for (int i = 0; i < n + 2 * K - 1; i++) T.push_back(i); MatrixXd C(1, n + K - 1); for (int i = 0; i < n + K - 1; i++) C(0, i) = vp_real_in(vpn("c", i), -1, 1); BSpline b(K); b.setKnotsAndCoefficients(T, C); double old = b.t_max(), t = old + (vp_bool("long") ? 1.0 : 0.5); VectorXd p(1); p[0] = vp_real_in("p", -1, 1); double e = b.eval(old)[0]; if (vp_bool("regularised")) { b.addCurveSegment2(t, p, 0); } else b.addCurveSegment(t, p); vp_check(b.numValidTimeSegments() == n + 1, "segments"); vp_check_eq(b.t_max(), t, "t_max"); vp_check_eq(b.t_min(), T[K - 1], "t_min"); vp_check(near(b.eval(old)[0], e, 10), "joins"); vp_check(near(b.eval(t)[0], p[0], 10), "ends"); vp_check(throws([&]() { b.addCurveSegment(t, p); }) && throws([&]() { b.addCurveSegment(t + 1, VectorXd::Zero(2)); }), "refused"); }
