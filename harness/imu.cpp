#include "expr_lib.hpp"
#include <aslam_splines/BSplinePoseDesignVariable.hpp>
#include <aslam_splines/EuclideanBSplineDesignVariable.hpp>
#include <aslam_splines/BSplineDesignVariable.hpp>
#include <aslam_splines/BSplineExpressions.hpp>
#include <aslam_splines/BSplineMotionError.hpp>
#include <aslam_splines/SimpleSplineError.hpp>
#include <aslam_splines/BSplineMotionErrorFactory.hpp>
#include <aslam_backend/backend/MarginalizationPriorErrorTerm.hpp>
#include <aslam_backend/backend/OptimizationProblem.hpp>
#include <kalibr/AccelerometerError.hpp>
#include <kalibr/GyroscopeError.hpp>
#include <kalibr/EuclideanError.hpp>
typedef std::vector<double> VD;
#include "pose_lib.hpp"
using namespace aslam::splines; namespace ab = aslam::backend;
static bool throws(std::function<void()> f) { try { f(); } catch (...) { return true; } return false; }
// value and Jacobians of a spline expression: local coefficients through the chain rule on the value, in the frame of the design variables of the spline
template <class DV, class Q, class V, class J, class C, class S> void vspl(Q& p, DV& s, int D0, Kind kind, int rows, const V& v, J jac, C chain, S dvset) {
  int n = s.numDesignVariables(); for (int i = 0; i < n; i++) { s.designVariable(i)->setBlockIndex(i); s.designVariable(i)->setActive(true); }
  DVar::set_t set; dvset(set); vp_check((int)set.size() == p.K, "design_variables"); for (int i = 0; i < p.K; i++) vp_check(set.count(s.designVariable(p.seg + i)) == 1, "design_variable");
  JacobianContainer jc(rows), jc2(2); jac(jc); MatrixXd A = mat("A", 2, rows); chain(jc2, A); vp_check((int)jc.numDesignVariables() == p.K && (int)jc2.numDesignVariables() == p.K, "blocks");
  for (int i = 0; i < p.K; i++) { MatrixXd J1 = jacOf(jc, s.designVariable(p.seg + i)), J2 = jacOf(jc2, s.designVariable(p.seg + i)); vp_check(J1.rows() == rows && J1.cols() == D0, "block_size"); for (int k = 0; k < D0; k++) { VectorXd t = tangent(kind, v, p.dc(v, i * D0 + k)); vp_eq(J1.col(k), t, "J"); vp_eq(J2.col(k), A * t, "AJ"); } } }
template <class E> void pe(P& p, BSplinePoseDesignVariable& s, E e, const Vector3d& want) { vp_eq(e.toEuclidean(), want, "value"); MatrixXd v = want; vspl(p, s, 6, VEC, 3, v, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.evaluateJacobians(j, A); }, [&](DVar::set_t& q) { e.getDesignVariables(q); }); }
HARNESS(c22_transformation) { P p(2 + vp_choice("order", 2), 2); BSplinePoseDesignVariable s(p.b); auto e = s.transformation(p.t); MatrixXd v = p.b.transformation(p.t); vp_eq(e.toTransformationMatrix(), v, "value"); vspl(p, s, 6, TRF, 6, v, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.evaluateJacobians(j, A); }, [&](DVar::set_t& q) { e.getDesignVariables(q); }); }
HARNESS(c22_orientation) { P p(2 + vp_choice("order", 2), 2); BSplinePoseDesignVariable s(p.b); auto e = s.orientation(p.t); MatrixXd v = p.b.orientation(p.t); vp_eq(e.toRotationMatrix(), v, "value"); vspl(p, s, 6, ROT, 3, v, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.root()->evaluateJacobians(j, A); }, [&](DVar::set_t& q) { e.getDesignVariables(q); }); }
HARNESS(c22_position) { P p(2, 2); BSplinePoseDesignVariable s(p.b); pe(p, s, s.position(p.t), p.b.position(p.t)); }
HARNESS(c22_velocity) { P p(3, 1); BSplinePoseDesignVariable s(p.b); pe(p, s, s.linearVelocity(p.t), p.b.linearVelocity(p.t)); }
HARNESS(c22_acceleration) { P p(3, 2); BSplinePoseDesignVariable s(p.b); pe(p, s, s.linearAcceleration(p.t), p.b.linearAcceleration(p.t)); }
HARNESS(c22_acceleration_body) { P p(3, 1); BSplinePoseDesignVariable s(p.b); pe(p, s, s.linearAccelerationBodyFrame(p.t), p.b.linearAccelerationBodyFrame(p.t)); }
HARNESS(c22_angular_velocity) { P p(3, 1); BSplinePoseDesignVariable s(p.b); pe(p, s, s.angularVelocityBodyFrame(p.t), p.b.angularVelocityBodyFrame(p.t)); }
HARNESS(c22_angular_acceleration) { P p(3, 1); BSplinePoseDesignVariable s(p.b); pe(p, s, s.angularAccelerationBodyFrame(p.t), p.b.angularAccelerationBodyFrame(p.t)); }
// the transformation at an estimated time: local coefficients, the buffered ones (zero) and time itself
HARNESS(c22_time_offset) { P p(2 + vp_choice("order", 2), 3); BSplinePoseDesignVariable s(p.b); VD T = p.b.knots(); vp_assume(p.t <= T[p.K + p.seg] - 0.01); Scalar ts(0.0); { double x = p.t; ts.update(&x, 1); } int w = vp_choice("buffer", 3); double lb = w == 1 ? 0.6 : 0, rb = w == 2 ? 0.6 : 0; for (double k : T) { if (w == 1 && p.t - lb < k) { vp_reach("left"); break; } if (w == 2 && p.t + rb < k) { vp_reach("right"); break; } } auto e = s.transformationAtTime(ts.toExpression(), lb, rb); MatrixXd v = p.b.transformation(p.t); vp_eq(e.toTransformationMatrix(), v, "value");
  int n = s.numDesignVariables(); for (int i = 0; i < n; i++) { s.designVariable(i)->setBlockIndex(i); s.designVariable(i)->setActive(true); } ts.setBlockIndex(n); ts.setActive(true);
  DVar::set_t set; e.getDesignVariables(set); vp_check(set.count(&ts) == 1, "time_variable"); for (int i = 0; i < p.K; i++) vp_check(set.count(s.designVariable(p.seg + i)) == 1, "design_variable");
  JacobianContainer jc(6), jc2(2); e.evaluateJacobians(jc); MatrixXd A = mat("A", 2, 6); e.evaluateJacobians(jc2, A); vp_check(jc.numDesignVariables() == set.size() && jc2.numDesignVariables() == set.size(), "blocks");
  for (int i = 0; i < n; i++) { MatrixXd J1 = jacOf(jc, s.designVariable(i)), J2 = jacOf(jc2, s.designVariable(i)); bool in = i >= p.seg && i < p.seg + p.K; for (int k = 0; k < 6; k++) { VectorXd t = VectorXd::Zero(6); if (in) t = tangent(TRF, v, p.dc(v, (i - p.seg) * 6 + k)); vp_eq(J1.col(k), t, "J"); vp_eq(J2.col(k), A * t, "AJ"); } }
  VectorXd t = tangent(TRF, v, p.dt(v)); vp_eq(jacOf(jc, &ts), t, "J_time"); vp_eq(jacOf(jc2, &ts), A * t, "AJ_time"); }
HARNESS(c22_time_buffer) { P p(2, 3); BSplinePoseDesignVariable s(p.b); VD T = p.b.knots(); Scalar ts((T[1] + T[2]) / 2); auto e = s.transformationAtTime(ts.toExpression(), 0.01, 0.01); double u = vp_real_in("u", -1, 3), d = u - ts.toScalar(); ts.update(&d, 1); bool out = u < T[1] || u >= T[2]; JacobianContainer jc(6); vp_check(throws([&]() { e.toTransformationMatrix(); }) == out, "value_refused"); vp_check(throws([&]() { e.evaluateJacobians(jc); }) == out, "jacobian_refused"); }
// design variables are the coefficients
template <class S, int D0> static void vars(S& s, int n0) { int n = s.numDesignVariables(); vp_check(n == n0 && s.spline().numVvCoefficients() == n, "count"); for (int i = 0; i < n; i++) { MatrixXd c0 = s.spline().coefficients(); VectorXd d(D0), d2(D0); for (int k = 0; k < D0; k++) { d[k] = vp_var(vpn("d", k)); d2[k] = vp_var(vpn("e", k)); } auto* v = s.designVariable(i); vp_check(v->minimalDimensions() == D0, "dimension"); v->update(d.data(), D0); MatrixXd c1 = c0; c1.col(i) += d; vp_eq(s.spline().coefficients(), c1, "updated"); v->revertUpdate(); vp_eq(s.spline().coefficients(), c0, "reverted"); MatrixXd val; v->getParameters(val); vp_eq(val, c0.col(i), "parameters"); v->setParameters(d2); c1.col(i) = d2; vp_eq(s.spline().coefficients(), c1, "set"); v->setParameters(c0.col(i)); } vp_check(throws([&]() { s.designVariable(n); }), "refused"); }
HARNESS(c22_variables) { vp_round_sqrt(); const int K = 3; P p(K, 2); BSplinePoseDesignVariable s(p.b); vp_check(&s.spline() != &p.b, "copy"); vars<BSplinePoseDesignVariable, 6>(s, K + 1); VectorXi x = s.getActiveDesignVariableIndices(p.t); auto dvs = s.getDesignVariables(p.t); vp_check(x.size() == K && dvs.size() == K, "active_count"); for (int i = 0; i < K; i++) { vp_check(x[i] == p.seg + i, "active"); vp_check(dvs[i] == s.designVariable(p.seg + i), "active_variable"); } }
HARNESS(c22_variables_edit) { vp_round_sqrt(); const int K = 2; VD T; for (int i = 0; i < 5; i++) T.push_back(i); MatrixXd C(6, 3); for (int d = 0; d < 6; d++) for (int i = 0; i < 3; i++) C(d, i) = i == 1 ? vp_var(vpn("c", d)) : d + i; BSplinePose b(K, P::rk(0)); b.setKnotsAndCoefficients(T, C); BSplinePoseDesignVariable s(b); int w = vp_choice("history", 3); Matrix4d X = Matrix4d::Identity(); X(0, 3) = 2; int n = 3; if (w != 1) { s.addSegment(4, X); n++; } if (w != 0) { s.removeSegment(); n--; } vars<BSplinePoseDesignVariable, 6>(s, n); }
static BSpline vspline(int K, int n, int D0) { VD T; for (int i = 0; i < n + 2 * K - 1; i++) T.push_back(i + (i > K ? 0.5 : 0)); MatrixXd C(D0, n + K - 1); for (int d = 0; d < D0; d++) for (int i = 0; i < n + K - 1; i++) C(d, i) = vp_var(vpn("c", d, i)); BSpline b(K); b.setKnotsAndCoefficients(T, C); return b; }
HARNESS(c22_vector_variables) { vp_round_sqrt(); BSpline b = vspline(2, 2, 2); BSplineDesignVariable<2> s(b); int w = vp_choice("history", 4); int n = 3; if (w & 1) { s.addSegment(s.spline().t_max() + 1, Vector2d(vp_var("x"), 1)); n++; } if (w & 2) { s.removeSegment(); n--; } vars<BSplineDesignVariable<2>, 2>(s, n); }
template <int D0> struct Q { BSpline b; int K, seg; double t; Q(int K, int n) : b(vspline(K, n, D0)), K(K) { seg = vp_choice("segment", n); VD T = b.knots(); t = vp_var("t"); vp_assume(t >= T[K - 1 + seg] && t < T[K + seg]); } template <class M> M dc(const MatrixBase<M>& m, int col) { return D(m, vpn("c", col % D0, seg + col / D0)); } };
HARNESS(c22_vector_expression) { Q<2> p(3, 2); BSplineDesignVariable<2> s(p.b); int o = vp_choice("derivative", 3); auto e = s.toExpression(p.t, o); MatrixXd v = p.b.evalD(p.t, o); vp_eq(e.toValue(), v, "value"); vspl(p, s, 2, VEC, 2, v, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.evaluateJacobians(j, A); }, [&](DVar::set_t& q) { e.getDesignVariables(q); }); }
HARNESS(c22_euclidean_expression) { Q<3> p(3, 2); EuclideanBSplineDesignVariable s(p.b); int o = vp_choice("derivative", 3); auto e = s.toEuclideanExpression(p.t, o); MatrixXd v = p.b.evalD(p.t, o); vp_eq(e.toEuclidean(), v, "value"); vp_eq(s.toEuclidean(p.t, o), v, "direct"); vspl(p, s, 3, VEC, 3, v, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.evaluateJacobians(j, A); }, [&](DVar::set_t& q) { e.getDesignVariables(q); }); }
// ---- spline error terms
HARNESS(c22_simple_error) { Q<1> p(2, 2); BSplineDesignVariable<1> s(p.b); auto e = s.toExpression(p.t, 0); Matrix<double, 1, 1> y(vp_var("y0")); SimpleSplineError<BSplineDesignVariable<1>> er(&s, &e, y, p.t); Matrix<double, 1, 1> r = p.b.eval(p.t) - y; vp_check_eq(er.evaluateError(), r.dot(r), "squared"); vp_eq(er.error(), r, "error"); vp_check(er.numDesignVariables() == 2, "variables"); for (int i = 0; i < 3; i++) { s.designVariable(i)->setBlockIndex(i); s.designVariable(i)->setActive(true); } JacobianContainer jc(1); er.evaluateJacobians(jc); for (int i = 0; i < 2; i++) { MatrixXd J = jacOf(jc, s.designVariable(p.seg + i)); for (int k = 0; k < 1; k++) vp_eq(J.col(k), p.dc(r, i), "J"); } }
HARNESS(c22_motion_error) { const int n = 2; int K = 2 + vp_choice("order", 2), o = vp_choice("derivative", 3); BSpline b = vspline(K, n, 2); BSplineDesignVariable<2> s(b); double w0 = vp_var("w0"), w1 = vp_var("w1"), w2 = vp_var("w2"); Matrix2d W; W << w0, w1, w1, w2; BSplineMotionError<BSplineDesignVariable<2>> er(&s, W, o); int od = K <= o ? K - 1 : o; MatrixXd Q = b.curveQuadraticIntegral(W, od); VectorXd c = b.coefficientVector(); int C = K + n - 1;
  vp_check_eq(er.evaluateError(), c.dot(Q * c), "cost"); vp_eq(er.rhs(), -(Q * c), "rhs"); vp_check((int)er.numDesignVariables() == C, "variables"); unsigned m = vp_choice("inactive", C + 1); std::vector<int> dims; int nb = 0; for (int i = 0; i < C; i++) { bool act = (unsigned)i != m; vp_check(er.designVariable(i) == s.designVariable(i), "variable"); s.designVariable(i)->setActive(act); if (act) { s.designVariable(i)->setBlockIndex(nb++); dims.push_back(2 * nb); } }
  aslam::backend::SparseBlockMatrix H(dims, dims, true); VectorXd r = VectorXd::Zero(2 * nb); er.buildHessian(H, r, false); for (int i = 0, x = 0; i < C; i++) { if ((unsigned)i == m) continue; vp_eq(r.segment(2 * x, 2), -(Q * c).segment(2 * i, 2), "gradient"); for (int j = 0, y = 0; j < C; j++) { if ((unsigned)j == m) continue; if (y <= x) { MatrixXd* B = H.block(y, x, false); MatrixXd want = Q.block(2 * j, 2 * i, 2, 2); if (B) vp_eq(*B, want, "hessian"); else vp_eq(want, Matrix2d::Zero(), "hessian_absent"); } y++; } x++; } }
// motion prior as independent terms: each one is |R c|^2 with the factor R of its segment (the factorisation itself is replaced by an arbitrary matrix)
struct FB : BSpline { FB(const BSpline& b) : BSpline(b) {} MatrixXd segmentIntegral(int s, const MatrixXd&, int) const { MatrixXd R(2, 2 * splineOrder()); for (int i = 0; i < R.rows(); i++) for (int j = 0; j < R.cols(); j++) R(i, j) = vp_var(vpn(s ? "R" : "S", i, j)); return R; } };
struct FS { BSplineDesignVariable<2> d; FS(const BSpline& b) : d(b) {} FB spline() { return FB(d.spline()); } DVar* designVariable(size_t i) { return d.designVariable(i); } };
HARNESS(c22_motion_terms) { const int K = 2, n = 2; BSpline b = vspline(K, n, 2); FS s(b); OptimizationProblem pr; for (int i = 0; i < 3; i++) pr.addDesignVariable(s.designVariable(i), false); addMotionErrorTerms(pr, s, Matrix2d::Identity(), 1); vp_check((int)pr.numErrorTerms() == n, "terms"); bool moved = vp_bool("moved"); if (moved) { VectorXd d(2); d << vp_var("d0"), vp_var("d1"); s.designVariable(1)->update(d.data(), 2); }
  for (int i = 0; i < 3; i++) { s.designVariable(i)->setBlockIndex(i); s.designVariable(i)->setActive(true); } for (int q = 0; q < n; q++) { MatrixXd R = s.spline().segmentIntegral(q, MatrixXd(), 1); VectorXd e = R * s.d.spline().segmentCoefficientVector(q); ErrorTerm* t = pr.errorTerm(q); vp_check_eq(t->evaluateError(), e.dot(e), "cost"); JacobianContainer jc(2); t->evaluateJacobians(jc); for (int i = 0; i < K; i++) vp_eq(jacOf(jc, s.designVariable(q + i)), R.block(0, 2 * i, 2, 2), "J"); } }
// ---- IMU error terms
static Matrix3d sym(const char*) { Matrix3d L; L << 1, 0, 0, 0.5, 2, 0, -1, 0.25, 0.5; return L * L.transpose(); } // weighting itself is C12
template <class E> void err(E& e, DVs dv, std::function<Vector3d()> want, const Matrix3d& W) { for (size_t i = 0; i < dv.size(); i++) { dv[i]->setBlockIndex(i); dv[i]->setActive(true); } Vector3d r = want(); vp_check_eq(e.evaluateError(), r.dot(W * r), "squared"); vp_eq(e.error(), r, "error"); vp_eq(e.invR(), W, "weight"); vp_check(e.numDesignVariables() == dv.size(), "variable_count");
  JacobianContainer jc(3); e.evaluateJacobians(jc); vp_check(jc.numDesignVariables() == dv.size(), "blocks"); for (size_t i = 0; i < dv.size(); i++) { MatrixXd J = jacOf(jc, dv[i]); int n = dv[i]->minimalDimensions(); for (int k = 0; k < n; k++) { VpName en = vpn("eps", i, k); VectorXd d = VectorXd::Zero(n); d[k] = vp_eps(en); dv[i]->update(d.data(), n); VectorXd t = d0(want(), en); dv[i]->revertUpdate(); vp_eq(J.col(k), t, vpn("J", i, k)); } } }
HARNESS(c22_euclidean_error) { P3 a("a"); Vector3d m = v3("m"); Matrix3d W = sym("W"); kalibr::EuclideanError e(m, W, a.toExpression()); err(e, {&a}, [&]() -> Vector3d { return a.toEuclidean() - m; }, W); vp_eq(e.getPredictedMeasurement(), a.toEuclidean(), "predicted"); vp_eq(e.getMeasurement(), m, "measurement"); }
HARNESS(c22_gyro) { P3 w("w"), b("b"); Vector3d m = v3("m"); Matrix3d W = sym("W"); if (vp_bool("bias")) { kalibr::GyroscopeError e(m, W, w.toExpression(), b.toExpression()); err(e, {&w, &b}, [&]() -> Vector3d { return w.toEuclidean() + b.toEuclidean() - m; }, W); vp_eq(e.getMeasurement(), m, "measurement"); } else { kalibr::GyroscopeNoBiasError e(m, W, w.toExpression()); err(e, {&w}, [&]() -> Vector3d { return w.toEuclidean() - m; }, W); } }
HARNESS(c22_accelerometer) { RQ q("q"); P3 a("a"), b("b"), g("g"); Vector3d m = v3("m"); Matrix3d W = sym("W"); kalibr::AccelerometerError e(m, W, q.toExpression(), a.toExpression(), b.toExpression(), g.toExpression()); err(e, {&q, &a, &b, &g}, [&]() -> Vector3d { return q.toRotationMatrix() * (a.toEuclidean() - g.toEuclidean()) + b.toEuclidean() - m; }, W); vp_eq(e.getPredictedMeasurement(), q.toRotationMatrix() * (a.toEuclidean() - g.toEuclidean()) + b.toEuclidean(), "predicted"); }
static Vector3d lever(const Vector3d& al, const Vector3d& w, const Vector3d& r) { return al.cross(r) + w.cross(w.cross(r)); }
struct MB : MatrixBasic { MB(const char* n) : MatrixBasic(matv<3, 3>(n), Matrix3i::Ones()) {} };
HARNESS(c22_accelerometer_eccentric) { int sh = vp_choice("vary", 3); MB M("M"); RQ q("q"), qi("qi"); P3 a("a"), w("w"), al("al"), b("b"), g("g"), rx("rx"), ry("ry"), rz("rz"); Vector3d m = v3("m"); Matrix3d W = Matrix3d::Identity(); kalibr::AccelerometerErrorEccentric e(m, W, M.toExpression(), q.toExpression(), a.toExpression(), w.toExpression(), al.toExpression(), qi.toExpression(), rx.toExpression(), ry.toExpression(), rz.toExpression(), b.toExpression(), g.toExpression());
  auto want = [&]() -> Vector3d { Vector3d l(lever(al.toEuclidean(), w.toEuclidean(), rx.toEuclidean())[0], lever(al.toEuclidean(), w.toEuclidean(), ry.toEuclidean())[1], lever(al.toEuclidean(), w.toEuclidean(), rz.toEuclidean())[2]); return M.toExpression().toMatrix3x3() * (qi.toRotationMatrix() * (q.toRotationMatrix() * (a.toEuclidean() - g.toEuclidean()) + l)) + b.toEuclidean() - m; };
  DVs dv{&M, &q, &qi, &a, &w, &al, &b, &g, &rx, &ry, &rz}; vp_check(e.numDesignVariables() == dv.size(), "variable_count"); vp_eq((e.evaluateError(), Vector3d(e.error())), want(), "error"); for (size_t i = 0; i < dv.size(); i++) { dv[i]->setBlockIndex(i); dv[i]->setActive(true); } JacobianContainer jc(3); e.evaluateJacobians(jc);
  for (size_t i = sh; i < dv.size(); i += 3) { MatrixXd J = jacOf(jc, dv[i]); int n = dv[i]->minimalDimensions(); for (int k = 0; k < n; k++) { VpName en = vpn("eps", i, k); VectorXd d = VectorXd::Zero(n); d[k] = vp_eps(en); dv[i]->update(d.data(), n); VectorXd t = d0(want(), en); dv[i]->revertUpdate(); vp_eq(J.col(k), t, vpn("J", i, k)); } } }
HARNESS(c22_gyro_eccentric) { int sh = vp_choice("vary", 3); MB M("M"), Ma("Ma"); RQ q("q"), qi("qi"); P3 a("a"), w("w"), al("al"), b("b"), g("g"), r("r"); Vector3d m = v3("m"); Matrix3d W = Matrix3d::Identity(); kalibr::GyroscopeErrorEccentric e(m, W, M.toExpression(), Ma.toExpression(), q.toExpression(), a.toExpression(), w.toExpression(), al.toExpression(), qi.toExpression(), r.toExpression(), b.toExpression(), g.toExpression());
  auto want = [&]() -> Vector3d { return M.toExpression().toMatrix3x3() * (qi.toRotationMatrix() * w.toEuclidean() + Ma.toExpression().toMatrix3x3() * (qi.toRotationMatrix() * (q.toRotationMatrix() * (a.toEuclidean() - g.toEuclidean()) + lever(al.toEuclidean(), w.toEuclidean(), r.toEuclidean())))) + b.toEuclidean() - m; };
  DVs dv{&M, &Ma, &q, &qi, &a, &w, &al, &b, &g, &r}; vp_check(e.numDesignVariables() == dv.size(), "variable_count"); vp_eq((e.evaluateError(), Vector3d(e.error())), want(), "error"); for (size_t i = 0; i < dv.size(); i++) { dv[i]->setBlockIndex(i); dv[i]->setActive(true); } JacobianContainer jc(3); e.evaluateJacobians(jc);
  for (size_t i = sh; i < dv.size(); i += 3) { MatrixXd J = jacOf(jc, dv[i]); int n = dv[i]->minimalDimensions(); for (int k = 0; k < n; k++) { VpName en = vpn("eps", i, k); VectorXd d = VectorXd::Zero(n); d[k] = vp_eps(en); dv[i]->update(d.data(), n); VectorXd t = d0(want(), en); dv[i]->revertUpdate(); vp_eq(J.col(k), t, vpn("J", i, k)); } } }
