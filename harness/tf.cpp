#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/transformations.hpp>
#include <sm_kinematics/homogeneous_coordinates.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <sm_kinematics/UncertainTransformation.hpp>
#include <sm_kinematics/UncertainHomogeneousPoint.hpp>
#include <sm_kinematics/UncertainVector.hpp>
#include "vp.h"
using namespace sm::kinematics;
using namespace Eigen;
typedef Matrix<double, 6, 6> M6; typedef Matrix<double, 6, 1> V6;
static Transformation vpT(const char* a, const char* b) { return Transformation(vp_quat(a), vp_vec<3>(b)); }
static Matrix4d mat(const Transformation& T) { Matrix4d M = Matrix4d::Identity(); M.topLeftCorner<3, 3>() = quat2r(T.q()); M.topRightCorner<3, 1>() = T.t(); return M; }
template <int N> static Matrix<double, N, N> vpSym(const char* n) { Matrix<double, N, N> U; for (int i = 0; i < N; i++) for (int j = i; j < N; j++) U(i, j) = U(j, i) = vp_real(vpn(n, i, j)); return U; }
static V6 vpEps6() { V6 d; for (int i = 0; i < 6; i++) d[i] = 0; return d; }

// ---- C06 transformation group
HARNESS(c06_matrix_views) {
  Transformation T = vpT("q", "t"); Matrix4d M = mat(T);
  vp_eq(T.T(), M, "T"); vp_eq(T.T3x4(), M.topRows<3>(), "T3x4"); vp_eq(T.C(), M.topLeftCorner<3, 3>(), "C");
  Vector4d q = vp_quat("qc"); Vector3d t = vp_vec<3>("tc");
  Transformation U(q, t); vp_eq(U.q(), q, "q"); vp_eq(U.t(), t, "t");
  Vector4d r = vp_vec<4>("qr"); vp_assume(r.norm() > 1e-6);
  Transformation W(r, t); vp_eq(W.q(), r / r.norm(), "normalised");
  Transformation I; vp_eq(I.T(), Matrix4d::Identity(), "default_identity"); U.setIdentity(); vp_eq(U.T(), Matrix4d::Identity(), "setIdentity");
}
HARNESS(c06_from_matrix) {
  Transformation T = vpT("q", "t"); Matrix4d M = mat(T);
  Transformation U(M); vp_eq(U.T(), M, "ctor");
  Transformation W; W.set(M); vp_eq(W.T(), M, "set");
}
HARNESS(c06_compose) {
  Transformation A = vpT("qa", "ta"), B = vpT("qb", "tb");
  vp_eq((A * B).T(), mat(A) * mat(B), "compose");
}
HARNESS(c06_inverse) {
  Transformation A = vpT("qa", "ta");
  Matrix4d I = Matrix4d::Identity(), Mi = mat(A.inverse());
  vp_eq(mat(A) * Mi, I, "right_inverse"); vp_eq(Mi * mat(A), I, "left_inverse");
  vp_eq((A * A.inverse()).T(), I, "op_inverse"); vp_eq((A.inverse() * A).T(), I, "inverse_op");
  vp_eq(A.inverse().inverse().T(), A.T(), "involution");
}
HARNESS(c06_apply) {
  Transformation A = vpT("qa", "ta"); Matrix4d M = mat(A); Vector3d p = vp_vec<3>("p"); Vector4d h = vp_vec<4>("h");
  vp_assume(h.norm() > 1e-9 && (M * h).norm() > 1e-9);
  Vector4d p1; p1 << p, 1;
  vp_eq(A * p, (M * p1).head<3>(), "point"); vp_eq(A * h, M * h, "homogeneous");
  vp_eq((A * HomogeneousPoint(h)).toHomogeneous(), M * h, "HomogeneousPoint");
  vp_eq(A.rotate(p), M.topLeftCorner<3, 3>() * p, "rotate3");
  Vector4d e = h; e.head<3>() = M.topLeftCorner<3, 3>() * h.head<3>(); vp_eq(A.rotate(h), e, "rotate4");
}
HARNESS(c06_oplus) {     // oplus perturbs the translation additively and the rotation on the left; S relates it to the box convention
  Transformation A = vpT("qa", "ta"); Matrix4d M = mat(A); M6 S = A.S();
  for (int k = 0; k < 6; k++) {
    V6 d = V6::Zero(); d[k] = vp_eps(vpn("eps", k)); Transformation B = A; B.oplus(d);
    Matrix4d N = mat(B), box = Matrix4d(-boxPlus(V6(S.col(k))) * M);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) vp_check_eq(vp_diff0(N(i, j), vpn("eps", k)), box(i, j), vpn("oplus", k));
    if (k < 3) vp_eq(B.t(), A.t() + d.head<3>(), "t_additive");
    if (k >= 3) vp_eq(B.t(), A.t(), "t_kept");
  }
}
HARNESS(c06_box) {
  V6 dt = vp_vec<6>("dt"); Vector4d p = vp_vec<4>("p");
  vp_eq(boxMinus(p) * dt, -boxPlus(dt) * p, "boxMinus");
  Transformation A = vpT("qa", "ta"); Matrix4d M = mat(A);
  vp_eq(M * boxPlus(dt) * inverseTransform(M), boxPlus(V6(boxTimes(M) * dt)), "adjoint");
  vp_eq(boxTimes(M) * boxTimes(inverseTransform(M)), M6::Identity(), "boxTimes_inverse");
  vp_eq(boxPlus(dt).topLeftCorner<3, 3>(), crossMx(Vector3d(dt.tail<3>())), "boxPlus_rot"); vp_eq(boxPlus(dt).topRightCorner<4, 1>().head<3>(), -dt.head<3>(), "boxPlus_trans");
  vp_check_eq(boxPlus(dt)(3, 3), 0, "boxPlus33");
}
HARNESS(c06_inverse_transform) {
  Transformation A = vpT("qa", "ta"); Matrix4d M = mat(A);
  vp_eq(M * inverseTransform(M), Matrix4d::Identity(), "inverse");
  vp_eq(rt2Transform(transform2C(M), transform2rho(M)), M, "rt2Transform"); vp_eq(transform2rhoHomogeneous(M), M.col(3), "rho_h");
}
HARNESS(c06_jacobians) {
  Transformation A = vpT("qa", "ta"); Matrix4d M = mat(A); Vector4d v = vp_vec<4>("v"), o; Matrix<double, 4, 6> J;
  transformationAndJacobian(M, v, o, J); vp_eq(o, M * v, "fwd");
  for (int k = 0; k < 6; k++) { V6 d = V6::Zero(); d[k] = 1; vp_eq(J.col(k), -boxPlus(d) * M * v, vpn("fwd_jac", k)); }
  Vector4d oi; Matrix<double, 4, 6> Ji; inverseTransformationAndJacobian(M, v, oi, Ji); Matrix4d Mi = inverseTransform(M);
  vp_eq(oi, Mi * v, "inv");
  for (int k = 0; k < 6; k++) { V6 d = V6::Zero(); d[k] = 1; vp_eq(Ji.col(k), Mi * boxPlus(d) * v, vpn("inv_jac", k)); }
}
HARNESS(c06_teuler) {
  V6 d = vp_vec<6>("d"); Matrix4d M = toTEuler(d);
  vp_eq(M.topLeftCorner<3, 3>(), rph2R(-d[3], -d[4], -d[5]), "rot"); vp_eq(M.topRightCorner<3, 1>(), d.head<3>(), "trans");
  RowVector4d last; last << 0, 0, 0, 1; vp_eq(M.row(3), last, "last");
  vp_eq(toTEuler(d[0], d[1], d[2], d[3], d[4], d[5]), M, "six_args");
}
HARNESS(c06_teuler_roundtrip) {
  Transformation A = vpT("qa", "ta"); Matrix4d M = mat(A); vp_assume(fabs(M(2, 0)) < 0.999);
  vp_eq(toTEuler(fromTEuler(M)), M, "roundtrip");
}
static void geo(double sgn) {   // B = A (+) rotation by 2h about n; at fraction u the interpolation is A (+) rotation by 2uh about n
  Vector4d qa = vp_quat("qa"); Vector3d n; vp_unit("n", n.data(), 3); double h = vp_real_in("h", 0.01, 1.5), u = vp_real_in("u", 0.01, 0.99);
  Vector4d d, e; d << n * sin(h), cos(h); e << n * sin(u * h), cos(u * h);
  Transformation A(qa, vp_vec<3>("ta")), B(Vector4d(qplus(qa, d) * sgn), vp_vec<3>("tb"));
  Transformation C = slerpTransformations(A, B, u);
  vp_eq(C.q(), qplus(qa, e), "geodesic"); vp_eq(C.t(), A.t() + u * (B.t() - A.t()), "translation");
}
HARNESS(c06_slerp_near) { geo(1); }
HARNESS(c06_slerp_far) { geo(-1); }
HARNESS(c06_slerp_ends) {
  Transformation A = vpT("qa", "ta"), B = vpT("qb", "tb"); double u = vp_real_in("u", 0.01, 0.99);
  vp_eq(slerpTransformations(A, B, 0).T(), A.T(), "0"); vp_eq(slerpTransformations(A, B, 1).T(), B.T(), "1");
  Transformation C(A.q(), B.t()); vp_eq(slerpTransformations(A, C, u).C(), A.C(), "same_rotation");
}
HARNESS(c06_interpolate) {
  Transformation A = vpT("qa", "ta"), B(A.q(), vp_vec<3>("tb")); double s0 = vp_real_in("s0", -10, 10), d = vp_real_in("ds", -10, 10), u = vp_real_in("u", 0.01, 0.99);
  vp_assume(fabs(d) > 1e-6); double s1 = s0 + d;
  vp_eq(interpolateTransformations(A, s0, B, s1, s0).T(), A.T(), "at_s0");
  vp_eq(interpolateTransformations(A, s0, B, s1, s1).T(), B.T(), "at_s1");
  Transformation C = interpolateTransformations(A, s0, B, s1, s0 + u * d);
  vp_eq(C.t(), A.t() + u * (B.t() - A.t()), "translation"); vp_eq(C.C(), A.C(), "rotation");
}

// ---- C07 uncertainty propagation
HARNESS(c07_compose) {
  Transformation A = vpT("qa", "ta"), B = vpT("qb", "tb"); M6 Ua = vpSym<6>("Ua"), Ub = vpSym<6>("Ub");
  UncertainTransformation UA(A, Ua), UB(B, Ub);
  // T' = (1-box(da)) A (1-box(db)) B  =>  box(dc) = box(da) + A box(db) A^-1
  M6 X; for (int k = 0; k < 6; k++) { V6 d = V6::Zero(); d[k] = 1; Matrix4d b = mat(A) * boxPlus(d) * inverseTransform(mat(A)); X.col(k) << -b(0, 3), -b(1, 3), -b(2, 3), b(2, 1), b(0, 2), b(1, 0); }
  UncertainTransformation C = UA * UB;
  vp_eq(C.T(), mat(A) * mat(B), "mean"); vp_eq(C.U(), Ua + X * Ub * X.transpose(), "cov");
  UncertainTransformation D = UA * B; vp_eq(D.U(), Ua, "cov_left_only"); vp_eq(D.T(), mat(A) * mat(B), "mean_left");
  UncertainTransformation E = A * UB; vp_eq(E.U(), X * Ub * X.transpose(), "cov_right_only"); vp_eq(E.T(), mat(A) * mat(B), "mean_right");
}
HARNESS(c07_inverse) {
  Transformation A = vpT("qa", "ta"); M6 Ua = vpSym<6>("Ua"); UncertainTransformation UA(A, Ua), I = UA.inverse();
  Matrix4d Mi = inverseTransform(mat(A));
  M6 X; for (int k = 0; k < 6; k++) { V6 d = V6::Zero(); d[k] = 1; Matrix4d b = Mi * boxPlus(d) * mat(A); X.col(k) << -b(0, 3), -b(1, 3), -b(2, 3), b(2, 1), b(0, 2), b(1, 0); }
  vp_eq(I.T(), Mi, "mean"); vp_eq(I.U(), X * Ua * X.transpose(), "cov");
}
static void oplusCov(double r) {
  Transformation A(vp_quat("qa"), vp_vec_in<3>("ta", -r, r)); M6 Ua = vpSym<6>("Ua"); UncertainTransformation UA(A, Ua); M6 S = A.S();
  M6 P = UA.UOplus(); vp_eq(S * P * S.transpose(), Ua, "UOplus");
  UncertainTransformation B(A); B.setUOplus(Ua); vp_eq(B.U(), S * Ua * S.transpose(), "setUOplus"); vp_eq(B.UOplus(), Ua, "roundtrip"); vp_eq(B.T(), A.T(), "mean");
}
HARNESS(c07_oplus) { oplusCov(0.99); }
HARNESS(c07_oplus_thorough) { oplusCov(1e6); }
HARNESS(c07_ctors) {
  Transformation A = vpT("qa", "ta"); double a = vp_real("vt"), b = vp_real("vr"); M6 U = M6::Zero(); for (int i = 0; i < 6; i++) U(i, i) = i < 3 ? a : b; M6 W = vpSym<6>("W"), Z = M6::Zero();
  Matrix4d M = mat(A);
  vp_eq(UncertainTransformation(A, a, b).U(), U, "diag_T"); vp_eq(UncertainTransformation(A.q(), A.t(), a, b).U(), U, "diag_qt");
  vp_eq(UncertainTransformation(A.q(), A.t(), W).U(), W, "qt"); vp_eq(UncertainTransformation(A, W).U(), W, "T");
  vp_eq(UncertainTransformation(A).U(), Z, "zero_T"); vp_eq(UncertainTransformation(A.q(), A.t()).U(), Z, "zero_qt"); vp_eq(UncertainTransformation().U(), Z, "default");
  vp_eq(UncertainTransformation(A.q(), A.t(), W).T(), M, "mean"); vp_eq(UncertainTransformation(A, a, b).T(), M, "mean2"); vp_eq(UncertainTransformation(A, W).toTransformation().T(), M, "toTransformation");
  UncertainTransformation B(A, W); B.setU(U); vp_eq(B.U(), U, "setU");
}
HARNESS(c07_ctors_matrix) {
  Transformation A = vpT("qa", "ta"); double a = vp_real("vt"), b = vp_real("vr"); M6 U = M6::Zero(); for (int i = 0; i < 6; i++) U(i, i) = i < 3 ? a : b; M6 W = vpSym<6>("W"), Z = M6::Zero();
  Matrix4d M = mat(A); UncertainTransformation p(M, a, b), q(M, W), r(M);
  vp_eq(p.U(), U, "diag"); vp_eq(q.U(), W, "full"); vp_eq(r.U(), Z, "zero"); vp_eq(p.T(), M, "mean");
}
HARNESS(c07_point) {
  Transformation A = vpT("qa", "ta"); M6 Ua = vpSym<6>("Ua"); Matrix4d Up = vpSym<4>("Up"); Vector4d h = vp_vec<4>("h"); vp_assume(h.norm() > 1e-6);
  Matrix4d M = mat(A); Vector4d o = M * h; vp_assume(o.norm() > 1e-6); Matrix<double, 4, 6> J; for (int k = 0; k < 6; k++) { V6 d = V6::Zero(); d[k] = 1; J.col(k) = -boxPlus(d) * o; }
  UncertainTransformation UA(A, Ua); UncertainHomogeneousPoint p(h, Up);
  UncertainHomogeneousPoint r = UA * p; vp_eq(r.toHomogeneous(), o, "mean"); vp_eq(r.U4(), J * Ua * J.transpose() + M * Up * M.transpose(), "cov");
  UncertainHomogeneousPoint s = A * p; vp_eq(s.toHomogeneous(), o, "mean_p"); vp_eq(s.U4(), M * Up * M.transpose(), "cov_p");
  UncertainHomogeneousPoint t = UA * HomogeneousPoint(h); vp_eq(t.toHomogeneous(), o, "mean_T"); vp_eq(t.U4(), J * Ua * J.transpose(), "cov_T");
}
HARNESS(c07_point_sum) {
  Vector4d a = vp_vec<4>("a"), b = vp_vec<4>("b"); Matrix4d Ua = vpSym<4>("Ua"), Ub = vpSym<4>("Ub"); vp_assume(fabs(a[3]) > 1e-3 && fabs(b[3]) > 1e-3);
  HomogeneousPoint A(a), B(b); UncertainHomogeneousPoint UA(a, Ua), UB(b, Ub);
  for (int sg = 0; sg < 2; sg++) {
    Vector4d o = (sg ? A - B : A + B).toHomogeneous();
    Vector3d ea = a.head<3>() / a[3], eb = b.head<3>() / b[3]; vp_eq(o.head<3>() / o[3], sg ? Vector3d(ea - eb) : Vector3d(ea + eb), sg ? "minus" : "plus");
    Matrix4d Ja, Jb; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { Ja(i, j) = vp_diff(o[i], vpn("a", j)); Jb(i, j) = vp_diff(o[i], vpn("b", j)); }
    const char* l = sg ? "minus_cov" : "plus_cov";
    UncertainHomogeneousPoint x = sg ? UA - UB : UA + UB; vp_eq(x.toHomogeneous(), o, "UU_mean"); vp_eq(x.U4(), Ja * Ua * Ja.transpose() + Jb * Ub * Jb.transpose(), vpn(l, 1));
    UncertainHomogeneousPoint y = sg ? UA - B : UA + B; vp_eq(y.toHomogeneous(), o, "U_mean"); vp_eq(y.U4(), Ja * Ua * Ja.transpose(), vpn(l, 2));
    UncertainHomogeneousPoint z = sg ? A - UB : A + UB; vp_eq(z.toHomogeneous(), o, "_U_mean"); vp_eq(z.U4(), Jb * Ub * Jb.transpose(), vpn(l, 3));
  }
}
HARNESS(c07_point_conversions) {
  Vector4d a = vp_vec<4>("a"); Matrix4d U = vpSym<4>("U"); vp_assume(fabs(a[3]) > 1e-3); UncertainHomogeneousPoint P(a, U);
  Vector3d e = P.toEuclidean(); Matrix<double, 3, 4> J; for (int i = 0; i < 3; i++) { vp_check_eq(e[i], a[i] / a[3], "euclid"); for (int j = 0; j < 4; j++) J(i, j) = vp_diff(e[i], vpn("a", j)); }
  vp_eq(P.U3(), J * U * J.transpose(), "U3");
  Matrix<double, 3, 4> Jf; vp_eq(fromHomogeneous(a, &Jf), e, "fromHomogeneous"); vp_eq(Jf, J, "fromHomogeneousJacobian"); vp_eq(fromHomogeneousJacobian(a), J, "fromHomogeneousJacobian2");
  UncertainHomogeneousPoint N(P); N.normalize(); Vector4d n = N.toHomogeneous(); Matrix4d K;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) K(i, j) = vp_diff(n[i], vpn("a", j));
  vp_check_eq(n.squaredNorm(), 1, "unit"); vp_eq(n * a.norm(), a, "direction"); vp_eq(N.U4(), K * U * K.transpose(), "normalize_cov");
  Matrix3d U3 = vpSym<3>("V"); Vector3d p = vp_vec<3>("p"); UncertainHomogeneousPoint Q(p, U3); vp_eq(Q.U3(), U3, "euclid_cov"); vp_eq(Q.toEuclidean(), p, "euclid_pt");
}
HARNESS(c07_point_oplus) {
  Vector4d a = vp_quat("a"); Matrix3d U = vpSym<3>("U"); HomogeneousPoint A(a);
  HomogeneousPoint::homogeneous_jacobian_t J; vp_eq(A.toHomogeneousAndJacobian(J), a, "value"); HomogeneousPoint::euclidean_jacobian_t Je; vp_assume(fabs(a[3]) > 1e-3); Vector3d e0 = A.toEuclideanAndJacobian(Je); vp_eq(e0, A.toEuclidean(), "value_e");
  for (int k = 0; k < 3; k++) {
    Vector3d d = Vector3d::Zero(); d[k] = vp_eps(vpn("eps", k)); HomogeneousPoint B(A); B.oplus(d); Vector3d e = B.toEuclidean();
    for (int i = 0; i < 4; i++) vp_check_eq(vp_diff0(B.toHomogeneous()[i], vpn("eps", k)), J(i, k), "oplus_jac");
    for (int i = 0; i < 3; i++) vp_check_eq(vp_diff0(e[i], vpn("eps", k)), Je(i, k), "oplus_jac_euclid");
  }
  UncertainHomogeneousPoint P(a, U); vp_eq(P.U4(), J * U * J.transpose(), "setUOplus"); vp_eq(P.U_av_form(), U, "roundtrip");
}
HARNESS(c07_point_misc) {
  Vector4d a = vp_vec<4>("a"); vp_assume(a.norm() > 1e-6); double s = vp_real("s"); HomogeneousPoint A(a), B(a);
  B.scale(s); Vector4d e = a; e.head<3>() *= s; vp_eq(B.toHomogeneous(), e, "scale");
  HomogeneousPoint C(a); C.convertToVector(); e = a; e[3] = 0; vp_eq(C.toHomogeneous(), e, "vector"); vp_check(C.isVector() && C.atInfinity(), "isVector");
  HomogeneousPoint D; Vector4d z(0, 0, 0, 1); vp_eq(D.toHomogeneous(), z, "default"); A.setZero(); vp_eq(A.toHomogeneous(), z, "zero");
  Vector3d p = vp_vec<3>("p"); Vector4d ph; ph << p, 1; HomogeneousPoint E(p); vp_eq(E.toHomogeneous(), ph, "from3"); D = p; vp_eq(D.toHomogeneous(), ph, "assign3"); vp_eq(E.toEuclidean(), p, "to3");
  vp_eq(toHomogeneous(p), ph, "toHomogeneous"); vp_check(!E.isVector(), "point");
  vp_eq(toHomogeneousPlus(a) * ph, (HomogeneousPoint(a) + E).toHomogeneous(), "plus_matrix");
  vp_eq(toHomogeneousMinus(a) * ph, (E - HomogeneousPoint(a)).toHomogeneous(), "minus_matrix");
}
HARNESS(c07_columns) {
  int c = 1 + vp_choice("cols", 3); MatrixXd M(3, c); for (int i = 0; i < 3; i++) for (int j = 0; j < c; j++) M(i, j) = vp_real(vpn("m", i, j));
  MatrixXd H = toHomogeneousColumns(M); vp_check(H.rows() == 4 && H.cols() == c, "dims"); vp_eq(H.topRows(3), M, "top"); for (int j = 0; j < c; j++) vp_check_eq(H(3, j), 1, "ones");
  MatrixXd G(4, c); for (int j = 0; j < c; j++) { for (int i = 0; i < 4; i++) G(i, j) = vp_real(vpn("g", i, j)); vp_assume(fabs(G(3, j)) > 1e-3); }
  MatrixXd E = fromHomogeneousColumns(G); for (int j = 0; j < c; j++) for (int i = 0; i < 3; i++) vp_check_eq(E(i, j), G(i, j) / G(3, j), "from");
}
// covariance of f(x,y) = Jx Ex Jx' + Jy Ey Jy'
HARNESS(c07_vector) {
  Vector3d a = vp_vec<3>("a"), b = vp_vec<3>("b"); Matrix3d Ea = vpSym<3>("Ea"), Eb = vpSym<3>("Eb"); UncertainVector<3> A(a, Ea), B(b, Eb); double s = vp_real("s"), t = vp_real("t"), Et = vp_real("Et");
  vp_eq((A + B).mean(), a + b, "sum"); vp_eq((A + B).covariance(), Ea + Eb, "sum_cov"); vp_eq((A - B).mean(), a - b, "diff"); vp_eq((A - B).covariance(), Ea + Eb, "diff_cov");
  vp_eq((A + b).mean(), a + b, "sum1"); vp_eq((A + b).covariance(), Ea, "sum1_cov"); vp_eq((A - b).mean(), a - b, "diff1"); vp_eq((A - b).E(), Ea, "diff1_cov");
  vp_eq((A * s).v(), a * s, "scale"); vp_eq((A * s).E(), Ea * s * s, "scale_cov");
  UncertainVector<1> T(t, Et); vp_eq((A * T).v(), a * t, "uscale"); vp_eq((A * T).E(), Ea * t * t + a * a.transpose() * Et, "uscale_cov");
  vp_check_eq(A.dot(B).v(), a.dot(b), "dot"); vp_check_eq(A.dot(B).E(), (a.transpose() * Eb * a)(0) + (b.transpose() * Ea * b)(0), "dot_cov");
  vp_check_eq(A.dot(b).v(), a.dot(b), "dot1"); vp_check_eq(A.dot(b).E(), (b.transpose() * Ea * b)(0), "dot1_cov");
  Transformation R(vp_quat("q"), vp_vec<3>("r")); UncertainVector3 ra = R.rotate(A); vp_eq(ra.mean(), R.C() * a, "rot"); vp_eq(ra.covariance(), R.C() * Ea * R.C().transpose(), "rot_cov");
}
HARNESS(c07_vector_normalize) {
  Vector3d a = vp_vec<3>("a"); Matrix3d Ea = vpSym<3>("Ea"); vp_assume(a.norm() > 1e-3); UncertainVector<3> A(a, Ea), N = A.normalized(); Vector3d n = N.mean(); Matrix3d K;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K(i, j) = vp_diff(n[i], vpn("a", j));
  vp_check_eq(n.squaredNorm(), 1, "unit"); vp_eq(n * a.norm(), a, "dir"); vp_eq(N.covariance(), K * Ea * K.transpose(), "cov");
  A.normalize(); vp_eq(A.mean(), n, "inplace"); vp_eq(A.covariance(), N.covariance(), "inplace_cov");
}
HARNESS(c07_scalar) {
  double a = vp_real("a"), b = vp_real("b"), Ea = vp_real("Ea"), Eb = vp_real("Eb"); UncertainVector<1> A(a, Ea), B(b, Eb);
  vp_check_eq((A + B).v(), a + b, "sum"); vp_check_eq((A + B).E(), Ea + Eb, "sum_cov"); vp_check_eq((A - B).v(), a - b, "diff"); vp_check_eq((A - B).E(), Ea + Eb, "diff_cov");
  vp_check_eq((A * B).v(), a * b, "prod"); vp_check_eq((A * B).E(), b * b * Ea + a * a * Eb, "prod_cov"); vp_check_eq((A * b).v(), a * b, "scale"); vp_check_eq((A * b).E(), b * b * Ea, "scale_cov");
  vp_check_eq((A + b).v(), a + b, "sum1"); vp_check_eq((A + b).E(), Ea, "sum1_cov"); vp_check_eq((A - b).v(), a - b, "diff1"); vp_check_eq((A - b).E(), Ea, "diff1_cov");
}
