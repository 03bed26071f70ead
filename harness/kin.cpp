#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/transformations.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/EulerAnglesZYX.hpp>
#include <sm_kinematics/EulerAnglesZXY.h>
#include <sm_kinematics/EulerRodriguez.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include "vp.h"
using namespace sm::kinematics;
using namespace Eigen;

// ---- C03 exponential / logarithm
HARNESS(c03_exp) {            // exp gives the unit quaternion with half angle (beyond the series radius)
  Vector3d n; vp_unit("n", n.data(), 3); double t = vp_real_in("t", 0.001, 1000.0);
  Vector4d q = axisAngle2quat(n * t);
  double s = sin(t * 0.5), c = cos(t * 0.5);
  for (int i = 0; i < 3; i++) vp_check_eq(q[i], n[i] * s, vpn("exp", i));
  vp_check_eq(q[3], c, "exp_scalar");
  vp_check_eq(q.squaredNorm(), 1.0, "unit");
}
HARNESS(c03_exp_small) {      // inside the series radius: absolute error below 1e-18 (relative 1e-14)
  double t = vp_real_in("t", 0.0, 0.00012); int k = vp_choice("axis", 3); vp_assume(t > 0);
  Vector3d a = Vector3d::Zero(); a[k] = t;
  Vector4d q = axisAngle2quat(a);
  double u = t * 0.5, s = sin(u);
  vp_assume(s >= u - u * u * u / 6 && s <= u - u * u * u / 6 + u * u * u * u * u / 120);   // Taylor facts, true for u >= 0
  vp_check(fabs(q[k] - s) <= t * 1e-14, "exp_small");
  vp_check_eq(q[3], cos(u), "exp_small_scalar");
}
HARNESS(c03_log_exp) {        // exp(log q) = q for every unit quaternion outside the series radius
  Vector4d q = vp_quat("q"); double n = q.head<3>().norm();
  vp_assume(n > 0.001);
  Vector3d l = quat2AxisAngle(q);
  vp_eq(axisAngle2quat(l), q, "exp_log");
}
HARNESS(c03_log_small) {
  double h = vp_real_in("h", 0.0, 0.0001); vp_assume(h > 0); int k = vp_choice("axis", 3);
  Vector4d q = Vector4d::Zero(); double s = sin(h); q[k] = s; q[3] = cos(h);
  vp_assume(s >= h - h * h * h / 6 && s <= h - h * h * h / 6 + h * h * h * h * h / 120);
  Vector3d l = quat2AxisAngle(q);
  vp_check(fabs(l[k] - 2 * h) <= h * 1e-14, "log_small");
  vp_check(l[(k + 1) % 3] == 0 && l[(k + 2) % 3] == 0, "log_axis");
}
HARNESS(c03_exp_log) {        // log(exp a) = a for |a| < 2 pi
  Vector3d n; vp_unit("n", n.data(), 3); double t = vp_real_in("t", 0.001, 6.28);
  vp_eq(quat2AxisAngle(axisAngle2quat(n * t)), n * t, "log_exp");
}
HARNESS(c03_exp_jacobian) {
  Vector3d v = vp_vec<3>("v"); vp_assume(v.norm() > 0.001);
  Vector4d q = axisAngle2quat(v); Matrix<double, 4, 3> J = quatExpJacobian(v);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) vp_check_eq(vp_diff(q[i], vpn("v", j)), J(i, j), vpn("quatExpJacobian", i, j));
}
// log o exp = id, and the exponential's Jacobian is checked above against the derivative: J_log * J_exp = I fixes J_log on the tangent space
HARNESS(c03_log_jacobian) {
  Vector3d n; vp_unit("n", n.data(), 3); double t = vp_real_in("t", 0.001, 6.28);
  Vector3d v = n * t; Vector4d p; p << n * sin(0.5 * t), cos(0.5 * t);
  Matrix<double, 4, 3> E = quatExpJacobian(v);
  vp_eq(quatLogJacobian(p) * E, Matrix3d::Identity(), "quatLogJacobian");
}
HARNESS(c03_log_jacobian2) {
  Vector3d n; vp_unit("n", n.data(), 3); double t = vp_real_in("t", 0.001, 6.28);
  Vector3d v = n * t; Vector4d p; p << n * sin(0.5 * t), cos(0.5 * t);
  Matrix<double, 4, 3> E = quatExpJacobian(v);
  Matrix<double, 3, 4> J = quatLogJacobian2(p);
  vp_eq(J * E, Matrix3d::Identity(), "quatLogJacobian2");
}
HARNESS(c03_diffmat_inverse) {
  Vector3d n; vp_unit("n", n.data(), 3); double t = vp_real_in("t", 0.001, 6.28);
  Vector3d v = n * t;
  vp_eq(logDiffMat(v) * expDiffMat(v), Matrix3d::Identity(), "log_exp_diffmat");
}
HARNESS(c03_slerp) {
  Vector4d p = vp_quat("p"), q = vp_quat("q"); 
  vp_eq(qslerp(p, q, 0.0), p, "start");
  vp_eq(qslerp(p, q, 1.0), q, "end");
  vp_eq(qslerp(p, q, vp_real_in("lo", -5, 0)), p, "before");
  vp_eq(qslerp(p, q, vp_real_in("hi", 1, 5)), q, "after");
}
HARNESS(c03_slerp_mid) {   // the interpolant stays on the sphere, moves along the geodesic at constant speed
  Vector3d n; vp_unit("n", n.data(), 3); double h = vp_real_in("h", 0.01, 1.5), t = vp_real_in("t", 0.01, 0.99); Vector4d p = vp_quat("p");
  Vector4d r; r << n * sin(h), cos(h);
  Vector4d q = qplus(p, r), m; m << n * sin(t * h), cos(t * h);
  vp_assume(t * h > 0.001);
  vp_eq(qslerp(p, q, t), qplus(p, m), "geodesic");
  vp_eq(qslerp(p, Vector4d(-q), t), qplus(p, m), "shortest");
}
HARNESS(c03_lerp) {
  VectorXd p(3), q(3); p = vp_vec<3>("p"); q = vp_vec<3>("q"); double t = vp_real_in("t", 0, 1);
  VectorXd l = lerp(p, q, t);
  for (int i = 0; i < 3; i++) vp_check_eq(l[i], p[i] + t * (q[i] - p[i]), "lerp");
  vp_eq(lerp(p, q, vp_real_in("lo", -5, 0)), p, "before"); vp_eq(lerp(p, q, vp_real_in("hi", 1, 5)), q, "after");
}

// ---- C04 elementary rotations
static void isRotation(const Matrix3d& R, const char* l) {
  vp_eq(R * R.transpose(), Matrix3d::Identity(), vpn(l));
  vp_check_eq(R(0,0)*(R(1,1)*R(2,2)-R(1,2)*R(2,1)) - R(0,1)*(R(1,0)*R(2,2)-R(1,2)*R(2,0)) + R(0,2)*(R(1,0)*R(2,1)-R(1,1)*R(2,0)), 1.0, "det");
}
HARNESS(c04_elementary) {
  double a = vp_real("a"), b = vp_real("b");
  isRotation(Rx(a), "Rx"); isRotation(Ry(a), "Ry"); isRotation(Rz(a), "Rz");
  vp_eq(Rx(a) * Rx(b), Rx(a + b), "Rx_add"); vp_eq(Ry(a) * Ry(b), Ry(a + b), "Ry_add"); vp_eq(Rz(a) * Rz(b), Rz(a + b), "Rz_add");
  Vector3d e; e << 1, 0, 0; vp_eq(Rx(a) * e, e, "Rx_axis"); e << 0, 1, 0; vp_eq(Ry(a) * e, e, "Ry_axis"); e << 0, 0, 1; vp_eq(Rz(a) * e, e, "Rz_axis");
  vp_check_eq(Rx(a)(2, 1), sin(a), "Rx_sense"); vp_check_eq(Ry(a)(0, 2), sin(a), "Ry_sense"); vp_check_eq(Rz(a)(1, 0), sin(a), "Rz_sense");
  vp_eq(Cx(a), Rx(a).transpose(), "Cx"); vp_eq(Cy(a), Ry(a).transpose(), "Cy"); vp_eq(Cz(a), Rz(a).transpose(), "Cz");
}
HARNESS(c04_rph) {
  Vector3d x = vp_vec<3>("x");
  vp_eq(rph2R(x[0], x[1], x[2]), Rz(x[2]) * Ry(x[1]) * Rx(x[0]), "rph2R");
  vp_eq(rph2R(x), rph2R(x[0], x[1], x[2]), "rph2R_vec");
  vp_eq(rph2C(x), rph2R(-x[0], -x[1], -x[2]), "rph2C");
}
HARNESS(c04_rph_roundtrip) {
  Vector4d q = vp_quat("q"); Matrix3d R = quat2r(q);
  vp_assume(fabs(R(2, 0)) < 0.999);
  vp_eq(rph2R(R2rph(R)), R, "R2rph");
}
HARNESS(c04_C2rph_roundtrip) {
  Vector4d q = vp_quat("q"); Matrix3d R = quat2r(q);
  vp_assume(fabs(R(2, 0)) < 0.999);
  vp_eq(rph2C(C2rph(R)), R, "C2rph");
}
HARNESS(c04_cross) {
  Vector3d a = vp_vec<3>("a"), b = vp_vec<3>("b");
  Vector3d c(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
  vp_eq(crossMx(a) * b, c, "crossMx"); vp_eq(crossMx(a[0], a[1], a[2]) * b, c, "crossMx3");
  VectorXd ad = a; vp_eq(crossMx(ad) * b, c, "crossMx_dyn");
}
HARNESS(c04_axis_angle) {
  Vector3d n; vp_unit("n", n.data(), 3); double t = vp_real_in("t", 1e-10, 100.0);
  Matrix3d R = axisAngle2R(t, n[0], n[1], n[2]), K = crossMx(n);
  // the library's axis-angle is the passive rotation (transpose of the active Rodrigues formula)
  vp_eq(R, Matrix3d::Identity() - sin(t) * K + (1 - cos(t)) * K * K, "rodrigues");
  isRotation(R, "orthonormal");
  vp_eq(R * n, n, "axis_fixed");
  vp_eq(axisAngle2R(Vector3d(n * t)), R, "vector_form"); vp_eq(axisAngle2R(n[0] * t, n[1] * t, n[2] * t), R, "scalar_form");
}
HARNESS(c04_axis_angle_roundtrip) {
  Vector4d q = vp_quat("q"); Matrix3d R = quat2r(q);
  vp_assume(q.head<3>().norm() > 0.001 && fabs(q[3]) > 0.001);
  vp_eq(axisAngle2R(R2AxisAngle(R)), R, "R2AxisAngle");
}
HARNESS(c04_quat_consistency) {
  Vector3d n; vp_unit("n", n.data(), 3); double t = vp_real_in("t", 0.001, 100.0);
  vp_eq(quat2r(axisAngle2quat(n * t)), axisAngle2R(Vector3d(n * t)), "quat_vs_matrix");
}
HARNESS(c04_angle_mod) {
  double a = vp_real_in("a", -40, 40); double m = angleMod(a);
  vp_check(fabs(m) <= SM_PI + 1e-9, "range");
  vp_check_eq(sin(m), sin(a), "same_angle_sin"); vp_check_eq(cos(m), cos(a), "same_angle_cos");
  double d = vp_real_in("d", -1e6, 1e6); vp_check(fabs(rad2deg(deg2rad(d)) - d) <= 1e-12 * fabs(d), "deg");
  vp_check(fabs(deg2rad(180) - SM_PI) < 1e-12, "deg2rad");
}

// ---- C05 rotation parameterisations
static void params(const RotationalKinematics& rk, bool small, double lim) {
  Vector3d p = vp_vec<3>("p"), pd = vp_vec<3>("pd");
  if (small) vp_assume(p.norm() > lim);
  Matrix3d S, C = rk.parametersToRotationMatrix(p, &S);
  isRotation(C, "orthonormal");
  vp_eq(rk.parametersToSMatrix(p), S, "S_out");
  vp_eq(rk.parametersToRotationMatrix(p), C, "no_S");
  for (int j = 0; j < 3; j++) {
    Matrix3d D = -crossMx(Vector3d(S.col(j))) * C;
    for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) vp_check_eq(vp_diff(C(r, c), vpn("p", j)), D(r, c), vpn("dC", j));
  }
  Matrix<double, 3, 6> J; Vector3d w = rk.angularVelocityAndJacobian(p, pd, &J);
  vp_eq(w, S * pd, "omega");
  vp_eq(rk.angularVelocityAndJacobian(p, pd, NULL), w, "omega_noJ");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    vp_check_eq(J(i, j), vp_diff(w[i], vpn("p", j)), vpn("J_p", i, j));
    vp_check_eq(J(i, 3 + j), vp_diff(w[i], vpn("pd", j)), vpn("J_pdot", i, j));
  }
}
HARNESS(c05_ypr) { params(EulerAnglesYawPitchRoll(), false, 0); }
HARNESS(c05_zyx) { params(EulerAnglesZYX(), false, 0); }
HARNESS(c05_zxy) { params(EulerAnglesZXY(), false, 0); }
HARNESS(c05_rodriguez) { params(EulerRodriguez(), false, 0); }
HARNESS(c05_rotation_vector) { params(RotationVector(), true, 1e-9); }
static void roundtrip(const RotationalKinematics& rk, int r, int c) {
  Vector4d q = vp_quat("q"); Matrix3d R = quat2r(q);
  if (r >= 0) vp_assume(fabs(R(r, c)) < 0.999); else vp_assume(q.head<3>().norm() > 0.001 && fabs(q[3]) > 0.001);
  vp_eq(rk.parametersToRotationMatrix(rk.rotationMatrixToParameters(R)), R, "roundtrip");
}
HARNESS(c05_ypr_roundtrip) { roundtrip(EulerAnglesYawPitchRoll(), 2, 0); }
HARNESS(c05_zyx_roundtrip) { roundtrip(EulerAnglesZYX(), 2, 0); }
HARNESS(c05_zxy_roundtrip) { roundtrip(EulerAnglesZXY(), 2, 1); }
HARNESS(c05_rodriguez_roundtrip) { roundtrip(EulerRodriguez(), -1, 0); }
HARNESS(c05_rotation_vector_roundtrip) { roundtrip(RotationVector(), -1, 0); }
HARNESS(c05_inverse_S) {
  Vector3d n; vp_unit("n", n.data(), 3); double t = vp_real_in("t", 0.001, 6.28);
  RotationVector rv; Vector3d v = n * t;
  vp_eq(rv.parametersToInverseSMatrix(v) * rv.parametersToSMatrix(v), Matrix3d::Identity(), "invS_S");
}
HARNESS(c05_identity) {
  Vector3d z = Vector3d::Zero();
  EulerAnglesYawPitchRoll a; EulerAnglesZYX b; EulerAnglesZXY c; EulerRodriguez d; RotationVector e;
  const RotationalKinematics* k[5] = {&a, &b, &c, &d, &e};
  for (int i = 0; i < 5; i++) { Matrix3d S; vp_eq(k[i]->parametersToRotationMatrix(z, &S), Matrix3d::Identity(), "identity"); vp_eq(k[i]->rotationMatrixToParameters(Matrix3d::Identity()), z, "params_of_identity"); }
  vp_eq(e.parametersToInverseSMatrix(z), Matrix3d::Identity(), "invS0"); vp_eq(e.parametersToSMatrix(z), Matrix3d::Identity(), "S0");
}
