#include <Eigen/Core>
#include <Eigen/LU>
#include <sm_property_tree/PropertyTree.hpp>
#include <sm_common/assert_macros.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/split_member.hpp>
#include <aslam_cameras/cameras/NoDistortion.hpp>
#include <aslam_cameras/cameras/RadialTangentialDistortion.hpp>
#include <aslam_cameras/cameras/EquidistantDistortion.hpp>
#include <aslam_cameras/cameras/FovDistortion.hpp>
#include "vp.h"
using namespace aslam::cameras; using namespace Eigen;
static Vector2d y2(double lo = -10, double hi = 10) { return vp_vec_in<2>("y", lo, hi); }
template <class D> struct N; template <> struct N<RadialTangentialDistortion> { enum { n = 4 }; }; template <> struct N<EquidistantDistortion> { enum { n = 4 }; }; template <> struct N<FovDistortion> { enum { n = 1 }; };
template <class D> D mk(double lo, double hi) { MatrixXd P((int)N<D>::n, 1); for (int i = 0; i < N<D>::n; i++) P(i, 0) = vp_real_in(vpn("k", i), lo, hi); D d = D::getTestDistortion(); d.setParameters(P); MatrixXd Q; d.getParameters(Q); for (int i = 0; i < N<D>::n; i++) vp_check_eq(Q(i, 0), P(i, 0), "get"); return d; }
// parameter access, increments, equality
template <class D> void params(double lo, double hi, double dv) {
  D d = mk<D>(lo, hi); const int n = N<D>::n; MatrixXd P, Q; d.getParameters(P); vp_check(P.rows() == n && P.cols() == 1 && d.minimalDimensions() == n && d.parameterSize() == Vector2i(n, 1) && (int)D::IntrinsicsDimension == n, "dims");
  double v[4]; for (int i = 0; i < n; i++) { v[i] = vp_real_in(vpn("v", i), -dv, dv); }
  D e = d, g = d; int w = vp_choice("which", n); MatrixXd R = P; R(w, 0) += dv; if (R(w, 0) <= hi) { g.setParameters(R); vp_check(!g.isBinaryEqual(d) && !d.isBinaryEqual(g), "differs"); } vp_check(e.isBinaryEqual(d), "equal"); e.update(v); e.getParameters(Q); for (int i = 0; i < n; i++) vp_check_eq(Q(i, 0), P(i, 0) + v[i], "update");
  
}
HARNESS(c09_params_radtan) { params<RadialTangentialDistortion>(-2, 2, 2); }
HARNESS(c09_params_equi) { params<EquidistantDistortion>(-2, 2, 2); }
HARNESS(c09_params_fov) { params<FovDistortion>(0.6, 1.4, 0.05); }
// value = model formula; all variants agree; Jacobians are derivatives
template <class D> void jac(D& d, const Vector2d& y, const Vector2d& e) {
  const int n = N<D>::n; Vector2d a = y, b = y; d.distort(a); Matrix2d J; d.distort(b, J); vp_eq(a, e, "value"); vp_eq(b, e, "value_J");
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vp_check_eq(J(i, j), vp_diff(e[i], vpn("y", j)), vpn("J", i, j));
  MatrixXd Jk; d.distortParameterJacobian(y, Jk); vp_check(Jk.rows() == 2 && Jk.cols() == n, "Jk_dims");
  for (int i = 0; i < 2; i++) for (int j = 0; j < n; j++) vp_check_eq(Jk(i, j), vp_diff(e[i], vpn("k", j)), vpn("Jk", i, j));
}
HARNESS(c09_distort_radtan) {
  RadialTangentialDistortion d = mk<RadialTangentialDistortion>(-2, 2); Vector2d y = y2(); MatrixXd P; d.getParameters(P); double r2 = y[0] * y[0] + y[1] * y[1], L = 1 + P(0) * r2 + P(1) * r2 * r2;
  jac(d, y, Vector2d(y[0] * L + 2 * P(2) * y[0] * y[1] + P(3) * (r2 + 2 * y[0] * y[0]), y[1] * L + 2 * P(3) * y[0] * y[1] + P(2) * (r2 + 2 * y[1] * y[1])));
}
HARNESS(c09_distort_equi) {
  EquidistantDistortion d = mk<EquidistantDistortion>(-2, 2); Vector2d y = y2(); vp_assume(y.norm() > 1e-6); MatrixXd P; d.getParameters(P); double r = sqrt(y[0] * y[0] + y[1] * y[1]), t = atan(r), t2 = t * t, s = t * (1 + P(0) * t2 + P(1) * t2 * t2 + P(2) * t2 * t2 * t2 + P(3) * t2 * t2 * t2 * t2) / r;
  jac(d, y, Vector2d(y[0] * s, y[1] * s));
}
HARNESS(c09_distort_equi_centre) {   // at the image centre the map is the identity to first order
  EquidistantDistortion d = mk<EquidistantDistortion>(-2, 2); Vector2d y(0, 0), a = y, b = y; Matrix2d J; d.distort(a); d.distort(b, J); vp_eq(a, y, "value"); vp_eq(b, y, "value_J"); vp_eq(J, Matrix2d::Identity(), "J");
  MatrixXd Jk; d.distortParameterJacobian(y, Jk); vp_eq(Jk, MatrixXd::Zero(2, 4), "Jk"); Vector2d u = y; d.undistort(u); vp_eq(u, y, "undistort"); Matrix2d Ju; u = y; d.undistort(u, Ju); vp_eq(u, y, "undistort_J"); vp_eq(Ju, Matrix2d::Identity(), "Ju");
}
HARNESS(c09_distort_fov) {
  FovDistortion d = mk<FovDistortion>(0.5, 1.5); Vector2d y = y2(); MatrixXd P; d.getParameters(P); double w = P(0), r = sqrt(y[0] * y[0] + y[1] * y[1]), t = tan(w / 2); int c = vp_choice("centre", 2);
  if (c) { vp_assume(r < 3e-3); double s = 2 * t / w; jac(d, y, Vector2d(y[0] * s, y[1] * s)); }   // linearised close to the centre
  else { vp_assume(r > 4e-3); double s = atan(2 * t * r) / (r * w); jac(d, y, Vector2d(y[0] * s, y[1] * s)); }
}
HARNESS(c09_fov_domain) {   // parameters outside {0} and [0.5, 1.5] are refused; 0 means no distortion
  double w = vp_real_in("w", -3, 3); MatrixXd P(1, 1); P(0, 0) = w; FovDistortion d; bool threw = false, threw2 = false, threw3 = false; vp_assume(w == 0 || fabs(w) > 1e-15); bool valid = w == 0 || (w >= 0.5 && w <= 1.5);
  try { d.setParameters(P); } catch (const std::exception&) { threw = true; } vp_check(threw == !valid, "setParameters"); try { FovDistortion e(w); } catch (const std::exception&) { threw2 = true; } vp_check(threw2 == !valid, "constructor");
  FovDistortion f; double v = w - 1; try { f.update(&v); } catch (const std::exception&) { threw3 = true; } vp_check(threw3 == !valid, "update");
}
HARNESS(c09_fov_zero) { MatrixXd P(1, 1); P(0, 0) = 0; FovDistortion d; d.setParameters(P); Vector2d y = y2(), a = y, b = y; Matrix2d J; d.distort(a, J); vp_eq(a, y, "distort"); vp_eq(J, Matrix2d::Identity(), "J"); d.undistort(b); vp_eq(b, y, "undistort"); }
// undistortion inverts distortion
HARNESS(c09_undistort_fov) {
  FovDistortion d = mk<FovDistortion>(0.5, 1.5); MatrixXd P; d.getParameters(P); Vector2d n; vp_unit("n", n.data(), 2); double r = vp_real_in("r", 0.01, 5); double phi = atan(2 * tan(P(0) / 2) * r); vp_assume(phi < 1.5);
  Vector2d y = n * r, z = y; d.distort(z); Vector2d u = z; d.undistort(u); vp_eq(u, y, "inverse");
}
template <class D> void first(const Vector2d& y) {   // to first order in the distortion coefficients
  D d = D::getTestDistortion(); double e = vp_eps("e"); MatrixXd P(4, 1); P.setZero(); P(vp_choice("which", 4), 0) = e * vp_real_in("k", -2, 2); d.setParameters(P);
  Vector2d z = y; d.distort(z); Vector2d u = z; d.undistort(u); Matrix2d J, Jd; Vector2d u2 = z, w = u; d.undistort(u2, J); d.distort(w, Jd); Matrix2d I = J * Jd;
  for (int i = 0; i < 2; i++) { vp_check_eq(vp_diff0(u[i], "e"), 0, "first_order"); vp_check_eq(vp_diff0(u2[i], "e"), 0, "first_order_J"); }
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) vp_check_eq(vp_diff0(I(i, j), "e"), 0, "inverse_Jacobian");
}
HARNESS(c09_undistort_radtan_first) { first<RadialTangentialDistortion>(y2(-2, 2)); }
HARNESS(c09_undistort_equi_first) { Vector2d n; vp_unit("n", n.data(), 2); double r = vp_real_in("r", 0.01, 2); vp_assume(atan(r) > 1e-3); first<EquidistantDistortion>(n * r); }
HARNESS(c09_undistort_zero) {   // without distortion both directions are the identity (equidistant: tangent of the angle)
  RadialTangentialDistortion d(0, 0, 0, 0); Vector2d y = y2(), u = y, w = y; Matrix2d J; d.undistort(u); vp_eq(u, y, "identity"); d.undistort(w, J); vp_eq(w, y, "identity_J"); vp_eq(J, Matrix2d::Identity(), "J");
}
HARNESS(c09_undistort_equi_zero) { EquidistantDistortion d(0, 0, 0, 0); Vector2d n; vp_unit("n", n.data(), 2); double t = vp_real_in("t", 0.01, 1.5); Vector2d y = n * t, u = y; d.undistort(u); vp_eq(u, n * tan(t), "tan"); }
HARNESS(c09_none) {
  NoDistortion d; Vector2d y = y2(), a = y; Matrix2d J; MatrixXd Jk; d.distort(a); vp_eq(a, y, "distort"); d.distort(a, J); vp_eq(a, y, "distort"); vp_eq(J, Matrix2d::Identity(), "J"); J.setZero(); d.undistort(a); vp_eq(a, y, "undistort"); d.undistort(a, J); vp_eq(a, y, "undistort"); vp_eq(J, Matrix2d::Identity(), "Ju");
  d.distortParameterJacobian(y, Jk); vp_check(Jk.rows() == 2 && Jk.cols() == 0 && d.minimalDimensions() == 0, "dims");
}
