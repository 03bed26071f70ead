#include <Eigen/Core>
#include <sm_property_tree/PropertyTree.hpp>
#include <sm_common/assert_macros.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/split_member.hpp>
#include <aslam_cameras/cameras/NoDistortion.hpp>
#include <aslam_cameras/cameras/PinholeProjection.hpp>
#include <aslam_cameras/cameras/OmniProjection.hpp>
#include <aslam_cameras/cameras/ExtendedUnifiedProjection.hpp>
#include <aslam_cameras/cameras/DoubleSphereProjection.hpp>
#include "vp.h"
using namespace aslam::cameras;
using namespace Eigen;
// an arbitrary smooth distortion with two parameters, and an arbitrary smooth undistortion
struct AnyDistortion {
  enum { IntrinsicsDimension = 2, DesignVariableDimension = 2 };
  double k[2];
  AnyDistortion() { k[0] = k[1] = 0; }
  AnyDistortion(const sm::PropertyTree&) {}
  void args(const double* y, double* a) const { a[0] = y[0]; a[1] = y[1]; a[2] = k[0]; a[3] = k[1]; }
  template <class Y> void distort(const Y& y_) const { Y& y = const_cast<Y&>(y_); double t[2] = {y[0], y[1]}, a[4]; args(t, a); double u = vp_uf("du", 4, a), v = vp_uf("dv", 4, a); y[0] = u; y[1] = v; }
  template <class Y, class J> void distort(const Y& y_, const J& j_) const {
    Y& y = const_cast<Y&>(y_); J& j = const_cast<J&>(j_); double t[2] = {y[0], y[1]}, a[4]; args(t, a); j.derived().resize(2, 2);
    for (int i = 0; i < 2; i++) { j(0, i) = vp_uf_d("du", 4, a, i); j(1, i) = vp_uf_d("dv", 4, a, i); }
    double u = vp_uf("du", 4, a), v = vp_uf("dv", 4, a); y[0] = u; y[1] = v;
  }
  template <class Y> void undistort(const Y& y_) const { Y& y = const_cast<Y&>(y_); double t[2] = {y[0], y[1]}, a[4]; args(t, a); double u = vp_uf("iu", 4, a), v = vp_uf("iv", 4, a); y[0] = u; y[1] = v; }
  template <class Y, class J> void undistort(const Y& y_, const J& j_) const {
    Y& y = const_cast<Y&>(y_); J& j = const_cast<J&>(j_); double t[2] = {y[0], y[1]}, a[4]; args(t, a); j.derived().resize(2, 2);
    for (int i = 0; i < 2; i++) { j(0, i) = vp_uf_d("iu", 4, a, i); j(1, i) = vp_uf_d("iv", 4, a, i); }
    double u = vp_uf("iu", 4, a), v = vp_uf("iv", 4, a); y[0] = u; y[1] = v;
  }
  template <class Y, class J> void distortParameterJacobian(const Y& y, const J& j_) const {
    J& j = const_cast<J&>(j_); double t[2] = {y[0], y[1]}, a[4]; args(t, a); j.derived().resize(2, 2);
    for (int i = 0; i < 2; i++) { j(0, i) = vp_uf_d("du", 4, a, 2 + i); j(1, i) = vp_uf_d("dv", 4, a, 2 + i); }
  }
  void update(const double* v) { k[0] += v[0]; k[1] += v[1]; }
  int minimalDimensions() const { return 2; }
  void getParameters(MatrixXd& P) const { P.resize(2, 1); P << k[0], k[1]; }
  void setParameters(const MatrixXd& P) { k[0] = P(0, 0); k[1] = P(1, 0); }
  Vector2i parameterSize() const { return Vector2i(2, 1); }
  template <class A> void serialize(A&, const unsigned) {}
  bool isBinaryEqual(const AnyDistortion& r) const { return k[0] == r.k[0] && k[1] == r.k[1]; }
  static AnyDistortion getTestDistortion() { return AnyDistortion(); }
  void clear() {}
};
static AnyDistortion anyD() { AnyDistortion d; d.k[0] = vp_real("k_0"); d.k[1] = vp_real("k_1"); return d; }
static const double RU = 640, RV = 480;
typedef PinholeProjection<AnyDistortion> PinA; typedef OmniProjection<AnyDistortion> OmnA;
typedef PinholeProjection<NoDistortion> PinN; typedef OmniProjection<NoDistortion> OmnN; typedef ExtendedUnifiedProjection<NoDistortion> EucN; typedef DoubleSphereProjection<NoDistortion> DsN;
template <class C> struct Tr;      // parameter names, ranges and the model (the specification): direction -> normalised image point
struct TrPin { static const int NI = 4, O = 0; static void ray(const double*, const Vector3d& p, Vector2d& y) { y << p[0] / p[2], p[1] / p[2]; }
  static bool valid(const double*, const Vector3d& p) { return p[2] > 0; } static bool front() { return true; } static double lo(int) { return 0; } static double hi(int) { return 0; } };
struct TrOmn { static const int NI = 5, O = 1; static void ray(const double* i, const Vector3d& p, Vector2d& y) { double d = p.norm(), r = 1 / (p[2] + i[0] * d); y << p[0] * r, p[1] * r; }
  static bool valid(const double* i, const Vector3d& p) { double w = i[0] <= 1 ? i[0] : 1 / i[0]; return p[2] > -(w * p.norm()); } static double lo(int) { return 0.05; } static double hi(int) { return 3; } };
struct TrEuc { static const int NI = 6, O = 2; static void ray(const double* i, const Vector3d& p, Vector2d& y) { double d = sqrt(i[1] * (p[0] * p[0] + p[1] * p[1]) + p[2] * p[2]), r = 1 / (i[0] * d + (1 - i[0]) * p[2]); y << p[0] * r, p[1] * r; }
  static bool valid(const double* i, const Vector3d& p) { double a = i[0], d = sqrt(i[1] * (p[0] * p[0] + p[1] * p[1]) + p[2] * p[2]); double w = a <= 0.5 ? a / (1 - a) : (1 - a) / a; return p[2] > -(w * d); }
  static double lo(int k) { return k == 0 ? 0.05 : 0.1; } static double hi(int k) { return k == 0 ? 0.95 : 5; } };
struct TrDs { static const int NI = 6, O = 2; static void ray(const double* i, const Vector3d& p, Vector2d& y) { double d1 = p.norm(), k = i[0] * d1 + p[2], d2 = sqrt(p[0] * p[0] + p[1] * p[1] + k * k), r = 1 / (i[1] * d2 + (1 - i[1]) * k); y << p[0] * r, p[1] * r; }
  static bool valid(const double* i, const Vector3d& p) { double a = i[1], w1 = a <= 0.5 ? a / (1 - a) : (1 - a) / a, w2 = (w1 + i[0]) / sqrt(2 * w1 * i[0] + i[0] * i[0] + 1); return p[2] > -(w2 * p.norm()); }
  static double lo(int k) { return k == 0 ? -0.9 : 0.05; } static double hi(int k) { return k == 0 ? 0.9 : 0.95; } };
template <> struct Tr<PinA> : TrPin {}; template <> struct Tr<PinN> : TrPin {}; template <> struct Tr<OmnA> : TrOmn {}; template <> struct Tr<OmnN> : TrOmn {}; template <> struct Tr<EucN> : TrEuc {}; template <> struct Tr<DsN> : TrDs {};
template <class C> struct HasD { static const bool v = false; }; template <> struct HasD<PinA> { static const bool v = true; }; template <> struct HasD<OmnA> { static const bool v = true; };
template <class C> void setD(C&, std::false_type) {} template <class C> void setD(C& c, std::true_type) { c.setDistortion(anyD()); }
template <class C> struct Cam { C c; double in[6];
  Cam() : c(C::getTestProjection()) {
    int O = Tr<C>::O, N = Tr<C>::NI; MatrixXd P(N, 1);
    for (int k = 0; k < N; k++) { in[k] = k < O ? vp_real_in(vpn("i", k), Tr<C>::lo(k), Tr<C>::hi(k)) : k < O + 2 ? vp_real_in(vpn("i", k), 10, 5000) : vp_real_in(vpn("i", k), -1000, 5000); P(k, 0) = in[k]; }
    c.setParameters(P); setD(c, std::integral_constant<bool, HasD<C>::v>());
  }
  Vector2d spec(const Vector3d& p) const { Vector2d y; Tr<C>::ray(in, p, y); c.distortion().distort(y); int O = Tr<C>::O; return Vector2d(in[O] * y[0] + in[O + 2], in[O + 1] * y[1] + in[O + 3]); }
  bool onSensor(const Vector2d& k) const { return k[0] >= 0 && k[0] < c.ru() && k[1] >= 0 && k[1] < c.rv(); }
};
// projection formula, visibility verdict and all Jacobians
template <class C> void project(Cam<C>& m) {
  Vector3d p = vp_vec_in<3>("p", -100, 100); vp_assume(p.norm() > 1e-3); bool val = Tr<C>::valid(m.in, p); vp_assume(fabs(p[2]) > 1e-6);
  Vector2d e = m.spec(p), k(0, 0), k2(0, 0); Matrix<double, 2, 3> J;
  bool ok = m.c.euclideanToKeypoint(p, k), ok2 = m.c.euclideanToKeypoint(p, k2, J);
  vp_check(ok == (val && m.onSensor(e)), "visible"); vp_check(ok2 == ok, "visible_J"); vp_check(m.c.isEuclideanVisible(p) == ok, "isEuclideanVisible");
  if (!val && Tr<C>::O) return;
  vp_eq(k, e, "keypoint"); vp_eq(k2, e, "keypoint_J");
  for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vp_check_eq(J(i, j), vp_diff(e[i], vpn("p", j)), vpn("Jp", i, j));
  Matrix<double, 2, Tr<C>::NI> Ji; m.c.euclideanToKeypointIntrinsicsJacobian(p, Ji);
  for (int i = 0; i < 2; i++) for (int j = 0; j < Tr<C>::NI; j++) vp_check_eq(Ji(i, j), vp_diff(e[i], vpn("i", j)), vpn("Ji", i, j));
  MatrixXd Jd; m.c.euclideanToKeypointDistortionJacobian(p, Jd); vp_check(Jd.rows() == 2 && Jd.cols() == (HasD<C>::v ? 2 : 0), "Jd_dims");
  for (int i = 0; i < 2; i++) for (int j = 0; j < Jd.cols(); j++) vp_check_eq(Jd(i, j), vp_diff(e[i], vpn("k", j)), vpn("Jd", i, j));
}
HARNESS(c08_project_pinhole) { Cam<PinA> m; project(m); }
HARNESS(c08_project_omni) { Cam<OmnA> m; project(m); }
HARNESS(c08_project_eucm) { Cam<EucN> m; project(m); }

// homogeneous points: the sign of the scale selects the antipodal direction; Jacobians follow
template <class C> void homog() {
  Cam<C> m; Vector4d h = vp_vec_in<4>("h", -100, 100); vp_assume(h.head<3>().norm() > 1e-3); double s = h[3] < 0 ? -1 : 1; Vector3d p = s * h.head<3>();
  vp_assume(Tr<C>::valid(m.in, p) && p[2] > 1e-6);
  Vector2d k0(0, 0), k(0, 0), k2(0, 0); Matrix<double, 2, 4> J; Matrix<double, 2, 3> J3; bool ok0 = m.c.euclideanToKeypoint(p, k0, J3);
  bool ok = m.c.homogeneousToKeypoint(h, k), ok2 = m.c.homogeneousToKeypoint(h, k2, J);
  vp_check(ok == ok0 && ok2 == ok0 && m.c.isHomogeneousVisible(h) == ok0, "visible"); vp_eq(k, k0, "keypoint"); vp_eq(k2, k0, "keypoint_J");
  vp_eq(J.template leftCols<3>(), s * J3, "Jp"); vp_eq(J.col(3), Vector2d::Zero(), "Jw");
  Matrix<double, 2, Tr<C>::NI> Ji, Jh; m.c.euclideanToKeypointIntrinsicsJacobian(p, Ji); m.c.homogeneousToKeypointIntrinsicsJacobian(h, Jh); vp_eq(Jh, Ji, "Ji");
  MatrixXd Jd, Jdh; m.c.euclideanToKeypointDistortionJacobian(p, Jd); m.c.homogeneousToKeypointDistortionJacobian(h, Jdh); vp_eq(Jdh, Jd, "Jd");
}
HARNESS(c08_homogeneous_pinhole) { homog<PinA>(); }
HARNESS(c08_homogeneous_omni) { homog<OmnA>(); }
HARNESS(c08_homogeneous_eucm) { homog<EucN>(); }
HARNESS(c08_homogeneous_ds) { homog<DsN>(); }
// back-projection: value / Jacobian variants agree and the Jacobian is the derivative
template <class C> void lift(Cam<C>& m) {
  Vector2d y; y << vp_real_in("y_0", -500, 1500), vp_real_in("y_1", -500, 1500);
  Vector3d p(0, 0, 0), p2(0, 0, 0); Matrix<double, 3, 2> J; bool ok = m.c.keypointToEuclidean(y, p), ok2 = m.c.keypointToEuclidean(y, p2, J);
  Vector4d h, h2; Matrix<double, 4, 2> Jh; bool ok3 = m.c.keypointToHomogeneous(y, h), ok4 = m.c.keypointToHomogeneous(y, h2, Jh);
  vp_check(ok == ok2 && ok == ok3 && ok == ok4, "ok"); if (!ok) return;
  vp_eq(p2, p, "value"); vp_eq(h.head<3>(), p, "h"); vp_eq(h2.head<3>(), p, "hJ"); vp_check_eq(h[3], 0, "w"); vp_check_eq(h2[3], 0, "wJ");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { double d = vp_diff(p[i], vpn("y", j)); vp_check_eq(J(i, j), d, vpn("J", i, j)); vp_check_eq(Jh(i, j), d, vpn("Jh", i, j)); }
  vp_check_eq(Jh(3, 0), 0, "Jw"); vp_check_eq(Jh(3, 1), 0, "Jw");
}
HARNESS(c08_lift_pinhole) { Cam<PinA> m; lift(m); }
HARNESS(c08_lift_omni) { Cam<OmnA> m; lift(m); }
HARNESS(c08_lift_eucm) { Cam<EucN> m; lift(m); }
static void fixDs(Cam<DsN>& m, double xi, double al, bool unitf) { m.in[0] = xi; m.in[1] = al; if (unitf) { m.in[2] = 300; m.in[3] = 400; m.in[4] = 320; m.in[5] = 240; } MatrixXd P(6, 1); for (int k = 0; k < 6; k++) P(k, 0) = m.in[k]; m.c.setParameters(P); }
static void shapeDs(Cam<DsN>& m, bool unitf) { int w = vp_choice("shape", 4); fixDs(m, w == 0 ? -0.25 : w == 1 ? 0.5 : w == 2 ? 0.125 : 0.75, w == 0 ? 0.25 : w == 1 ? 0.625 : w == 2 ? 0.5 : 0.75, unitf); }
HARNESS(c08_project_ds) {   // formula and Jacobians for every parameter vector, for points in front of the camera
  Cam<DsN> m; Vector3d p = vp_vec_in<3>("p", -100, 100); vp_assume(p[2] > 0.01); vp_assume(m.in[0] > -0.5 && m.in[1] < 0.9); bool val = Tr<DsN>::valid(m.in, p); vp_assume(val);
  Vector2d e = m.spec(p), k(0, 0), k2(0, 0); Matrix<double, 2, 3> J; m.c.euclideanToKeypoint(p, k); m.c.euclideanToKeypoint(p, k2, J);
  vp_eq(k, e, "keypoint"); vp_eq(k2, e, "keypoint_J"); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vp_check_eq(J(i, j), vp_diff(e[i], vpn("p", j)), vpn("Jp", i, j));
  Matrix<double, 2, 6> Ji; m.c.euclideanToKeypointIntrinsicsJacobian(p, Ji); for (int i = 0; i < 2; i++) for (int j = 0; j < 6; j++) vp_check_eq(Ji(i, j), vp_diff(e[i], vpn("i", j)), vpn("Ji", i, j));
}
HARNESS(c08_visible_ds) {   // field-of-view and sensor verdict, four lens shapes
  Cam<DsN> m; shapeDs(m, false); Vector3d p = vp_vec_in<3>("p", -100, 100); vp_assume(p.norm() > 1e-3 && fabs(p[2]) > 1e-6); bool val = Tr<DsN>::valid(m.in, p); Vector2d e = m.spec(p), k(0, 0), k2(0, 0); Matrix<double, 2, 3> J;
  bool ok = m.c.euclideanToKeypoint(p, k); vp_check(ok == (val && m.onSensor(e)), "visible"); vp_check(m.c.euclideanToKeypoint(p, k2, J) == ok, "visible_J"); vp_check(m.c.isEuclideanVisible(p) == ok, "isEuclideanVisible");
}
HARNESS(c08_lift_ds) { Cam<DsN> m; shapeDs(m, true); lift(m); }
// project then lift gives the direction back
template <class C> void roundtrip(const Vector3d& p, Cam<C>& m, bool side = true) {
  vp_assume(Tr<C>::valid(m.in, p)); Vector2d k(0, 0); bool ok = m.c.euclideanToKeypoint(p, k); vp_assume(ok);
  Vector3d q; vp_check(m.c.keypointToEuclidean(k, q), "liftable");
  vp_check_eq(q[0] * p[1] - q[1] * p[0], 0, "dir_z"); vp_check_eq(q[1] * p[2] - q[2] * p[1], 0, "dir_x"); vp_check_eq(q[2] * p[0] - q[0] * p[2], 0, "dir_y"); if (side) vp_check(q.dot(p) > 0, "same_side");
}
static Vector3d unit3(const char* n) { Vector3d u; vp_unit(n, u.data(), 3); return u; }
HARNESS(c08_roundtrip_pinhole) { Cam<PinN> m; Vector3d p = vp_vec_in<3>("p", -100, 100); vp_assume(p[2] > 1e-3); roundtrip(p, m); }
HARNESS(c08_roundtrip_omni) { Cam<OmnN> m; Vector3d n = unit3("n"); vp_assume(fabs(n[0]) > 1e-3 && fabs(n[1]) > 1e-3); roundtrip(Vector3d(n * vp_real_in("r", 0.1, 100)), m); }
static void rtEuc(Cam<EucN>& m, double b, bool side) {
  m.in[1] = b * b; MatrixXd P(6, 1); for (int k = 0; k < 6; k++) P(k, 0) = m.in[k]; m.c.setParameters(P);
  Vector3d n = unit3("n"); double r = vp_real_in("r", 0.1, 100); roundtrip(Vector3d(n[0] / b * r, n[1] / b * r, n[2] * r), m, side);
}
HARNESS(c08_roundtrip_eucm) { Cam<EucN> m; rtEuc(m, vp_real_in("b", 0.4, 2), false); }
HARNESS(c08_roundtrip_eucm_side) { Cam<EucN> m; int w = vp_choice("shape", 3); m.in[0] = 0.5; rtEuc(m, w == 0 ? 1 : w == 1 ? 0.5 : 1.5, true); }
HARNESS(c08_roundtrip_ds_thorough) { Cam<DsN> m; shapeDs(m, false); Vector3d n; vp_unit("n", n.data(), 3); roundtrip(Vector3d(n * vp_real_in("r", 0.1, 100)), m); }
// parameters: setters, getters, increments, scaling, equality
template <class C> void params() {
  Cam<C> m; const int N = Tr<C>::NI, O = Tr<C>::O; MatrixXd P; m.c.getParameters(P); vp_check(P.rows() == N && P.cols() == 1 && m.c.minimalDimensions() == N && m.c.parameterSize() == Vector2i(N, 1), "dims");
  for (int k = 0; k < N; k++) vp_check_eq(P(k, 0), m.in[k], "get");
  vp_check_eq(m.c.fu(), m.in[O], "fu"); vp_check_eq(m.c.fv(), m.in[O + 1], "fv"); vp_check_eq(m.c.cu(), m.in[O + 2], "cu"); vp_check_eq(m.c.cv(), m.in[O + 3], "cv");
  vp_check_eq(m.c.focalLengthCol(), m.in[O], "fu"); vp_check_eq(m.c.focalLengthRow(), m.in[O + 1], "fv"); vp_check_eq(m.c.opticalCenterCol(), m.in[O + 2], "cu"); vp_check_eq(m.c.opticalCenterRow(), m.in[O + 3], "cv");
  Matrix3d K = m.c.getCameraMatrix(), E; E << m.in[O], 0, m.in[O + 2], 0, m.in[O + 1], m.in[O + 3], 0, 0, 1; vp_eq(K, E, "K");
  double v[6]; C a = m.c, b = m.c; MatrixXd Q(N, 1);
  for (int k = 0; k < N; k++) { v[k] = vp_real_in(vpn("v", k), k < O ? -0.01 : -5, k < O ? 0.01 : 5); Q(k, 0) = m.in[k] + v[k]; }
  a.update(v); b.setParameters(Q); MatrixXd R; a.getParameters(R); for (int k = 0; k < N; k++) vp_check_eq(R(k, 0), Q(k, 0), "update");
  if (std::is_same<C, DsN>::value) return;   // refreshed state of this model: c08_update_ds
  // an incremented camera behaves as one constructed with the sum (derived quantities are refreshed)
  Vector2d y; y << vp_real_in("y_0", -500, 1500), vp_real_in("y_1", -500, 1500); Vector3d pa(0, 0, 0), pb(0, 0, 0); Matrix<double, 3, 2> Ja, Jb; Ja.setZero(); Jb.setZero();
  bool oa = a.keypointToEuclidean(y, pa, Ja), ob = b.keypointToEuclidean(y, pb, Jb); vp_check(oa == ob, "update_lift_ok"); if (oa) { vp_eq(pa, pb, "update_lift"); if (O < 2) vp_eq(Ja, Jb, "update_lift_J"); }
}
HARNESS(c08_params_pinhole) { params<PinA>(); }
HARNESS(c08_params_omni) { params<OmnA>(); }
HARNESS(c08_params_eucm) { params<EucN>(); }
HARNESS(c08_params_ds) { params<DsN>(); }
template <class C> void updproj() {   // increments also refresh the field-of-view test used by projection
  Cam<C> m; const int N = Tr<C>::NI, O = Tr<C>::O; double v[6]; for (int k = 0; k < N; k++) { v[k] = vp_real_in(vpn("v", k), k < O ? -0.01 : -5, k < O ? 0.01 : 5); m.in[k] += v[k]; }
  m.c.update(v); Vector3d p = vp_vec_in<3>("p", -100, 100); vp_assume(p.norm() > 1e-3 && fabs(p[2]) > 1e-6); bool val = Tr<C>::valid(m.in, p); Vector2d e = m.spec(p), k(0, 0);
  bool ok = m.c.euclideanToKeypoint(p, k); vp_check(ok == (val && m.onSensor(e)), "visible"); if (val) vp_eq(k, e, "keypoint");
}
HARNESS(c08_update_pinhole) { updproj<PinA>(); }
HARNESS(c08_update_omni) { updproj<OmnA>(); }
HARNESS(c08_update_eucm) { updproj<EucN>(); }
HARNESS(c08_update_ds) { updproj<DsN>(); }
template <class C> void resize() {   // scaling the image scales every projection
  Cam<C> m; Vector3d p = vp_vec_in<3>("p", -100, 100); vp_assume(p[2] > 1e-3); C c = m.c; double s = vp_choice("half", 2) ? 0.5 : 2.0;
  c.resizeIntrinsics(s); vp_check(c.ru() == (int)(m.c.ru() * s) && c.rv() == (int)(m.c.rv() * s) && c.width() == c.ru() && c.height() == c.rv(), "resolution");
  Vector2d k(0, 0), k2(0, 0); bool ok = m.c.euclideanToKeypoint(p, k); bool ok2 = c.euclideanToKeypoint(p, k2); vp_eq(k2, s * k, "scaled"); vp_check(ok == ok2, "visible");
  Vector2d y; y << vp_real_in("y_0", 0, 600), vp_real_in("y_1", 0, 400); Vector3d a(0, 0, 0), b(0, 0, 0); bool o1 = m.c.keypointToEuclidean(y, a), o2 = c.keypointToEuclidean(Vector2d(y * s), b); vp_check(o1 == o2, "lift"); if (o1) vp_eq(a, b, "lift");
}
HARNESS(c08_resize_pinhole) { resize<PinA>(); }
HARNESS(c08_resize_omni) { resize<OmnA>(); }
HARNESS(c08_resize_eucm) { resize<EucN>(); }
HARNESS(c08_resize_ds) { resize<DsN>(); }
template <class C> void ctor(const C& c, const double* in, int N) {
  MatrixXd P; c.getParameters(P); for (int k = 0; k < N; k++) vp_check_eq(P(k, 0), in[k], "ctor"); vp_check(c.ru() == 640 && c.rv() == 480, "resolution");
  C d = C::getTestProjection(); d.setParameters(P); Vector2d y; y << vp_real_in("y_0", -500, 1500), vp_real_in("y_1", -500, 1500); Vector3d a(0, 0, 0), b(0, 0, 0); bool oa = c.keypointToEuclidean(y, a), ob = d.keypointToEuclidean(y, b);
  vp_check(oa == ob, "ok"); if (oa) vp_eq(a, b, "lift");
}
HARNESS(c08_ctor) {
  double i[6]; int w = vp_choice("model", 4); int O = w == 0 ? 0 : w == 1 ? 1 : 2, N = O + 4;
  for (int k = 0; k < N; k++) i[k] = k < O ? vp_real_in(vpn("i", k), 0.1, 0.9) : k < O + 2 ? vp_real_in(vpn("i", k), 10, 5000) : vp_real_in(vpn("i", k), -1000, 5000);
  if (w == 0) ctor(PinN(i[0], i[1], i[2], i[3], 640, 480), i, 4);
  if (w == 1) ctor(OmnN(i[0], i[1], i[2], i[3], i[4], 640, 480), i, 5);
  if (w == 2) ctor(EucN(i[0], i[1], i[2], i[3], i[4], i[5], 640, 480), i, 6);
  if (w == 3) ctor(DsN(i[0], i[1], i[2], i[3], i[4], i[5], 640, 480), i, 6);
}
template <class C> void equal() {
  Cam<C> m; C d = m.c; vp_check(d.isBinaryEqual(m.c), "reflexive"); MatrixXd P; d.getParameters(P); int k = vp_choice("which", Tr<C>::NI); P(k, 0) += vp_real_in("delta", 1e-3, 2); d.setParameters(P); vp_check(!d.isBinaryEqual(m.c), "differs");
}
HARNESS(c08_equal_pinhole) { equal<PinN>(); }
HARNESS(c08_equal_omni) { equal<OmnN>(); }
HARNESS(c08_equal_eucm) { equal<EucN>(); }
HARNESS(c08_equal_ds) { equal<DsN>(); }
