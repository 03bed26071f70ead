#include <Eigen/Core>
#include <Eigen/Dense>
#include <functional>
#include <aslam_bsplines/BSplinePose.hpp>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include "vp.h"
using namespace Eigen; using namespace aslam_bsplines; typedef std::vector<double> VD;
static bool throws(std::function<void()> f) { try { f(); } catch (...) { return true; } return false; }
static Matrix3d cr(const Vector3d& v) { Matrix3d m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
#include "pose_lib.hpp"
static Matrix3d Ct(P& p) { return p.b.rotation()->parametersToRotationMatrix(p.p(0).tail<3>()); } // orientation from the curve value
static Vector3d vee(const Matrix3d& m) { return Vector3d(m(2, 1), m(0, 2), m(1, 0)); }
template <class M> void jac(P& p, const MatrixBase<M>& m, const MatrixXd& J, const char* lab) { vp_check(J.rows() == m.rows() && J.cols() == p.cols(), vpn(lab)); for (int c = 0; c < p.cols(); c++) vp_eq(J.col(c), p.dc(m, c), lab); }
HARNESS(c21_orientation) { P p(2 + vp_choice("order", 2), 2); Matrix3d C = Ct(p); vp_eq(p.b.orientation(p.t), C, "orientation"); vp_eq(p.b.inverseOrientation(p.t), C.transpose(), "inverse"); vp_eq(p.b.position(p.t), p.p(0).head<3>(), "position");
  MatrixXd J, Ji; VectorXi x, xi; vp_eq(p.b.orientationAndJacobian(p.t, &J, &x), C, "orientation_j"); vp_eq(p.b.inverseOrientationAndJacobian(p.t, &Ji, &xi), C.transpose(), "inverse_j"); p.idx(x); p.idx(xi); vp_check(J.rows() == 3 && J.cols() == p.cols() && Ji.rows() == 3 && Ji.cols() == p.cols(), "size"); 
  for (int c = 0; c < p.cols(); c++) { Matrix3d dC = p.dc(C, c); vp_eq((-cr(J.col(c)) * C).eval(), dC, "jacobian"); vp_eq((-cr(Ji.col(c)) * C.transpose()).eval(), dC.transpose().eval(), "jacobian_inverse"); } }
HARNESS(c21_transformation) { P p(2 + vp_choice("order", 2), 2); Matrix4d T = Matrix4d::Identity(); T.topLeftCorner<3, 3>() = Ct(p); T.topRightCorner<3, 1>() = p.p(0).head<3>(); Matrix4d I = Matrix4d::Identity(); I.topLeftCorner<3, 3>() = Ct(p).transpose(); I.topRightCorner<3, 1>() = -Ct(p).transpose() * p.p(0).head<3>(); vp_eq(p.b.transformation(p.t), T, "value"); vp_eq(p.b.inverseTransformation(p.t), I, "inverse");
  MatrixXd J, Ji, Jv; VectorXi x, xi, xv; vp_eq(p.b.transformationAndJacobian(p.t, &J, &x), T, "value_j"); vp_eq(p.b.inverseTransformationAndJacobian(p.t, &Ji, &xi), I, "inverse_j"); p.idx(x); p.idx(xi); Vector4d v = vp_vec<4>("v"); Vector4d y = p.b.transformVectorAndJacobian(p.t, v, &Jv, &xv); p.idx(xv); vp_eq(y, T * v, "vector"); jac(p, y, Jv, "jacobian_vector");
  for (int c = 0; c < p.cols(); c++) { Matrix4d B = Matrix4d::Zero(), Bi = B; B.topLeftCorner<3, 3>() = -cr(J.col(c).tail<3>()); B.topRightCorner<3, 1>() = J.col(c).head<3>(); Bi.topLeftCorner<3, 3>() = -cr(Ji.col(c).tail<3>()); Bi.topRightCorner<3, 1>() = Ji.col(c).head<3>(); vp_eq((B * T).eval(), p.dc(T, c), "jacobian"); vp_eq((Bi * I).eval(), p.dc(I, c), "jacobian_inverse"); } }
HARNESS(c21_linear) { P p(3 + vp_choice("order", 2), 1); VectorXd z = p.p(0); vp_eq(p.b.eval(p.t), z, "eval"); Vector3d r = z.head<3>(), v = p.p(1).head<3>(), a = p.p(2).head<3>(); vp_eq(p.dt(r), v, "derivative"); vp_eq(p.dt(v), a, "second_derivative"); Matrix3d C = Ct(p); vp_eq(p.b.linearVelocity(p.t), v, "velocity"); vp_eq(p.b.linearAcceleration(p.t), a, "acceleration"); vp_eq(p.b.linearVelocityBodyFrame(p.t), C.transpose() * v, "velocity_body"); vp_eq(p.b.linearAccelerationBodyFrame(p.t), C.transpose() * a, "acceleration_body");
  MatrixXd J; VectorXi x; vp_eq(p.b.linearAccelerationAndJacobian(p.t, &J, &x), a, "acceleration_j"); p.idx(x); jac(p, a, J, "jacobian"); }
// angular velocity of the body seen from the world, from the time derivative of the orientation: dC/dt = [w]x C
static Vector3d omega(P& p) { Matrix3d C = Ct(p); return vee(p.dt(C) * C.transpose()); }
HARNESS(c21_angular_velocity) { P p(2 + vp_choice("order", 2), 1); Vector3d w = omega(p); vp_eq(p.b.angularVelocity(p.t), w, "world"); vp_eq(p.b.angularVelocityBodyFrame(p.t), Ct(p).transpose() * w, "body"); }
HARNESS(c21_angular_velocity_jacobian) { P p(2 + vp_choice("order", 2), 1); Vector3d w = p.b.angularVelocity(p.t), wb = p.b.angularVelocityBodyFrame(p.t); MatrixXd J, Jb; VectorXi x, xb; vp_eq(p.b.angularVelocityAndJacobian(p.t, &J, &x), w, "world"); vp_eq(p.b.angularVelocityBodyFrameAndJacobian(p.t, &Jb, &xb), wb, "body"); p.idx(x); p.idx(xb); jac(p, w, J, "jacobian"); jac(p, wb, Jb, "jacobian_body"); }
HARNESS(c21_angular_acceleration) { P p(3, 1); if (vp_bool("still")) { vp_assume(p.p(1).tail<3>() == Vector3d::Zero()); vp_eq(p.b.angularAccelerationBodyFrame(p.t), -Ct(p).transpose() * p.b.rotation()->parametersToSMatrix(p.p(0).tail<3>()) * p.p(2).tail<3>(), "still"); return; } Vector3d w = p.b.angularVelocity(p.t), a = p.dt(w);  vp_eq(p.b.angularAccelerationBodyFrame(p.t), Ct(p).transpose() * a, "body"); }
HARNESS(c21_angular_acceleration_jacobian) { P p(3 + vp_choice("order", 2), 1); MatrixXd J, Jb; VectorXi x, xb; Vector3d ab = p.b.angularAccelerationBodyFrameAndJacobian(p.t, &Jb, &xb), a = p.b.angularAccelerationAndJacobian(p.t, &J, &x); p.idx(x); p.idx(xb); vp_eq(ab, p.b.angularAccelerationBodyFrame(p.t), "same_value"); vp_eq(Ct(p) * ab, a, "frames"); jac(p, ab, Jb, "jacobian_body"); jac(p, a, J, "jacobian"); }
HARNESS(c21_curve_value) { sm::kinematics::RotationalKinematics::Ptr rk = P::rk(0); BSplinePose b(4, rk); VectorXd p(6); VD q; for (int i = 0; i < 6; i++) p[i] = vp_var(vpn("p", i)); Matrix3d C = rk->parametersToRotationMatrix(p.tail<3>()); Matrix4d T = b.curveValueToTransformation(p); vp_eq(T.topLeftCorner(3, 3), C, "orientation"); vp_eq(T.topRightCorner(3, 1), p.head(3), "position"); vp_eq(T.row(3), RowVector4d(0, 0, 0, 1), "last_row"); MatrixXd J; vp_eq(b.curveValueToTransformationAndJacobian(p, &J), T, "value"); vp_check(J.rows() == 6 && J.cols() == 6, "size");
  for (int c = 0; c < 6; c++) { Matrix4d B = Matrix4d::Zero(); B.topLeftCorner<3, 3>() = -cr(J.col(c).tail<3>()); B.topRightCorner<3, 1>() = J.col(c).head<3>(); vp_eq((B * T).eval(), D(T, vpn("p", c)), "jacobian"); }
  VectorXd k = b.transformationToCurveValue(T); vp_check(k.size() == 6, "size_back"); vp_eq(k.head(3), p.head(3), "position_back"); vp_check(throws([&]() { b.curveValueToTransformation(VectorXd::Zero(5)); }), "refused"); }
HARNESS(c21_curve_value_back) { sm::kinematics::RotationalKinematics::Ptr rk = P::rk(0); BSplinePose b(4, rk); Vector4d q = vp_quat("q"); Matrix4d T = Matrix4d::Identity(); T.topLeftCorner<3, 3>() = sm::kinematics::quat2r(q); T.topRightCorner<3, 1>() = vp_vec<3>("x"); vp_assume(T(2, 0) < 0.999 && T(2, 0) > -0.999); vp_eq(b.curveValueToTransformation(b.transformationToCurveValue(T)), T, "round_trip"); }
static Matrix4d at(int d, const char* n) { Matrix4d T = Matrix4d::Identity(); T(0, 3) = 0.5; T(1, 3) = -0.25; T(2, 3) = 0.75; T(d, 3) = vp_real_in(n, -1, 1); return T; }
static void nearM(const Matrix4d& a, const Matrix4d& b, const char* l) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { double e = a(i, j) - b(i, j); vp_check((e < 1e-6) & (e > -1e-6), l); } }
HARNESS(c21_init) { vp_round_sqrt(); int K = 2 + vp_choice("order", 3), d = vp_choice("component", 3); BSplinePose b(K, P::rk(0)); Matrix4d A = at(d, "a"), B = at(d, "b"), G = at(d, "g"); b.initPoseSpline(0.5, 2, A, B); vp_check_eq(b.t_min(), 0.5, "t_min"); vp_check_eq(b.t_max(), 2, "t_max"); nearM(b.transformation(0.5), A, "start"); nearM(b.transformation(2), B, "end");
  b.addPoseSegment(3, G); vp_check_eq(b.t_max(), 3, "t_max_added"); nearM(b.transformation(3), G, "added"); nearM(b.transformation(2), B, "kept"); }
