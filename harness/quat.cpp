#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/rotations.hpp>
#include "vp.h"
using namespace sm::kinematics;
using namespace Eigen;

// ---- C02 quaternion algebra
HARNESS(c02_product) {
  Vector4d p = vp_vec<4>("p"), q = vp_vec<4>("q");
  // independent definition (Shuster/Barfoot product): (e,n)+(f,m): n f + m e - e x f ; n m - e.f
  Vector3d e = q.head<3>(), f = p.head<3>(); double n = q[3], m = p[3];
  Vector4d r; r << n * f[0] + m * e[0] - (e[1] * f[2] - e[2] * f[1]), n * f[1] + m * e[1] - (e[2] * f[0] - e[0] * f[2]), n * f[2] + m * e[2] - (e[0] * f[1] - e[1] * f[0]), n * m - (e[0] * f[0] + e[1] * f[1] + e[2] * f[2]);
  vp_eq(qplus(q, p), r, "qplus");
  vp_eq(quatPlus(q) * p, r, "quatPlus");
  vp_eq(quatOPlus(p) * q, r, "quatOPlus");
  vp_eq(qoplus(p, q), r, "qoplus");
}
HARNESS(c02_associative) {
  Vector4d p = vp_vec<4>("p"), q = vp_vec<4>("q"), s = vp_vec<4>("s");
  vp_eq(qplus(qplus(p, q), s), qplus(p, qplus(q, s)), "assoc");
  vp_eq(qplus(quatIdentity(), p), p, "left_identity");
  vp_eq(qplus(p, quatIdentity()), p, "right_identity");
}
HARNESS(c02_inverse) {
  Vector4d q = vp_quat("q");
  vp_eq(qplus(q, quatInv(q)), quatIdentity(), "right_inverse");
  vp_eq(qplus(quatInv(q), q), quatIdentity(), "left_inverse");
  Vector4d r = q; invertQuat(r); vp_eq(r, quatInv(q), "in_place");
  vp_eq(quat2r(quatInv(q)), quat2r(q).transpose(), "inverse_rotation");
}
HARNESS(c02_rotation) {
  Vector4d q = vp_quat("q"), p = vp_quat("p"); Vector3d v = vp_vec<3>("v");
  Matrix3d R = quat2r(q);
  vp_eq(R * R.transpose(), Matrix3d::Identity(), "orthonormal");
  vp_check_eq(R(0,0)*(R(1,1)*R(2,2)-R(1,2)*R(2,1)) - R(0,1)*(R(1,0)*R(2,2)-R(1,2)*R(2,0)) + R(0,2)*(R(1,0)*R(2,1)-R(1,1)*R(2,0)), 1.0, "det");
  vp_eq(quatRotate(q, v), R * v, "rotate");
  vp_eq(quat2r(qplus(q, p)), R * quat2r(p), "homomorphism");
  vp_eq(quatRotate(quatInv(q), quatRotate(q, v)), v, "rotate_back");
  vp_eq(quat2r(Vector4d(-q)), R, "double_cover");
}
HARNESS(c02_matrix_roundtrip) {
  Vector4d q = vp_quat("q");
  Matrix3d R = quat2r(q);
  Vector4d r = r2quat(R);
  vp_check_eq(r.squaredNorm(), 1.0, "unit");
  vp_check(r[3] >= 0, "scalar_part_nonnegative");
  vp_eq(quat2r(r), R, "same_rotation");
  double s = q.dot(r);
  vp_check_eq(s * s, 1.0, "same_up_to_sign");
}
HARNESS(c02_update) {
  Vector4d q = vp_quat("q"); Vector3d d = vp_vec<3>("d");
  Vector4d u = updateQuat(q, d);
  vp_eq(u, qplus(axisAngle2quat(d), q), "update_is_product");
}
HARNESS(c02_jacobian) {
  Vector4d q = vp_quat("q"); 
  for (int j = 0; j < 3; j++) {
    double e = vp_eps(vpn("eps", j)); Vector3d d = Vector3d::Zero(); d[j] = e;
    Vector4d u = updateQuat(q, d);
    for (int i = 0; i < 4; i++) vp_check_eq(vp_diff0(u[i], vpn("eps", j)), quatJacobian(q)(i, j), vpn("quatJacobian", i, j));
  }
  vp_eq(quatInvS(q), quatJacobian(q), "invS");
  vp_eq(quatS(q) * quatInvS(q), Matrix3d::Identity(), "S_invS");
}
