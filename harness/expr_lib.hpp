#include <Eigen/Core>
#include <Eigen/Dense>
#include <functional>
#include <sm_kinematics/rotations.hpp>
#include <sm_kinematics/quaternion_algebra.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/RotationVector.hpp>
#include <sm_kinematics/Transformation.hpp>
#include <aslam_backend/backend/JacobianContainer.hpp>
#include <aslam_backend_expressions/EuclideanExpression.hpp>
#include <aslam_backend_expressions/EuclideanExpressionNode.hpp>
#include <aslam_backend_expressions/EuclideanPoint.hpp>
#include <aslam_backend_expressions/EuclideanDirection.hpp>
#include <aslam_backend_expressions/MappedEuclideanPoint.hpp>
#include <aslam_backend_expressions/HomogeneousExpression.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include <aslam_backend_expressions/MappedHomogeneousPoint.hpp>
#include <aslam_backend_expressions/RotationExpression.hpp>
#include <aslam_backend_expressions/RotationExpressionNode.hpp>
#include <aslam_backend_expressions/RotationQuaternion.hpp>
#include <aslam_backend_expressions/MappedRotationQuaternion.hpp>
#include <aslam_backend_expressions/Scalar.hpp>
#include <aslam_backend_expressions/ScalarExpression.hpp>
#include <aslam_backend_expressions/TransformationExpression.hpp>
#include <aslam_backend_expressions/TransformationBasic.hpp>
#include <aslam_backend_expressions/MapTransformation.hpp>
#include <aslam_backend_expressions/MatrixBasic.hpp>
#include <aslam_backend_expressions/MatrixExpression.hpp>
#include <aslam_backend_expressions/VectorExpression.hpp>
#include <aslam_backend_expressions/DesignVariableVector.hpp>
#include <aslam_backend_expressions/DesignVariableMappedVector.hpp>
#include <aslam_backend_expressions/Vector2RotationQuaternionExpressionAdapter.hpp>
#include <aslam_backend_expressions/ErrorTermEuclidean.hpp>
#include <aslam_backend_expressions/ErrorTermTransformation.hpp>
#include "vp.h"
#define vp_real vp_var
static Eigen::Vector4d quat(const char* n) { Eigen::Vector4d q; vp_unit_var(n, q.data(), 4); return q; }
#define vp_quat quat
template <int N> static Eigen::Matrix<double, N, 1> vecv(const char* n) { Eigen::Matrix<double, N, 1> v; for (int i = 0; i < N; i++) v(i) = vp_var(vpn(n, i)); return v; }
#define vp_vec vecv
template <int R, int C> Eigen::Matrix<double, R, C> matv(const char* n) { Eigen::Matrix<double, R, C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i, j) = vp_var(vpn(n, i, j)); return m; }
#define vp_mat matv
using namespace Eigen; using namespace aslam::backend; namespace sk = sm::kinematics;
typedef DesignVariable DVar; typedef std::vector<DVar*> DVs;
static MatrixXd mat(const char* n, int r, int c) { MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = vp_real(vpn(n, i, j)); return m; }
static MatrixXd jacOf(const JacobianContainer& jc, DVar* d) { for (auto it = jc.begin(); it != jc.end(); ++it) if (it->first == d) return it->second; return MatrixXd::Zero(jc.rows(), d->minimalDimensions()); }
static MatrixXd d0(const MatrixXd& v, const char* e) { MatrixXd D(v.rows(), v.cols()); for (int i = 0; i < v.rows(); i++) for (int j = 0; j < v.cols(); j++) D(i, j) = vp_diff0(v(i, j), e); return D; }
// tangent of a value (v, its derivative D): plain, rotation (dC = -[t]x C) or transformation (dT = [-[r]x, p; 0] T)
enum Kind { VEC, ROT, TRF };
static Vector3d unskew(const Matrix3d& S, const char* l) { vp_eq(S + S.transpose(), Matrix3d::Zero(), l); return Vector3d(S(2, 1), S(0, 2), S(1, 0)); }
static VectorXd tangent(Kind k, const MatrixXd& v, const MatrixXd& D) {
  if (k == VEC) return Map<const VectorXd>(D.data(), D.size());
  if (k == ROT) { Matrix3d S = D * v.transpose(); return -unskew(S, "stays_rotation"); }
  Matrix3d C = v.topLeftCorner<3, 3>(), dC = D.topLeftCorner<3, 3>(); Vector3d t = v.topRightCorner<3, 1>(), r = -unskew(dC * C.transpose(), "stays_rotation"); VectorXd o(6); o.head<3>() = D.topRightCorner<3, 1>() + r.cross(t); o.tail<3>() = r; vp_eq(D.bottomRows<1>(), MatrixXd::Zero(1, 4), "last_row"); return o; }
// the value, the Jacobian and the chained Jacobian of an expression against the derivative along every coordinate of every design variable
template <class V, class J, class C, class S> void verify(DVs dv, Kind kind, int rows, V val, J jac, C chain, S dvset, bool plain = true) {
  for (size_t i = 0; i < dv.size(); i++) { dv[i]->setBlockIndex(i); dv[i]->setActive(true); }
  DVar::set_t set; dvset(set); vp_check(set.size() == dv.size(), "design_variables"); for (DVar* d : dv) vp_check(set.count(d) == 1, "design_variable");
  MatrixXd v0 = val(); JacobianContainer jc(rows), jc2(2); if (plain) jac(jc); MatrixXd A = mat("A", 2, rows); chain(jc2, A);
  vp_check((!plain || jc.numDesignVariables() == dv.size()) && jc2.numDesignVariables() == dv.size(), "blocks");
  for (size_t i = 0; i < dv.size(); i++) { MatrixXd J1 = jacOf(jc, dv[i]), J2 = jacOf(jc2, dv[i]); int n = dv[i]->minimalDimensions(); 
    for (int k = 0; k < n; k++) { VpName en = vpn("eps", i, k); VectorXd d = VectorXd::Zero(n); d[k] = vp_eps(en); dv[i]->update(d.data(), n); VectorXd t = tangent(kind, v0, d0(val(), en)); dv[i]->revertUpdate();
      if (plain) vp_eq(J1.col(k), t, vpn("J", i, k)); vp_eq(J2.col(k), A * t, vpn("AJ", i, k)); } }
  vp_eq(val(), v0, "reverted");
}
template <class E> void euc(E e, DVs dv) { verify(dv, VEC, 3, [&]() { return MatrixXd(e.toEuclidean()); }, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.evaluateJacobians(j, A); }, [&](DVar::set_t& s) { e.getDesignVariables(s); }); }
template <class E> void hom(E e, DVs dv) { verify(dv, VEC, 4, [&]() { return MatrixXd(e.toHomogeneous()); }, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.evaluateJacobians(j, A); }, [&](DVar::set_t& s) { e.getDesignVariables(s); }); }
template <class E> void sca(E e, DVs dv) { verify(dv, VEC, 1, [&]() { MatrixXd m(1, 1); m(0, 0) = e.toScalar(); return m; }, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.evaluateJacobians(j, A); }, [&](DVar::set_t& s) { e.getDesignVariables(s); }); }
template <class E> void rot(E e, DVs dv) { verify(dv, ROT, 3, [&]() { return MatrixXd(e.toRotationMatrix()); }, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.root()->evaluateJacobians(j, A); }, [&](DVar::set_t& s) { e.getDesignVariables(s); }); }
template <class E> void trf(E e, DVs dv) { verify(dv, TRF, 6, [&]() { return MatrixXd(e.toTransformationMatrix()); }, [&](JacobianContainer& j) { e.evaluateJacobians(j); }, [&](JacobianContainer& j, const MatrixXd& A) { e.evaluateJacobians(j, A); }, [&](DVar::set_t& s) { e.getDesignVariables(s); }); }
static Vector3d v3(const char* n) { return vp_vec<3>(n); }
struct P3 : EuclideanPoint { P3(const char* n) : EuclideanPoint(v3(n)) {} };
struct RQ : RotationQuaternion { RQ(const char* n) : RotationQuaternion(vp_quat(n)) {} };
struct SC : Scalar { SC(const char* n) : Scalar(vp_real(n)) {} };
struct HP : HomogeneousPoint { HP(const char* n) : HomogeneousPoint(vp_quat(n)) {} };
