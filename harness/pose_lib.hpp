#include <aslam_bsplines/BSplinePose.hpp>
#include <sm_kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm_kinematics/RotationVector.hpp>
using namespace aslam_bsplines;
template <class M> M D(const MatrixBase<M>& m, const char* v) { M r = m; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r(i, j) = vp_diff(m(i, j), v); return r; }
// a pose spline with concrete nonuniform knots, a free time t in any of its segments and free coefficients; those that act at t are written
// through the free values p_d_j of the j-th time derivatives of component d at t (blossom of the segment's polynomial), a bijection
struct P { BSplinePose b; int K, n, seg; double t;
  static sm::kinematics::RotationalKinematics::Ptr rk(int w) { if (w) return sm::kinematics::RotationalKinematics::Ptr(new sm::kinematics::RotationVector()); return sm::kinematics::RotationalKinematics::Ptr(new sm::kinematics::EulerAnglesYawPitchRoll()); }
  P(int K, int n, int w = 0) : b(K, rk(w)), K(K), n(n) { VD T; double x = -1; for (int i = 0; i < n + 2 * K - 1; i++) { T.push_back(x); x += i % 3 == 0 ? 0.5 : i % 3 == 1 ? 1 : 0.25; } MatrixXd C(6, n + K - 1);
    seg = vp_choice("segment", n); t = vp_var("t"); vp_assume(t >= T[K - 1 + seg] && t < T[K + seg]);
    for (int d = 0; d < 6; d++) for (int i = 0; i < n + K - 1; i++) { if (i < seg || i >= seg + K) { C(d, i) = vp_var(vpn("c", d, i)); continue; } double e[5] = {1, 0, 0, 0, 0}; for (int q = 1; q < K; q++) for (int j = q; j >= 1; j--) e[j] += e[j - 1] * (T[i + q] - t); double v = 0, f = 1; for (int j = 0; j < K; j++) { v += vp_var(vpn("p", d, j)) * e[j] * f; f /= K - 1 - j; } C(d, i) = v; }
    b.setKnotsAndCoefficients(T, C); }
  int cols() { return 6 * K; } VectorXd p(int j) { VectorXd r(6); for (int d = 0; d < 6; d++) r[d] = vp_var(vpn("p", d, j)); return r; }
  void idx(const VectorXi& x) { vp_check(x.size() == 6 * K, "index_count"); for (int i = 0; i < x.size(); i++) vp_check(x[i] == 6 * seg + i, "index"); }
  // derivative with respect to every coefficient that acts at t, and to time
  template <class M> M dc(const MatrixBase<M>& m, int col) { M r = M::Zero(m.rows(), m.cols()); for (int j = 0; j < K; j++) { MatrixXd B; b.evalDAndJacobian(t, j, &B, NULL); r += D(m, vpn("p", col % 6, j)) * B(col % 6, col); } return r; }
  template <class M> M dt(const MatrixBase<M>& m) { M r = M::Zero(m.rows(), m.cols()); for (int d = 0; d < 6; d++) for (int j = 0; j + 1 < K; j++) r += D(m, vpn("p", d, j)) * vp_var(vpn("p", d, j + 1)); return r; } };
