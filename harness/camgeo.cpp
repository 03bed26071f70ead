#include <Eigen/Core>
#include <Eigen/Dense>
#include "vp.h"
#include <vector>
#include <functional>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/Frame.hpp>
#include <aslam_cv_backend/CameraDesignVariable.hpp>
#include <aslam_cv_error_terms/ReprojectionError.hpp>
#include <aslam_cv_error_terms/SimpleReprojectionError.hpp>
#include <aslam_backend_expressions/HomogeneousPoint.hpp>
#include "cvmat.hpp"
using namespace Eigen; using namespace aslam::cameras;
typedef CameraGeometry<PinholeProjection<RadialTangentialDistortion>, RollingShutter, ImageMask> PR;
typedef CameraGeometry<OmniProjection<EquidistantDistortion>, GlobalShutter, ImageMask> OE;
typedef CameraGeometry<PinholeProjection<FovDistortion>, RollingShutter, NoMask> PF;
typedef CameraGeometry<PinholeProjection<NoDistortion>, GlobalShutter, NoMask> PN;
typedef CameraGeometry<ExtendedUnifiedProjection<NoDistortion>, RollingShutter, NoMask> EN;
typedef CameraGeometry<DoubleSphereProjection<NoDistortion>, RollingShutter, NoMask> DN;
static void say(const MatrixXd& a, const MatrixXd& b, const char* l) { vp_check(a.rows() == b.rows() && a.cols() == b.cols(), l); for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) vp_check_eq(a(i, j), b(i, j), l); }
static double LO = 0.1, HI = 0.9;
static MatrixXd vals(const char* n, int r) { MatrixXd m(r, 1); for (int i = 0; i < r; i++) m(i, 0) = vp_real_in(vpn(n, i), LO, HI); return m; }
// every part separately: projection, distortion, shutter
template <class G> static MatrixXd part(const G& g, int k) { MatrixXd P; if (k == 0) g.projection().getParameters(P); else if (k == 1) g.projection().distortion().getParameters(P); else g.shutter().getParameters(P); return P; }
template <class G> static int dims(const G& g, int k) { return k == 0 ? g.projection().minimalDimensions() : k == 1 ? g.projection().distortion().minimalDimensions() : g.shutter().minimalDimensions(); }
template <class G> static void put(G& g, int k, const MatrixXd& P) { if (k == 0) g.projection().setParameters(P); else if (k == 1) g.projection().distortion().setParameters(P); else g.shutter().setParameters(P); }
template <class G> static void composite() {
  G g, h; for (int k = 0; k < 3; k++) { const char* n[3] = {"p", "d", "s"}; MatrixXd P = vals(n[k], part(g, k).rows()); if (P.rows()) put(g, k, P); } for (int k = 0; k < 3; k++) if (part(g, k).rows()) put(h, k, part(g, k));
  bool f[3] = {!!vp_bool("projection"), !!vp_bool("distortion"), !!vp_bool("shutter")}; CameraGeometryBase& b = g; MatrixXd P; int n = 0, r = 0; for (int k = 0; k < 3; k++) if (f[k]) { n += dims(g, k); r += part(g, k).rows(); }
  vp_check(b.minimalDimensions(f[0], f[1], f[2]) == n, "dimensions"); b.getParameters(P, f[0], f[1], f[2]); vp_check(P.rows() == r, "parameters"); int row = 0; for (int k = 0; k < 3; k++) if (f[k]) { MatrixXd q = part(g, k); say(P.block(row, 0, q.rows(), q.cols()), q, "parameters"); row += q.rows(); }
  vp_check(b.minimalDimensionsProjection() == dims(g, 0) && b.minimalDimensionsDistortion() == dims(g, 1) && b.minimalDimensionsShutter() == dims(g, 2), "dimensions");
  MatrixXd v = vals("v", n + 1); b.update(v.data(), f[0], f[1], f[2]); const double* q = v.data(); if (f[0]) { h.projection().update(q); q += dims(h, 0); } if (f[1]) { h.projection().distortion().update(q); q += dims(h, 1); } if (f[2]) h.shutter().update(q);
  for (int k = 0; k < 3; k++) say(part(g, k), part(h, k), "update"); MatrixXd N = vals("n", r), before[3]; for (int k = 0; k < 3; k++) before[k] = part(g, k); b.setParameters(N, f[0], f[1], f[2]); row = 0;
  for (int k = 0; k < 3; k++) { int m = before[k].rows(); if (f[k]) { if (m) say(part(g, k), N.block(row, 0, m, 1), "set"); row += m; } else say(part(g, k), before[k], "set_untouched"); }
  // Jacobians: the columns of each estimated part in the order of the update
  Vector3d p(vp_real_in("x", -1, 1), vp_real_in("y", -1, 1), vp_real_in("z", 1, 2)); Vector4d ph(p[0], p[1], p[2], vp_real_in("w", 0.5, 2)); MatrixXd J, H, D[2], E[2]; b.euclideanToKeypointIntrinsicsJacobian(p, J, f[0], f[1], f[2]); b.homogeneousToKeypointIntrinsicsJacobian(ph, H, f[0], f[1], f[2]);
  vp_check(J.rows() == 2 && J.cols() == n && H.rows() == 2 && H.cols() == n, "jacobian_size"); g.projection().euclideanToKeypointIntrinsicsJacobian(p, D[0]); g.projection().euclideanToKeypointDistortionJacobian(p, D[1]); g.projection().homogeneousToKeypointIntrinsicsJacobian(ph, E[0]); g.projection().homogeneousToKeypointDistortionJacobian(ph, E[1]);
  int col = 0; for (int k = 0; k < 2; k++) if (f[k]) { if (dims(g, k)) { say(J.block(0, col, 2, dims(g, k)), D[k], "jacobian"); say(H.block(0, col, 2, dims(g, k)), E[k], "jacobian"); } col += dims(g, k); } if (f[2]) for (int c = col; c < n; c++) vp_check(J(0, c) == 0 && J(1, c) == 0 && H(0, c) == 0 && H(1, c) == 0, "shutter_columns");
  MatrixXd T; VectorXd y(2); y << vp_real_in("k0", 0, 100), vp_real_in("k1", 0, 100); b.temporalOffsetIntrinsicsJacobian(y, T, f[0], f[1], f[2]); vp_check(T.rows() == 1 && T.cols() == n, "time_jacobian_size"); for (int c = 0; c < n; c++) vp_check_eq(T(0, c), f[2] && c == n - 1 && dims(g, 2) ? y[1] : 0.0, "time_jacobian"); }
HARNESS(c10_pinhole_radtan) { composite<PR>(); }
HARNESS(c10_omni_equi) { composite<OE>(); }
HARNESS(c10_pinhole_fov) { LO = 0.6; HI = 0.74; composite<PF>(); }
HARNESS(c10_pinhole) { composite<PN>(); }
HARNESS(c10_eucm) { composite<EN>(); }
HARNESS(c10_ds) { composite<DN>(); }
// ---- masks: a keypoint is usable exactly if it is inside the image and its (scaled) mask pixel is set
static const int W = 6, Hh = 4;
static ImageMask mask(int s, int* m) { ImageMask k; MatrixXi M(Hh / s, W / s); for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) M(i, j) = m[i * M.cols() + j] = vp_u8(vpn("m", i, j)); k.setMaskFromMatrix(M); k.setScale(1.0 / s); vp_check(k.isSet(), "set"); MatrixXi B = k.getMaskAsMatrix(); for (int i = 0; i < M.rows(); i++) for (int j = 0; j < M.cols(); j++) vp_check(B(i, j) == M(i, j), "mask_roundtrip"); return k; }
static bool lit(const int* m, int s, double u, double v) { for (int i = 0; i < Hh / s; i++) for (int j = 0; j < W / s; j++) if (u >= j * s && u < (j + 1) * s && v >= i * s && v < (i + 1) * s) return m[i * (W / s) + j] != 0; return false; }
typedef CameraGeometry<PinholeProjection<NoDistortion>, GlobalShutter, ImageMask> MP;
static void masked(bool set, int s) { int m[W * Hh]; PinholeProjection<NoDistortion> pr(2, 2, 3, 2, W, Hh); ImageMask im; if (set) im = mask(s, m); MP g(pr, GlobalShutter(), im); CameraGeometryBase& b = g;
  Vector2d k(vp_real_in("u", -1, W + 1), vp_real_in("v", -1, Hh + 1)); double z = vp_bool("behind") ? -1 : 2; bool in = (k[0] >= 0) & (k[0] < W) & (k[1] >= 0) & (k[1] < Hh), use = in && (!set || lit(m, s, k[0], k[1]));
  vp_check(g.isValid(k) == use && b.vsIsValid(k) == use, "valid"); Vector3d p((k[0] - 3) / 2 * z, (k[1] - 2) / 2 * z, z); Vector4d ph(p[0], p[1], p[2], 1); bool vis = use && z > 0; Vector2d y; VectorXd Y(2); MatrixXd J; Matrix<double, 2, 3> J3;
  switch (vp_choice("way", 6)) { case 0: vp_check(g.euclideanToKeypoint(p, y) == vis && g.euclideanToKeypoint(p, y, J3) == vis, "project"); break; case 1: vp_check(b.vsEuclideanToKeypoint(p, Y) == vis && b.vsEuclideanToKeypoint(p, Y, J) == vis, "project"); break;
    case 2: vp_check(g.isEuclideanVisible(p) == vis && b.vsIsEuclideanVisible(p) == vis, "visible"); break; case 3: vp_check(g.isHomogeneousVisible(ph) == vis && b.vsIsHomogeneousVisible(ph) == vis, "visible"); break;
    case 4: vp_check(b.vsHomogeneousToKeypoint(ph, Y) == vis && b.vsHomogeneousToKeypoint(ph, Y, J) == vis, "project"); break; default: { Vector3d q; VectorXd Q(3); vp_check(b.vsKeypointToEuclidean(k, q) == use && b.vsKeypointToEuclidean(k, Q, J) == use, "unproject"); } } }
HARNESS(c10_mask) { masked(true, 2); }
HARNESS(c10_mask_full) { masked(true, 1); }
HARNESS(c10_mask_unset) { masked(false, 1); }
// ---- time of a keypoint
static bool near(const aslam::Duration& t, double s) { double e = (double)t.sec * 1e9 + (double)t.nsec - s * 1e9; return (e < 0.501) & (e > -1.001); }   // rounded to the nanosecond
HARNESS(c10_row_time) { double d = vp_real_in("delay", 0, 1e-9); Vector2d k(vp_real_in("u", 0, 8), vp_real_in("v", 0, 8)); PF g; g.shutter() = RollingShutter(d); CameraGeometryBase& b = g; aslam::Duration t; switch (vp_choice("way", 3)) { case 0: t = b.vsTemporalOffset(k); break; case 1: t = g.temporalOffset(k); break; default: t = b.temporalOffset(k); } vp_check(near(t, d * k[1]), "offset"); PN n; CameraGeometryBase& c = n; vp_check(c.vsTemporalOffset(k).toNSec() == 0, "global"); }
// ---- reprojection errors: measurement minus prediction, weighted, with exact Jacobians
using namespace aslam::backend;
struct HP : HomogeneousPoint { using HomogeneousPoint::HomogeneousPoint; };
template <class G> static boost::shared_ptr<G> cam() { boost::shared_ptr<G> g(new G); for (int k = 0; k < 3; k++) { const char* n[3] = {"p", "d", "s"}; int r = part(*g, k).rows(); MatrixXd V(r, 1); for (int i = 0; i < r; i++) V(i, 0) = (k == 1 && r == 1 ? 0.9 : 0.2) + 0.07 * i + 0.1 * k; if (r) put(*g, k, V); (void)n; } return g; }
struct Seen { MatrixXd D[4]; };
template <class G, class F> static void reprojection() { boost::shared_ptr<G> g = cam<G>(); Vector2d y(vp_real("y0"), vp_real("y1")); Matrix2d R; double a = vp_real_in("r00", 1, 2), c = vp_real_in("r01", -0.5, 0.5), e = vp_real_in("r11", 1, 2); R << a, c, c, e;
  double pn[4]; vp_unit_var("p", pn, 4); Vector4d p(pn[0], pn[1], pn[2], pn[3]); vp_assume(p[2] > 0.1); HomogeneousPoint hp(p); p = hp.toHomogeneous(); hp.setActive(true); hp.setBlockIndex(3); HomogeneousExpression he(&hp); Matrix<double, 2, 4> Jp; Vector2d hat; hat << 1e5, 1e5; g->homogeneousToKeypoint(p, hat, Jp); if (hat[0] == 1e5) return; Vector2d er = y - hat;
  bool f[3] = {!!vp_bool("projection"), !!vp_bool("distortion"), false}; boost::shared_ptr<CameraDesignVariable<G>> dv(new CameraDesignVariable<G>(g)); dv->setActive(f[0], f[1], f[2]); dv->setTestBlockIndices();
  auto look = [&](ErrorTerm& t, bool cams) { double s = t.evaluateError(); vp_check_eq(s, er.dot(R * er), "cost"); VectorXd E = t.vsError(); say(E, er, "error"); JacobianContainer jc(2); t.evaluateJacobians(jc); JacobianContainer ref(2); he.evaluateJacobians(ref, -Jp); int blocks = 0; MatrixXd JI, JD; g->homogeneousToKeypointIntrinsicsJacobian(p, JI); g->homogeneousToKeypointDistortionJacobian(p, JD);
    for (auto it = jc.begin(); it != jc.end(); ++it) { blocks++; if (it->first == &hp) say(it->second, ref.Jacobian(&hp), "point_jacobian"); else if (it->first == dv->projectionDesignVariable().get()) { vp_check(cams && f[0], "projection_active"); say(it->second, -JI, "projection_jacobian"); } else if (it->first == dv->distortionDesignVariable().get()) { vp_check(cams && f[1], "distortion_active"); say(it->second, -JD, "distortion_jacobian"); } else vp_fail("unknown_variable"); }
    vp_check(blocks == 1 + (cams ? (int)f[0] + f[1] : 0), "blocks"); };
  SimpleReprojectionError<F> s(y, R, he, *g); look(s, false); vp_check(s.numDesignVariables() == 1, "variables"); ReprojectionError<G> r(y, R, he, *dv); look(r, true); vp_check(r.numDesignVariables() == 4, "variables"); vp_eq(r.getMeasurement(), y, "measurement"); vp_eq(r.getPredictedMeasurement(), hat, "prediction");
  Vector2d y2(vp_real("z0"), vp_real("z1")); r.updateMeasurement(y2); y = y2; er = y - hat; look(r, true);
  boost::shared_ptr<F> fr(new F); fr->setGeometry(g); typename F::keypoint_t kp; kp.setMeasurement(y); kp.setInverseMeasurementCovariance(R); fr->addKeypoint(kp); SimpleReprojectionError<F> s2(fr.get(), 0, he); look(s2, false); ReprojectionError<G> r2(fr.get(), 0, he, *dv); look(r2, true); }
HARNESS(c15_pinhole_radtan) { typedef CameraGeometry<PinholeProjection<RadialTangentialDistortion>, GlobalShutter, NoMask> G; reprojection<G, aslam::Frame<G>>(); }
HARNESS(c15_ds_rs) { reprojection<DN, aslam::Frame<DN>>(); }
HARNESS(c15_omni_fov) { typedef CameraGeometry<OmniProjection<FovDistortion>, RollingShutter, NoMask> G; reprojection<G, aslam::Frame<G>>(); }
HARNESS(c15_frame) { typedef aslam::Frame<PN> F; boost::shared_ptr<PN> g(new PN(PinholeProjection<NoDistortion>(2, 2, 3, 2, W, Hh))); F fr; fr.setGeometry(g); typename F::keypoint_t kp; Vector2d y(vp_real("y0"), vp_real("y1")); Matrix2d R; double a = vp_real_in("r00", 1, 2), c = vp_real_in("r01", -0.5, 0.5), e = vp_real_in("r11", 1, 2); R << a, c, c, e; kp.setMeasurement(y); kp.setInverseMeasurementCovariance(R); fr.addKeypoint(); fr.addKeypoint(kp); vp_check(fr.numKeypoints() == 2, "count");
  Vector3d p(vp_real_in("x", -3, 3), vp_real_in("yy", -3, 3), vp_real_in("z", 1, 2)); Vector4d ph(p[0], p[1], p[2], 1); Vector2d hat; bool ok = g->euclideanToKeypoint(p, hat); Vector2d er = hat - y; double r3 = -1, r4 = -1, ru = -1; vp_check(fr.computeReprojectionError3(1, p, r3) == ok && fr.computeReprojectionError4(1, ph, r4) == ok, "result"); if (ok) { vp_check_eq(r3, er.dot(R * er), "error3"); vp_check_eq(r4, er.dot(R * er), "error4"); }
  sm::kinematics::UncertainHomogeneousPoint u(ph, Matrix4d(Matrix4d::Zero())); vp_check(fr.computeReprojectionErrorUhp(1, u, ru) == ok, "result"); if (ok) vp_check_eq(ru, er.dot(R * er), "error_certain"); }
HARNESS(c15_keypoint_time) { double d = vp_real_in("delay", 0, 1e-9); boost::shared_ptr<PF> g(new PF); g->shutter() = RollingShutter(d); boost::shared_ptr<CameraDesignVariable<PF>> dv(new CameraDesignVariable<PF>(g)); bool act = vp_bool("shutter"); dv->setActive(false, false, act); dv->setTestBlockIndices(); Vector2d k(vp_real_in("u", 0, 4), vp_real_in("v", 0, 4)); aslam::Time st(0, 250); bool off = vp_bool("offset"); ScalarExpression ex = off ? dv->temporalOffset(k) : dv->keypointTime(st, k); double u = vp_real_in("update", 0, 1e-9); if (act) dv->shutterDesignVariable()->update(&u, 1); double t = ex.toScalar(), e = (t - (off ? 0 : 250e-9)) * 1e9 - (act ? d + u : d) * k[1] * 1e9; vp_check((e < 0.51) & (e > -1.01), "time"); JacobianContainer jc(1); ex.evaluateJacobians(jc); int n = 0; for (auto it = jc.begin(); it != jc.end(); ++it) { n++; vp_check(it->first == dv->shutterDesignVariable().get(), "variable"); vp_check_eq(it->second(0, 0), k[1], "jacobian"); } vp_check(n == (int)act, "blocks"); 
  JacobianContainer j2(2); MatrixXd C(2, 1); C << vp_real("c0"), vp_real("c1"); ex.evaluateJacobians(j2, C); for (auto it = j2.begin(); it != j2.end(); ++it) say(it->second, C * k[1], "chain"); DesignVariable::set_t vs; ex.getDesignVariables(vs); vp_check(vs.size() == (size_t)act, "variables"); }
HARNESS(c15_frame_time) { boost::shared_ptr<PF> g(new PF); double d = vp_real_in("delay", 0, 1e-9); g->shutter() = RollingShutter(d); aslam::Frame<PF> f; f.setGeometry(g); f.setTime(aslam::Time(5, 250)); typename aslam::Frame<PF>::keypoint_t kp; for (int i = 0; i < 2; i++) { Vector2d y(vp_real_in(vpn("u", i), 0, 4), vp_real_in(vpn("v", i), 0, 4)); kp.setMeasurement(y); f.addKeypoint(kp); } int i = vp_choice("i", 2); aslam::Time t = f.keypointTime(i); vp_check(near(aslam::Duration((int)t.sec - 5, (int)t.nsec - 250), d * f.keypoint(i).y()[1]), "time"); }
