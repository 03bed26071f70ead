#include <Eigen/Core>
#include <Eigen/Dense>
#include "vp.h"
#include <vector>
#include <functional>
#include <aslam_cameras/cameras.hpp>
#include <aslam_cameras/cameras/GridDetector.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam_cameras/cameras/GridCalibrationTargetCirclegrid.hpp>
#include <aslam_cameras_april/GridCalibrationTargetAprilgrid.hpp>
#include <aslam_cv_backend/GridCalibrationTargetDesignVariableContainer.hpp>
#include "cvmat.hpp"
using namespace Eigen; using namespace aslam::cameras; typedef GridCalibrationTargetBase GT; typedef GridCalibrationTargetObservation GO; typedef GridCalibrationTargetAprilgrid AG;
static bool throws(std::function<void()> f) { try { f(); } catch (std::exception&) { return true; } return false; }
// ---- layout of the targets: every index has one grid coordinate and its point lies where the geometry says
static void grid(GT& g, size_t R, size_t C, std::function<Vector3d(int, int)> at) {
  vp_check(g.rows() == R && g.cols() == C && g.size() == R * C, "size"); MatrixXd P = g.points(); vp_check(P.rows() == (int)(R * C) && P.cols() == 3, "points_size"); std::vector<int> seen(R * C, 0);
  for (size_t r = 0; r < R; r++) for (size_t c = 0; c < C; c++) { size_t i = g.gridCoordinatesToPoint(r, c); vp_check(i < R * C, "index"); seen[i]++; auto rc = g.pointToGridCoordinates(i); vp_check(rc.first == c && rc.second == r, "coordinates"); Vector3d w = at(r, c); vp_eq(g.point(i), w, "point"); vp_eq(g.gridPoint(r, c), w, "grid_point"); vp_eq(P.row(i).transpose(), w, "points"); for (int k = 0; k < 3; k++) vp_check_eq(g.getPointDataPointer(i)[k], w[k], "data"); }
  for (int s : seen) vp_check(s == 1, "one_index_each"); vp_check(throws([&]() { g.getPointDataPointer(R * C); }), "index_refused"); }
HARNESS(c11_checkerboard) { int R = 2 + vp_choice("rows", 2), C = 2 + vp_choice("cols", 3); double a = vp_real_in("a", 0.001, 10), b = vp_real_in("b", 0.001, 10); GridCalibrationTargetCheckerboard t(R, C, a, b); grid(t, R, C, [&](int r, int c) { return Vector3d(a * r, b * c, 0); }); }
HARNESS(c11_circlegrid) { int R = 2 + vp_choice("rows", 2), C = 2 + vp_choice("cols", 3); double s = vp_real_in("s", 0.001, 10); GridCalibrationTargetCirclegrid::CirclegridOptions o; o.useAsymmetricCirclegrid = vp_bool("asymmetric"); GridCalibrationTargetCirclegrid t(R, C, s, o); grid(t, R, C, [&](int r, int c) { return o.useAsymmetricCirclegrid ? Vector3d((2 * c + r % 2) * s, r * s, 0) : Vector3d(s * r, s * c, 0); }); }
HARNESS(c11_aprilgrid) { int R = 1 + vp_choice("rows", 2), C = 1 + vp_choice("cols", 3); double s = vp_real_in("s", 0.001, 10), g = vp_real_in("g", 0.01, 2); AG t(R, C, s, g); grid(t, 2 * R, 2 * C, [&](int r, int c) { return Vector3d(c / 2 * (s + g * s) + c % 2 * s, r / 2 * (s + g * s) + r % 2 * s, 0); }); vp_check(throws([&]() { AG(R, C, -s, g); }) && throws([&]() { AG(R, C, s, -g); }), "size_refused"); }
HARNESS(c11_target_variables) { double s = vp_real_in("s", 0.001, 10); boost::shared_ptr<GT> t(new AG(1, 1, s, 0.3)); bool act = vp_bool("active"); aslam::GridCalibrationTargetDesignVariableContainer d(t, act); int i = vp_choice("point", 4); Vector3d u(vp_var("u0"), vp_var("u1"), vp_var("u2")), p = t->point(i); vp_check(d.isPointActive(i) == act, "active"); d.setPointActive(i, !act); for (int j = 0; j < 4; j++) vp_check(d.isPointActive(j) == (j == i ? !act : act), "active"); vp_check(throws([&]() { d.getPoint(4); }) && throws([&]() { d.setPointActive(4, true); }), "index_refused");
  aslam::backend::DesignVariable::set_t set, one; d.getDesignVariables(set); vp_check(set.size() == 4, "variables"); d.getPoint(i).getDesignVariables(one); vp_check(one.size() == 1 && set.count(*one.begin()) == 1, "variable"); vp_eq(d.getPoint(i).toEuclidean(), p, "value"); (*one.begin())->update(u.data(), 3); vp_eq(t->point(i), Vector3d(p + u), "update_moves_target"); vp_eq(d.getPoint(i).toEuclidean(), Vector3d(p + u), "update_moves_expression"); for (int j = 0; j < 4; j++) if (j != i) vp_eq(t->point(j), d.getPoint(j).toEuclidean(), "others"); }
// ---- observations: which corners are seen is what the last update or removal of each said
struct T2 : GT { T2(int r, int c) : GT(r, c) { _points.resize(size(), 3); for (int i = 0; i < (int)size(); i++) _points.row(i) = Vector3d(i % cols(), i / cols() * 2, 0).transpose(); } };
HARNESS(c11_observation) { const int N = 4; boost::shared_ptr<GT> t(new T2(2, 2)); GO o(t); vp_check(!o.hasSuccessfulObservation(), "empty"); bool seen[N] = {}; Vector2d at[N]; for (int i = 0; i < N; i++) at[i].setZero();
  for (int s = 0; s < 3; s++) { int i = vp_choice(vpn("which", s), N); if (vp_bool(vpn("remove", s))) { o.removeImagePoint(i); seen[i] = false; } else { at[i] = Vector2d(vp_var(vpn("x", s)), vp_var(vpn("y", s))); o.updateImagePoint(i, at[i]); seen[i] = true; } }
  int n = 0; std::vector<cv::Point3f> T(1); std::vector<cv::Point2f> I(1); std::vector<unsigned> X(1); unsigned a = o.getCornersTargetFrame(T), b = o.getCornersImageFrame(I), c = o.getCornersIdx(X);
  for (int i = 0; i < N; i++) { Vector2d p(0, 0); vp_check(o.imagePoint(i, p) == seen[i], "seen"); if (seen[i]) vp_eq(p, at[i], "where"); Vector2d g(0, 0); vp_check(o.imageGridPoint(i / 2, i % 2, g) == seen[i], "grid_seen"); if (seen[i]) { vp_eq(g, at[i], "grid_where"); vp_check(n < (int)a && n < (int)b && n < (int)c && X[n] == (unsigned)i, "list"); Vector3d w = t->point(i); vp_check(T[n].x == (float)w[0] && T[n].y == (float)w[1] && T[n].z == 0, "target_corner"); vp_check((I[n].x == (float)at[i][0]) & (I[n].y == (float)at[i][1]), "image_corner"); n++; } }
  vp_check(a == (unsigned)n && b == a && c == a && T.size() == a && I.size() == a && X.size() == a, "counts"); vp_check(o.hasSuccessfulObservation() == (n > 0), "any"); Vector2d z(0, 0); vp_check(throws([&]() { o.updateImagePoint(N, z); }) && throws([&]() { o.removeImagePoint(N); }) && throws([&]() { o.imagePoint(N, z); }), "index_refused"); std::vector<cv::Point2f> rp; vp_check(throws([&]() { o.getCornerReprojection(boost::shared_ptr<CameraGeometryBase>(), rp); }), "no_pose_refused"); o.setTarget(t); vp_check(!o.hasSuccessfulObservation(), "reset"); vp_check(throws([&]() { o.setTarget(boost::shared_ptr<GT>()); }), "null_refused"); }
// ---- detector: what it reports is what the target found, minus reprojection outliers
struct T3 : T2 { using T2::T2; bool ok; MatrixXd P; std::vector<bool> seen; bool computeObservation(const cv::Mat&, MatrixXd& p, std::vector<bool>& s) const { p = P; s = seen; return ok; } };
struct Geo : PinholeCameraGeometry { bool est; sm::kinematics::Transformation T; std::vector<Vector2d> re; mutable int k = 0; const GO* seenBy = 0; bool estimateTransformation(const GO& o, sm::kinematics::Transformation& out) const { if (est) out = T; return est; } bool vsEuclideanToKeypoint(const Vector3d& p, VectorXd& k0) const { k0 = re[k++ % re.size()]; return true; } };
static void detector(int N, bool filter) { boost::shared_ptr<T3> t(new T3(1, N)); boost::shared_ptr<Geo> g(new Geo); GridDetector::GridDetectorOptions op; op.filterCornerOutliers = filter; op.filterCornerSigmaThreshold = 1; op.filterCornerMinReprojError = 0.25; GridDetector d(g, t, op);
  t->ok = vp_bool("found"); g->est = vp_bool("pose"); t->P.resize(N, 2); std::vector<double> e; int n = 0; for (int i = 0; i < N; i++) { Vector2d p(10 + i, 20 - i); t->P.row(i) = p.transpose(); bool s = i == 0 ? vp_bool("seen") : true; t->seen.push_back(s); if (s) { double q = vp_real_in(vpn("e", i), 0, 5); e.push_back(q); g->re.push_back(p + (i % 2 ? Vector2d(0, q) : Vector2d(-q, 0))); } }
  g->T = sm::kinematics::Transformation(Vector4d(0, 0, 0, 1), Vector3d(1, 2, 3)); GO o(t); cv::Mat im(20, 30, CV_8UC1); o.updateImagePoint(0, Vector2d(7, 7)); bool ok = d.findTarget(im, aslam::Time(3, 5), o); bool want = t->ok && g->est; vp_check(ok == want, "result"); vp_check(o.imRows() == 20 && o.imCols() == 30 && o.time() == aslam::Time(3, 5), "stamped");
  if (want) vp_eq(o.T_t_c().T(), g->T.T(), "pose"); double m = 0, v = 0; for (double q : e) m += q / e.size(); for (double q : e) v += (q - m) * (q - m) / e.size(); for (int i = 0, k = 0; i < N; i++) { Vector2d p(0, 0); bool s = o.imagePoint(i, p); if (!t->seen[i]) { vp_check(!s, "unseen"); continue; } double q = e[k++]; if (!want || !filter) vp_check(s, "kept"); else { bool big = q > 0.25, dev = q > m; bool out = big & dev & ((q - m) * (q - m) > v); vp_check(s == !out, "outlier"); } if (s) vp_eq(p, Vector2d(t->P.row(i).transpose()), "where"); } }
HARNESS(c11_detector) { detector(3, false); }
HARNESS(c11_detector_outliers) { detector(3, true); }
// ---- April grid: every good tag, and only those, lands on the four corners of its own place
static std::vector<AprilTags::TagDetection> found; static bool moved[4];
namespace AprilTags { std::vector<TagDetection> TagDetector::extractTags(const cv::Mat&) { return found; } }
namespace cv { void cornerSubPix(InputArray, InputOutputArray c, Size, Size, TermCriteria) { Mat* m = (Mat*)c.getObj(); for (int i = 0; i < 4 && i < m->rows; i++) if (moved[i]) { m->at<float>(i, 0) += 1.0f; m->at<float>(i, 1) += 0.75f; } } }
HARNESS(c11_april_corners) { const int R = 2, C = 2; AG::AprilgridOptions op; op.minTagsForValidObs = 1; op.doSubpixRefinement = vp_bool("refine"); AG t(R, C, 0.1, 0.3, op); cv::Mat im(100, 200, CV_8UC1); int n = 1 + vp_choice("tags", 2); found.clear(); bool use[2] = {}; double x[2][4], y[2][4]; for (int q = 0; q < 4; q++) moved[q] = false; moved[vp_choice("moved", 4)] = op.doSubpixRefinement && vp_bool("moves");
  for (int k = 0; k < n; k++) { AprilTags::TagDetection d(0); d.id = k == 0 ? vp_choice("id", 6) : (found[0].id + 1) % 4; d.good = k ? true : vp_bool("good"); for (int j = 0; j < 4; j++) { x[k][j] = k || j != 2 ? 50 + 10 * j + k : vp_real_in("x", -50, 250); y[k][j] = k || j != 1 ? 30 + 7 * j - k : vp_real_in("y", -50, 250); x[k][j] = (float)x[k][j]; y[k][j] = (float)y[k][j]; d.p[j] = std::make_pair((float)x[k][j], (float)y[k][j]); } use[k] = d.good && d.id < R * C && (k || ((x[k][2] >= 4) & (x[k][2] <= 196) & (y[k][1] >= 4) & (y[k][1] <= 96))); found.push_back(d); }
  MatrixXd P; std::vector<bool> s; bool ok = t.computeObservation(im, P, s); int m = use[0] + use[1]; vp_check(ok == (m > 0), "result"); if (!ok) return; vp_check(P.rows() == 16 && P.cols() == 2 && s.size() == 16, "sizes"); int cnt = 0; for (bool b : s) cnt += b; int lost = 0;
  int first = -1; for (int k = 0; k < n; k++) if (use[k] && (first < 0 || found[k].id < found[first].id)) first = k; for (int k = 0; k < n; k++) if (use[k]) { int tr = found[k].id / C, tc = found[k].id % C; static const int dr[4] = {0, 0, 1, 1}, dc[4] = {0, 1, 1, 0}; for (int j = 0; j < 4; j++) { int i = t.gridCoordinatesToPoint(2 * tr + dr[j], 2 * tc + dc[j]); bool mv = k == first && moved[j]; vp_check(s[i] == !mv, "observed"); lost += mv; vp_check_eq(P(i, 0), x[k][j] + (mv ? 1 : 0), "x"); vp_check_eq(P(i, 1), y[k][j] + (mv ? 0.75 : 0), "y"); } } vp_check(cnt == 4 * m - lost, "nothing_else"); }
HARNESS(c11_april_too_few) { AG::AprilgridOptions op; op.minTagsForValidObs = vp_choice("min", 4); op.doSubpixRefinement = false; AG t(2, 2, 0.1, 0.3, op); cv::Mat im(100, 200, CV_8UC1); int n = vp_choice("tags", 5); found.clear(); int good = 0; for (int k = 0; k < n; k++) { AprilTags::TagDetection d(0); d.id = n - 1 - k; d.good = vp_bool(vpn("good", k)); good += d.good; for (int j = 0; j < 4; j++) d.p[j] = std::make_pair(50.f + j, 30.f + j); found.push_back(d); } MatrixXd P; std::vector<bool> s; bool ok = t.computeObservation(im, P, s); vp_check(ok == (good >= (int)op.minTagsForValidObs), "result"); int cnt = 0; for (bool b : s) cnt += b; vp_check(cnt == (ok ? 4 * good : 0), "count"); }
