#include <sm_timing/TimestampCorrector.hpp>
#include "vp.h"
#include <vector>
#include <cmath>
using sm::timing::TimestampCorrector; typedef TimestampCorrector<double> TC;
struct Q { double x, y; };
static bool grew(TC& c, double x, double y, double& out) { try { out = c.correctTimestamp(x, y); return true; } catch (TC::TimeWentBackwardsException&) { return false; } }
// the lower convex hull of the points by its definition: i is on it unless it is strictly above a chord of two others around it
static double hullAt(const std::vector<Q>& p, double m) { double best = 0; bool any = false; for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) if (p[i].x <= m && m <= p[j].x) { double v = p[i].y + (m - p[i].x) * (p[j].y - p[i].y) / (p[j].x - p[i].x); if (!any || v < best) best = v; any = true; } return best; }
static void history(const std::vector<Q>& p, bool below) {
  TC c; double out = 0; for (size_t i = 0; i < p.size(); i++) {
    bool ok = grew(c, p[i].x, p[i].y, out); vp_check(ok, "accepted"); size_t h = c.convexHullSize(); vp_check(h >= (i == 0 ? 1u : 2u) && h <= i + 1, "hull_size");
    if (i == 0) { vp_check_eq(out, p[0].y, "first"); bool t = false; try { c.getLocalTime(0); } catch (TC::NotInitializedException&) { t = true; } vp_check(t, "one_point_refused"); continue; }
    if (h < 3) vp_check_eq(out, p[i].y, "too_few_points"); else vp_check_eq(out, c.getLocalTime(p[i].x), "returns_estimate"); }
  double a = c.getLocalTime(0), s = c.getSlope(), o = c.getOffset(); vp_check_eq(a, o, "offset"); double q = vp_var("q"); vp_check_eq(c.getLocalTime(q), o + s * q, "affine");
  size_t n = p.size(); double m = (p[0].x + p[n - 1].x) / 2; if (below) { for (size_t i = 0; i < n; i++) vp_check(c.getLocalTime(p[i].x) <= p[i].y + (vp_symbolic() ? 0 : 1e-9 * (1 + std::abs(p[i].y))), "never_after_arrival"); vp_check_eq(c.getLocalTime(m), hullAt(p, m), "supports_the_hull_at_the_midpoint"); }
  double bx = vp_var("bx"); if (bx <= p[n - 1].x) { double o2 = 0; size_t h = c.convexHullSize(); vp_check(!grew(c, bx, vp_var("by"), o2), "backwards_refused"); vp_check(c.convexHullSize() == h, "unchanged"); vp_check_eq(c.getSlope(), s, "unchanged"); } }
HARNESS(c23_three_points) { std::vector<Q> p; for (int i = 0; i < 3; i++) { p.push_back({vp_var(vpn("x", i)), vp_var(vpn("y", i))}); if (i) vp_assume(p[i].x > p[i - 1].x); } history(p, true); }
HARNESS(c23_four_points) { static const double X[3][4] = {{0, 1, 2, 3}, {-1, 0, 4, 5}, {0, 1, 1.5, 8}}; int k = vp_choice("times", 3); std::vector<Q> p; for (int i = 0; i < 4; i++) p.push_back({X[k][i], vp_var(vpn("y", i))}); history(p, true); }
HARNESS(c23_five_points) { static const double X[2][5] = {{0, 1, 2, 3, 4}, {0, 0.5, 3, 4, 10}}; int k = vp_choice("times", 2); std::vector<Q> p; for (int i = 0; i < 5; i++) p.push_back({X[k][i], vp_var(vpn("y", i))}); history(p, true); }
// remote clock a affine function of the local one and one message without delay in each half: the estimate is exact
HARNESS(c23_exact_clock) { double r = vp_real_in("rate", 0.5, 2), o = vp_var("offset"); static const double X[5] = {0, 1, 2.5, 3, 4}; std::vector<Q> p; for (int i = 0; i < 5; i++) { double d = i == 0 || i == 3 || i == 4 ? 0 : vp_real_in(vpn("delay", i), 0, 100); p.push_back({X[i], o + r * X[i] + d}); } TC c; for (auto& q : p) c.correctTimestamp(q.x, q.y); double t = vp_var("t"); vp_check_eq(c.getLocalTime(t), o + r * t, "exact"); }
HARNESS(c23_four_points_any_times) { std::vector<Q> p; for (int i = 0; i < 4; i++) { p.push_back({vp_var(vpn("x", i)), vp_var(vpn("y", i))}); if (i) vp_assume(p[i].x > p[i - 1].x); } history(p, true); }
HARNESS(c23_six_points) { static const double X[1][6] = {{0, 1, 2, 3.5, 5, 6}}; std::vector<Q> p; for (int i = 0; i < 6; i++) p.push_back({X[0][i], vp_var(vpn("y", i))}); history(p, true); }
