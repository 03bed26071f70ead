#include <aslam_time/Time.hpp>
#include <aslam_time/Duration.hpp>
#include <sm_timing/NsecTimeUtilities.hpp>
#include <aslam_time/implementation/Duration.hpp>
#include <aslam_time/implementation/Time.hpp>
#include "vp.h"
using namespace aslam;
static const int64_t G = 1000000000ll;
static Duration D(const char* n, int64_t lim = 1000000000ll) { int32_t s = (int32_t)vp_u32(vpn(n, 0)), f = (int32_t)vp_u32(vpn(n, 1)); vp_assume(s >= -lim && s <= lim && f >= 0 && f < G); Duration d; d.sec = s; d.nsec = f; return d; }
static Time T(const char* n, uint32_t lim = 0xffffffffu) { uint32_t s = vp_u32(vpn(n, 0)), f = vp_u32(vpn(n, 1)); vp_assume(s <= lim && f < G); Time t; t.sec = s; t.nsec = f; return t; }
template <class X> static bool norm(const X& d) { return (int64_t)d.nsec >= 0 && (int64_t)d.nsec < G; }

// the expected value is stated as (seconds, nanoseconds) with one carry, so that no 64-bit product is needed to compare
struct SN { int64_t s, n; };
static SN carry(int64_t s, int64_t n) { while (n >= G) { n -= G; ++s; } while (n < 0) { n += G; --s; } return SN{s, n}; }
template <class X> static bool is(const X& d, const SN& e) { return (int64_t)d.sec == e.s && (int64_t)d.nsec == e.n; }
static bool fits(const SN& e, bool sgn) { return sgn ? e.s >= -2147483648ll && e.s <= 2147483647ll : e.s >= 0 && e.s <= 4294967295ll; }
HARNESS(c01_duration_ctor) { int32_t s = (int32_t)vp_u32("s"), f = (int32_t)vp_u32("f"); SN e = carry(s, f); bool t = false; try { Duration d(s, f); vp_check(is(d, e), "value"); } catch (const std::exception&) { t = true; } vp_check(t == !fits(e, true), "range"); }
HARNESS(c01_duration_sum) { Duration a = D("a"), b = D("b"), c = a + b; vp_check(is(c, carry((int64_t)a.sec + b.sec, (int64_t)a.nsec + b.nsec)), "sum"); Duration e = a; e += b; vp_check(e == c, "sum_assign"); }
HARNESS(c01_duration_diff) { Duration a = D("a"), b = D("b"), c = a - b; vp_check(is(c, carry((int64_t)a.sec - b.sec, (int64_t)a.nsec - b.nsec)), "difference"); Duration e = a; e -= b; vp_check(e == c, "diff_assign"); }
HARNESS(c01_duration_neg) { Duration a = D("a"), c = -a; vp_check(is(c, carry(-(int64_t)a.sec, -(int64_t)a.nsec)), "negation"); vp_check(a.isZero() == (a.sec == 0 && a.nsec == 0), "isZero"); }
template <class X> static void order(const X& a, const X& b) { bool lt = a.sec < b.sec || (a.sec == b.sec && a.nsec < b.nsec), eq = a.sec == b.sec && a.nsec == b.nsec;
  vp_check((a < b) == lt, "<"); vp_check((a <= b) == (lt || eq), "<="); vp_check((a > b) == (!lt && !eq), ">"); vp_check((a >= b) == !lt, ">="); vp_check((a == b) == eq, "=="); vp_check((a != b) == !eq, "!="); }
HARNESS(c01_duration_order) { Duration a = D("a", 2147483647), b = D("b", 2147483647); order(a, b); }
HARNESS(c01_duration_nsec) { Duration a = D("a", 2147483647); vp_check(a.toNSec() == (int64_t)a.sec * G + a.nsec, "toNSec"); int64_t t = (int64_t)vp_u64("t"); vp_assume(t > -2147483648ll * G && t < 2147483647ll * G); Duration d; d.fromNSec(t); vp_check(is(d, carry(t / G, t % G)), "fromNSec"); }
HARNESS(c01_time_ctor) { uint32_t s = vp_u32("s"), f = vp_u32("f"); SN e = carry(s, f); vp_assume(e.s < 4294967296ll); Time t(s, f); vp_check(is(t, e), "value"); }
HARNESS(c01_time_order) { Time a = T("a"), b = T("b"); order(a, b); vp_check(a.isZero() == (a.sec == 0 && a.nsec == 0) && a.is_zero() == a.isZero(), "isZero"); }
HARNESS(c01_time_nsec) { Time a = T("a"); vp_check(a.toNSec() == (uint64_t)a.sec * G + a.nsec, "toNSec"); uint64_t t = vp_u64("t"); vp_assume(t < 4294967296ull * G); Time d; d.fromNSec(t); vp_check(is(d, SN{(int64_t)(t / G), (int64_t)(t % G)}), "fromNSec"); }
HARNESS(c01_time_plus) { Time a = T("a"); Duration d = D("d", 2147483647); SN v = carry((int64_t)a.sec + d.sec, (int64_t)a.nsec + d.nsec); bool t = false; Time r; try { r = a + d; } catch (const std::exception&) { t = true; }
  vp_check(t == !fits(v, false), "range"); if (!t) { vp_check(is(r, v), "sum"); } bool t2 = false; Time b = a; try { b += d; } catch (const std::exception&) { t2 = true; } vp_check(t2 == t, "sum_assign_range"); if (!t && !t2) vp_check(is(b, v), "sum_assign"); }
HARNESS(c01_time_minus) { Time a = T("a"); Duration d = D("d"); SN v = carry((int64_t)a.sec - d.sec, (int64_t)a.nsec - d.nsec); bool t = false; Time r; try { r = a - d; } catch (const std::exception&) { t = true; }
  vp_check(t == !fits(v, false), "range"); if (!t) { vp_check(is(r, v), "difference"); } bool t2 = false; Time b = a; try { b -= d; } catch (const std::exception&) { t2 = true; } vp_check(t2 == t, "diff_assign_range"); if (!t && !t2) vp_check(is(b, v), "diff_assign"); }
HARNESS(c01_time_diff) { Time a = T("a", 2147483647u), b = T("b", 2147483647u); Duration d = a - b; vp_check(is(d, carry((int64_t)a.sec - b.sec, (int64_t)a.nsec - b.nsec)), "difference"); Time r = b + d; vp_check(r == a, "b+(a-b)=a"); }
HARNESS(c01_wall_ctor) { uint32_t s = vp_u32("s"), f = vp_u32("f"); vp_assume(s < 1000000000u); WallTime t(s, f); vp_check(is(t, carry(s, f)), "time"); int32_t p = (int32_t)vp_u32("p"), q = (int32_t)vp_u32("q"); vp_assume(p > 5 && p < 1000000000); WallDuration d(p, q); vp_check(is(d, carry(p, q)), "duration"); }
HARNESS(c01_wall) { WallTime t; t.sec = vp_u32("s"); t.nsec = vp_u32("f"); WallDuration d; d.sec = (int32_t)vp_u32("p"); d.nsec = (int32_t)vp_u32("q"); vp_assume(t.sec < 1000000000u && t.nsec < G && d.sec >= 0 && d.sec < 1000000000 && d.nsec >= 0 && d.nsec < G);
  WallTime r = t + d; vp_check(is(r, carry((int64_t)t.sec + d.sec, (int64_t)t.nsec + d.nsec)), "sum"); vp_check(r - t == d, "difference"); vp_check(r - d == t, "minus"); }
HARNESS(c01_nsec_util) { int64_t n = (int64_t)vp_u64("n"); vp_check(sm::timing::chronoToNsec(sm::timing::nsecToChrono(n)) == n, "chrono"); }
// decimal seconds, in IEEE arithmetic: always normalised, and the value to a nanosecond
HARNESS(c01_duration_sec_ieee) { double x = vp_real_in("x", -1e9, 1e9); Duration d(x); vp_check(norm(d), "normalised"); }
HARNESS(c01_duration_secval_ieee) { double x = vp_real_in("x", -4, 4); Duration d(x); double f = x - (double)d.sec; vp_check(f >= -2e-9 && f <= 1.0, "seconds"); }
HARNESS(c01_time_sec_ieee) { double x = vp_real_in("x", 0, 4e9); Time t(x); vp_check(norm(t), "normalised"); }
HARNESS(c01_time_secval_ieee) { double x = vp_real_in("x", 0, 4); Time t(x); double f = x - (double)t.sec; vp_check(f >= -1e-6 && f < 1.0, "seconds"); }
static bool close(double a, double b, double e) { return a == b || (a - b <= e && b - a <= e); }
HARNESS(c01_sec_out_ieee) { Duration d = D("d"); vp_check(close(d.toSec(), (double)d.sec + 1e-9 * (double)d.nsec, 1e-6), "duration"); Time t = T("t"); vp_check(close(t.toSec(), (double)t.sec + 1e-9 * (double)t.nsec, 1e-6), "time"); }
HARNESS(c01_nsec_sec_ieee) { int64_t n = (int64_t)vp_u64("n"); vp_check(close(sm::timing::nsecToSec(n), (double)n * 1e-9, 1e-6), "nsecToSec"); }
