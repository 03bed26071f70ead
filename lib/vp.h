// Interface between a harness and the solver-based checker (symbolic run) or the replay runtime (native run).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
double vp_real(const char* name);                          // any real
double vp_real_in(const char* name, double lo, double hi); // any real in [lo,hi]
double vp_var(const char* name);                           // any real; the same one whenever asked again
void vp_unit_var(const char* name, double* out, uint64_t n);
double vp_eps(const char* name);                           // positive infinitesimal, only to be used with vp_diff0
void vp_unit(const char* name, double* out, uint64_t n);   // any vector of Euclidean norm 1
uint64_t vp_u64(const char* name);
uint32_t vp_u32(const char* name);
uint16_t vp_u16(const char* name);
uint8_t vp_u8(const char* name);
int vp_bool(const char* name);                             // forks
int vp_choice(const char* name, uint64_t n);               // forks: 0..n-1
void vp_assume(int c);
void vp_check(int c, const char* label);
void vp_check_eq(double a, double b, const char* label);
double vp_diff(double e, const char* var);                 // d e / d var
double vp_diff0(double e, const char* epsvar);             // d e / d eps at eps = 0
double vp_uf(const char* name, uint64_t n, const double* args);               // an arbitrary smooth function
double vp_uf_d(const char* name, uint64_t n, const double* args, uint64_t i); // its partial derivative
void vp_reach(const char* label);
void vp_round_sqrt();   // from here on roots of known numbers are rational approximations (relative error below 1e-70)
int vp_symbolic();
void vp_fail(const char* label);
void vp_print(const char* n, double v);
}
#ifdef __cplusplus
#include <string>
// label / name helpers without std::string formatting cost
struct VpName { char b[96]; operator const char*() const { return b; } };
static inline VpName vpn(const char* s, int i = -1, int j = -1) {
  VpName r; int k = 0; while (s[k] && k < 70) { r.b[k] = s[k]; k++; }
  for (int q = 0; q < 2; q++) { int v = q ? j : i; if (v < 0) continue; r.b[k++] = '_'; if (v >= 100) r.b[k++] = '0' + v / 100; if (v >= 10) r.b[k++] = '0' + v / 10 % 10; r.b[k++] = '0' + v % 10; }
  r.b[k] = 0; return r;
}
#define HARNESS(name) extern "C" __attribute__((used, noinline)) void h_##name()
#ifdef EIGEN_CORE_H
template <int N> Eigen::Matrix<double, N, 1> vp_vec(const char* n) { Eigen::Matrix<double, N, 1> v; for (int i = 0; i < N; i++) v(i) = vp_real(vpn(n, i)); return v; }
template <int N> Eigen::Matrix<double, N, 1> vp_vec_in(const char* n, double lo, double hi) { Eigen::Matrix<double, N, 1> v; for (int i = 0; i < N; i++) v(i) = vp_real_in(vpn(n, i), lo, hi); return v; }
template <int R, int C> Eigen::Matrix<double, R, C> vp_mat(const char* n) { Eigen::Matrix<double, R, C> v; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) v(i, j) = vp_real(vpn(n, i, j)); return v; }
static inline Eigen::Vector4d vp_quat(const char* n) { Eigen::Vector4d q; vp_unit(n, q.data(), 4); return q; }
template <class A, class B> void vp_eq(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, const char* label) {
  vp_check(a.rows() == b.rows() && a.cols() == b.cols(), "dimensions");
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) vp_check_eq(a(i, j), b(i, j), vpn(label, i, j));
}
#endif
#endif
