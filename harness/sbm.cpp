#include <Eigen/Core>
#include <Eigen/Dense>
#include <aslam_sparse_block_matrix/sparse_block_matrix.h>
#include <aslam_sparse_block_matrix/matrix_structure.h>
#include <memory>
#include "vp.h"
using namespace Eigen; using namespace aslam_sparse_block_matrix;
typedef SparseBlockMatrix<MatrixXd> M;
typedef std::vector<int> VI;
static VI acc(const VI& s) { VI r; int a = 0; for (int x : s) r.push_back(a += x); return r; }
// fills a block matrix whose set of stored blocks is arbitrary; D is the dense reference
static void fill(M& m, const VI& rs, const VI& cs, const char* n, MatrixXd& D, unsigned mask = ~0u, unsigned on = 0) {
  VI R = acc(rs), C = acc(cs); D = MatrixXd::Zero(R.back(), C.back()); int k = 0;
  for (size_t c = 0; c < cs.size(); c++) for (size_t r = 0; r < rs.size(); r++, k++) {
    bool p = (mask >> k & 1) ? vp_bool(vpn((std::string(n) + "p").c_str(), k)) : (on >> k & 1); if (!p) continue;
    MatrixXd& b = *m.block(r, c, true); for (int i = 0; i < rs[r]; i++) for (int j = 0; j < cs[c]; j++) { double v = vp_real(vpn(vpn(n, k), i, j)); b(i, j) = v; D(R[r] - rs[r] + i, C[c] - cs[c] + j) = v; }
  }
}
static M mk(const VI& rs, const VI& cs) { return M(acc(rs), acc(cs), true); }
static VectorXd vec(const char* n, int k) { VectorXd v(k); for (int i = 0; i < k; i++) v[i] = vp_real(vpn(n, i)); return v; }
static const VI S2{2, 1}, S3{1, 2, 1}, T2{1, 2};
static int nnzb(const M& m) { int k = 0; for (auto& c : m.blockCols()) k += c.size(); return k; }
HARNESS(c14_dense) {
  M m = mk(S2, S3); MatrixXd D; fill(m, S2, S3, "a", D); vp_check(m.rows() == 3 && m.cols() == 4 && m.bRows() == 2 && m.bCols() == 3, "dims"); vp_eq(m.toDense(), D, "toDense");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) vp_check_eq(m(i, j), D(i, j), "element"); size_t nz = 0; for (int c = 0; c < 3; c++) for (int r = 0; r < 2; r++) if (m.isBlockSet(r, c)) { nz += S2[r] * S3[c]; vp_check(m.rowsOfBlock(r) == S2[r] && m.colsOfBlock(c) == S3[c], "block_size"); }
  vp_check(m.nonZeros() == nz && (int)m.nonZeroBlocks() == nnzb(m), "nonZeros");
  bool t = false; try { m(3, 0); } catch (const std::exception&) { t = true; } vp_check(t, "row_range"); t = false; try { m(0, 4); } catch (const std::exception&) { t = true; } vp_check(t, "col_range");
}
HARNESS(c14_block) { M m = mk(S2, S3); int r = vp_choice("r", 2), c = vp_choice("c", 3); vp_check(m.block(r, c) == 0 && m.block(r, c, false) == 0, "absent"); MatrixXd* b = m.block(r, c, true); vp_check(b && b->rows() == S2[r] && b->cols() == S3[c], "alloc"); vp_eq(*b, MatrixXd::Zero(S2[r], S3[c]), "zero"); (*b)(0, 0) = 1; vp_check(m.block(r, c, true) == b && ((const M&)m).block(r, c) == b, "same"); vp_check(m.nonZeroBlocks() == 1, "one"); vp_check_eq((*b)(0, 0), 1, "kept"); }
HARNESS(c14_clone) {
  M m = mk(S2, S3); MatrixXd D; fill(m, S2, S3, "a", D); M c(m); vp_eq(c.toDense(), D, "copy"); vp_check(nnzb(c) == nnzb(m), "copy_structure"); std::unique_ptr<M> k(m.clone()); vp_eq(k->toDense(), D, "clone");
  M o = mk(T2, T2); o.block(1, 1, true)->setOnes(); o = (const M&)m; vp_eq(o.toDense(), D, "assign"); c.scale(2); vp_eq(m.toDense(), D, "independent"); vp_eq(c.toDense(), 2 * D, "scaled"); M s = m * 3.0; vp_eq(s.toDense(), 3 * D, "times"); M v(std::move(c)); vp_eq(v.toDense(), 2 * D, "move");
  M w; w = std::move(v); vp_eq(w.toDense(), 2 * D, "move_assign"); w *= 0.5; vp_eq(w.toDense(), D, "times_assign"); w.clear(); vp_eq(w.toDense(), 0 * D, "clear"); vp_check(nnzb(w) == nnzb(m), "clear_keeps"); w.clear(true); vp_check(nnzb(w) == 0, "dealloc"); vp_eq(m.toDense(), D, "source_untouched");
}
HARNESS(c14_transpose) { M m = mk(S2, S3); MatrixXd D; fill(m, S2, S3, "a", D); auto t = m.transpose(); vp_eq(t.toDense(), D.transpose(), "transpose"); SparseBlockMatrix<MatrixXd>* p = nullptr; vp_check(m.transpose(p), "ok"); vp_eq(p->toDense(), D.transpose(), "transpose_into"); delete p;
  M bad = mk(S2, S3), *q = &bad; vp_check(!m.transpose(q), "refused"); }
HARNESS(c14_add) { M a = mk(S2, S2), b = mk(S2, S2); MatrixXd A, B; fill(a, S2, S2, "a", A); fill(b, S2, S2, "b", B); M* p = &b; vp_check(a.add(p), "ok"); vp_eq(b.toDense(), A + B, "add"); vp_eq(a.toDense(), A, "kept"); p = nullptr; vp_check(a.add(p), "ok_new"); vp_eq(p->toDense(), A, "add_new"); delete p; M bad = mk(S2, T2), *q = &bad; vp_check(!a.add(q), "refused"); }
HARNESS(c14_multiply) { M a = mk(S2, S3), b = mk(S3, T2); MatrixXd A, B; fill(a, S2, S3, "a", A); fill(b, S3, T2, "b", B, 0x5, 0x32); auto c = a * b; vp_eq(c.toDense(), A * B, "product"); M bad = mk(S2, T2); bool t = false; try { a * bad; } catch (const std::exception&) { t = true; } vp_check(t, "refused"); }
HARNESS(c14_vector) { M m = mk(S2, S3); MatrixXd D; fill(m, S2, S3, "a", D); VectorXd x = vec("x", 4), y = vec("y", 3), r(3), s(4); r.setOnes(); s.setOnes(); m.multiply(&r, x); vp_eq(r, D * x, "Ax"); m.rightMultiply(&s, y); vp_eq(s, D.transpose() * y, "ATy");
  double* d = nullptr; m.multiply(d, &x[0]); for (int i = 0; i < 3; i++) vp_check_eq(d[i], (D * x)(i), "Ax_raw"); delete[] d; d = nullptr; m.rightMultiply(d, &y[0]); for (int i = 0; i < 4; i++) vp_check_eq(d[i], (D.transpose() * y)(i), "ATy_raw"); delete[] d; }
HARNESS(c14_slice) { M m = mk(S3, S3); MatrixXd D; fill(m, S3, S3, "a", D, 0x11, 0xe4); int a = vp_choice("a", 3), b = a + 1 + vp_choice("b", 3 - a), c = vp_choice("c", 3), d = c + 1 + vp_choice("d", 3 - c); VI R = acc(S3); int r0 = R[a] - S3[a], c0 = R[c] - S3[c]; MatrixXd E = D.block(r0, c0, R[b - 1] - r0, R[d - 1] - c0);
  std::unique_ptr<M> s(m.slice(a, b, c, d)); vp_eq(s->toDense(), E, "slice"); s->scale(2); vp_eq(m.toDense(), D, "deep"); { std::unique_ptr<M> v(m.slice(a, b, c, d, false)); vp_eq(v->toDense(), E, "view"); } vp_eq(m.toDense(), D, "view_released");
  M o = mk(VI(S3.begin() + a, S3.begin() + b), VI(S3.begin() + c, S3.begin() + d)); o.block(0, 0, true)->setOnes(); m.sliceInto(a, b, c, d, o); vp_eq(o.toDense(), E, "sliceInto"); }
HARNESS(c14_permutation) { M m = mk(S3, S3); MatrixXd D; fill(m, S3, S3, "a", D, 0x1d9); int p[3]; p[0] = vp_choice("p0", 3); p[1] = vp_choice("p1", 3); p[2] = 3 - p[0] - p[1]; vp_assume(p[0] != p[1] && p[2] >= 0 && p[2] < 3 && p[2] != p[0] && p[2] != p[1]);
  VI ns(3); for (int i = 0; i < 3; i++) ns[p[i]] = S3[i]; VI N = acc(ns), O = acc(S3); MatrixXd E(4, 4); E.setZero(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int a = 0; a < S3[i]; a++) for (int b = 0; b < S3[j]; b++) E(N[p[i]] - S3[i] + a, N[p[j]] - S3[j] + b) = D(O[i] - S3[i] + a, O[j] - S3[j] + b);
  M* q = nullptr; vp_check(m.symmPermutation(q, p), "ok"); vp_eq(q->toDense(), E, "permuted"); vp_check(m.symmPermutation(q, p), "ok_again"); vp_eq(q->toDense(), E, "permuted_again"); delete q;
  // symmetric matrix given by its upper triangle
  M u = mk(S3, S3); MatrixXd U; for (int j = 0; j < 3; j++) for (int i = 0; i <= j; i++) if (m.block(i, j)) *u.block(i, j, true) = *m.block(i, j); U = u.toDense(); q = nullptr; u.symmPermutation(q, p, true); MatrixXd Q = q->toDense();
  for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { int lo = p[i] < p[j] ? p[i] : p[j], hi = p[i] + p[j] - lo; for (int a = 0; a < S3[i]; a++) for (int b = 0; b < S3[j]; b++) { int x = N[p[i]] - S3[i] + a, y = N[p[j]] - S3[j] + b; vp_check_eq(p[i] == lo ? Q(x, y) : Q(y, x), U(O[i] - S3[i] + a, O[j] - S3[j] + b), "upper"); (void)hi; } } delete q; }
HARNESS(c14_ccs) { M m = mk(S2, S3); MatrixXd D; fill(m, S2, S3, "a", D); int n = m.nonZeros(); VI cp(5, -1), ci(n + 1, -1); std::vector<double> cx(n + 1, 0.), cy(n + 1, 0.); vp_check(m.fillCCS(cp.data(), ci.data(), cx.data()) == n && cp[4] == n && cp[0] == 0, "count"); vp_check(m.fillCCS<int>(cy.data()) == n, "count_values"); MatrixXd E = MatrixXd::Zero(3, 4);
  for (int j = 0; j < 4; j++) for (int k = cp[j]; k < cp[j + 1]; k++) { vp_check(ci[k] >= 0 && ci[k] < 3 && (k == cp[j] || ci[k] > ci[k - 1]), "rows_sorted"); E(ci[k], j) = cx[k]; vp_check_eq(cy[k], cx[k], "values_only"); } vp_eq(E, D, "ccs"); }
HARNESS(c14_ccs_upper) { M m = mk(S3, S3); MatrixXd D; fill(m, S3, S3, "a", D, 0x1d9 & ~0u, 0); for (int j = 0; j < 3; j++) for (int i = j + 1; i < 3; i++) vp_assume(m.block(i, j) == 0); VI cp(5, -1), ci(20, -1); std::vector<double> cx(20, 0.), cy(20, 0.); int n = m.fillCCS(cp.data(), ci.data(), cx.data(), true); vp_check(n == cp[4], "count"); vp_check(m.fillCCS<int>(cy.data(), true) == n, "count_values"); MatrixXd E = MatrixXd::Zero(4, 4);
  for (int j = 0; j < 4; j++) for (int k = cp[j]; k < cp[j + 1]; k++) { vp_check(ci[k] >= 0 && ci[k] <= j && (k == cp[j] || ci[k] > ci[k - 1]), "upper_only"); E(ci[k], j) = cx[k]; vp_check_eq(cy[k], cx[k], "values_only"); } for (int j = 0; j < 4; j++) for (int i = 0; i <= j; i++) vp_check_eq(E(i, j), D(i, j), "ccs"); }
HARNESS(c14_structure) { M m = mk(S2, S3); MatrixXd D; fill(m, S2, S3, "a", D); MatrixStructure ms; m.fillBlockStructure(ms); vp_check(ms.m == 2 && ms.n == 3 && ms.nzMax() <= nnzb(m), "dims"); for (int c = 0; c < 3; c++) { int k = ms.Ap[c]; for (int r = 0; r <= c && r < 2; r++) if (m.block(r, c)) vp_check(k < ms.Ap[c + 1] && ms.Aii[k++] == r, "rows"); vp_check(k == ms.Ap[c + 1], "column"); } }
