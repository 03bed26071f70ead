#include "expr_lib.hpp"
typedef EuclideanExpression EE; typedef RotationExpression RE; typedef HomogeneousExpression HE; typedef ScalarExpression SE; typedef TransformationExpression TE;

// ---- C16 Euclidean, homogeneous and scalar expressions
HARNESS(c16_point) { P3 p("p"); euc(EE(&p), {&p}); vp_eq(EE(&p).toEuclidean(), v3("p"), "value"); }
HARNESS(c16_constant) { Vector3d c = v3("c"); EE e(c); vp_eq(e.toEuclidean(), c, "value"); euc(e, {}); }
HARNESS(c16_add) { P3 p("p"), q("q"); EE e = EE(&p) + EE(&q); vp_eq(e.toEuclidean(), v3("p") + v3("q"), "value"); euc(e, {&p, &q}); }
HARNESS(c16_sub) { P3 p("p"), q("q"); EE e = EE(&p) - EE(&q); vp_eq(e.toEuclidean(), v3("p") - v3("q"), "value"); euc(e, {&p, &q}); }
HARNESS(c16_sub_vector) { P3 p("p"); Vector3d c = v3("c"); EE e = EE(&p) - c; vp_eq(e.toEuclidean(), v3("p") - c, "value"); euc(e, {&p}); }
HARNESS(c16_neg) { P3 p("p"); EE e = -EE(&p); vp_eq(e.toEuclidean(), -v3("p"), "value"); euc(e, {&p}); }
HARNESS(c16_cross) { P3 p("p"), q("q"); EE e = EE(&p).cross(EE(&q)); vp_eq(e.toEuclidean(), v3("p").cross(v3("q")), "value"); euc(e, {&p, &q}); }
HARNESS(c16_elementwise) { P3 p("p"), q("q"); EE e = EE(&p).elementwiseMultiply(EE(&q)); vp_eq(e.toEuclidean(), v3("p").cwiseProduct(v3("q")), "value"); euc(e, {&p, &q}); }
HARNESS(c16_scale) { P3 p("p"); SC s("s"); EE e = EE(&p) * SE(&s); vp_eq(e.toEuclidean(), v3("p") * vp_real("s"), "value"); euc(e, {&p, &s}); }
HARNESS(c16_shared) { P3 p("p"), q("q"); SC s("s"); EE a(&p), b(&q); EE e = (a.cross(b) - a) * (SE(&s) * SE(&s)) + (-b).elementwiseMultiply(a); Vector3d P = v3("p"), Q = v3("q"); double S = vp_real("s"); vp_eq(e.toEuclidean(), (P.cross(Q) - P) * S * S - Q.cwiseProduct(P), "value"); euc(e, {&p, &q, &s}); }
HARNESS(c16_rotate) { P3 p("p"); RQ R("R"); EE e = RE(&R) * EE(&p); vp_eq(e.toEuclidean(), sk::quat2r(vp_quat("R")) * v3("p"), "value"); euc(e, {&R, &p}); }
HARNESS(c16_rotate_shared) { P3 p("p"), q("q"); RQ R("R"); EE e = RE(&R) * (EE(&p) + RE(&R) * EE(&q)); euc(e, {&R, &p, &q}); }
HARNESS(c16_to_homogeneous) { P3 p("p"); HE h = EE(&p).toHomogeneousExpression(); Vector4d w; w << v3("p"), 1; vp_eq(h.toHomogeneous(), w, "value"); hom(h, {&p}); }
HARNESS(c16_hom_point) { HP h("h"); vp_eq(HE(&h).toHomogeneous(), vp_quat("h"), "value"); hom(HE(&h), {&h}); }
HARNESS(c16_hom_constant) { Vector3d a = v3("a"); Vector4d b = vp_vec<4>("b"), w; w << a, 1; HE e(a), f(b); vp_eq(e.toHomogeneous(), w, "value3"); vp_eq(f.toHomogeneous(), b, "value4"); hom(e, {}); }
HARNESS(c16_from_homogeneous) { HP h("h"); Vector4d q = vp_quat("h"); vp_assume(q[3] * q[3] >= 1e-4); EE e = HE(&h).toEuclideanExpression(); vp_eq(e.toEuclidean(), q.head<3>() / q[3], "value"); euc(e, {&h}); }
HARNESS(c16_vector_adapter) { DesignVariableVector<3> v(v3("v")); EE e(v.toExpression()); vp_eq(e.toEuclidean(), v3("v"), "value"); euc(e, {&v}); }
HARNESS(c16_direction) { EuclideanDirection d(Vector3d(vp_real_in("x", -5, 5), vp_real_in("y", -5, 5), vp_real_in("z", 0.1, 5))); vp_eq(EE(&d).toEuclidean(), Vector3d(vp_real("x"), vp_real("y"), vp_real("z")), "value"); euc(EE(&d), {&d}); }
HARNESS(c16_scalar) { SC a("a"), b("b"), c("c"); double A = vp_real("a"), B = vp_real("b"), C = vp_real("c"); vp_assume(C * C > 1e-6); SE e = (SE(&a) + SE(&b) * SE(&a) - SE(&b)) / SE(&c); vp_check_eq(e.toScalar(), (A + B * A - B) / C, "value"); sca(e, {&a, &b, &c}); }
HARNESS(c16_scalar_constants) { SC a("a"); double k = vp_real("k"), A = vp_real("a"); vp_assume(k * k > 1e-6); SE x(&a); vp_check_eq((x + k).toScalar(), A + k, "add"); vp_check_eq((x - k).toScalar(), A - k, "sub"); vp_check_eq((x * k).toScalar(), A * k, "mul"); vp_check_eq((x / k).toScalar(), A / k, "div"); vp_check_eq(SE(k).toScalar(), k, "const"); int w = vp_choice("op", 4); SE e = w == 0 ? x + k : w == 1 ? x - k : w == 2 ? x * k : x / k; sca(e, {&a}); }
HARNESS(c16_scalar_inverse) { SC a("a"); double A = vp_real("a"); vp_assume(A * A > 1e-6); SE e = SE(1.0) / SE(&a); vp_check_eq(e.toScalar(), 1 / A, "value"); sca(e, {&a}); }
HARNESS(c16_scalar_from_vector) { DesignVariableVector<1> v(vp_vec<1>("v")); SE e = v.toExpression().toScalarExpression(); vp_check_eq(e.toScalar(), vp_real("v_0"), "value"); sca(e, {&v}); }
HARNESS(c16_matrix_basic) { Matrix3d M = vp_mat<3, 3>("M"); MatrixBasic m(M); P3 p("p"); EE e = MatrixExpression(&m) * EE(&p); vp_eq(e.toEuclidean(), M * v3("p"), "value"); euc(e, {&m, &p}); }
HARNESS(c16_matrix_basic_pattern) { Matrix3d M = vp_mat<3, 3>("M"); Matrix3i U; for (int i = 0; i < 9; i++) U(i / 3, i % 3) = i == 0 || i == 8 ? 0 : (i % 2 ? vp_bool(vpn("u", i)) : i == 4); if (U.sum() == 0) return; MatrixBasic m(M, U); vp_check(m.minimalDimensions() == U.sum(), "dims"); P3 p("p"); EE e = MatrixExpression(&m) * EE(&p); euc(e, {&m, &p}); }
HARNESS(c16_error_term) { P3 p("p"); Vector3d c = v3("c"); double w = vp_real_in("w", 0.1, 10); ErrorTermEuclidean et(EE(&p) * SE(2.0), c, w); double x = et.evaluateError(); Vector3d r = 2 * v3("p") - c; vp_eq(et.error(), r, "error"); vp_check_eq(x, w * r.squaredNorm(), "cost"); p.setBlockIndex(0); p.setActive(true); JacobianContainer jc(3); et.evaluateJacobians(jc); vp_eq(jacOf(jc, &p), 2 * Matrix3d::Identity(), "J"); vp_check(et.numDesignVariables() == 1, "dvs"); }
// ---- C17 rotation and transformation expressions
HARNESS(c17_quaternion) { RQ R("R"); vp_eq(RE(&R).toRotationMatrix(), sk::quat2r(vp_quat("R")), "value"); rot(RE(&R), {&R}); }
HARNESS(c17_multiply) { RQ R("R"), S("S"); RE e = RE(&R) * RE(&S); vp_eq(e.toRotationMatrix(), sk::quat2r(vp_quat("R")) * sk::quat2r(vp_quat("S")), "value"); rot(e, {&R, &S}); }
HARNESS(c17_inverse) { RQ R("R"); RE e = RE(&R).inverse(); vp_eq(e.toRotationMatrix(), sk::quat2r(vp_quat("R")).transpose(), "value"); rot(e, {&R}); }
HARNESS(c17_shared) { RQ R("R"), S("S"); RE e = RE(&R) * (RE(&S).inverse() * RE(&R)); rot(e, {&R, &S}); }
HARNESS(c17_vector_adapter) { DesignVariableVector<4> v(vp_quat("v")); RE e = Vector2RotationQuaternionExpressionAdapter::adapt(v.toExpression()); boost::shared_ptr<RotationExpressionNode> n = e.root(); vp_eq(e.toRotationMatrix(), sk::quat2r(vp_quat("v")), "value");
  // a four-vector leaves the sphere: only tangential directions are rotations
  v.setBlockIndex(0); v.setActive(true); JacobianContainer jc(3), jc2(2); e.evaluateJacobians(jc); MatrixXd A = mat("A", 2, 3); n->evaluateJacobians(jc2, A); MatrixXd J = jacOf(jc, &v); vp_eq(jacOf(jc2, &v), A * J, "chain"); Vector4d q = vp_quat("v"); Matrix3d C = sk::quat2r(q);
  Vector4d T[3] = {Vector4d(q[3], q[2], -q[1], -q[0]), Vector4d(-q[2], q[3], q[0], -q[1]), Vector4d(q[1], -q[0], q[3], -q[2])};
  for (int k = 0; k < 3; k++) { VpName en = vpn("e", k); Vector4d d = T[k] * vp_eps(en); v.update(d.data(), 4); Matrix3d D = d0(e.toRotationMatrix(), en); v.revertUpdate(); vp_eq(J * T[k], tangent(ROT, C, D), vpn("J", k)); } }
static TE mk(RQ& R, P3& p) { return TE(RE(&R), EE(&p)); }
static Matrix4d mT(const Matrix3d& C, const Vector3d& t) { Matrix4d T = Matrix4d::Identity(); T.topLeftCorner<3, 3>() = C; T.topRightCorner<3, 1>() = t; return T; }
HARNESS(c17_t_basic) { RQ R("R"); P3 p("p"); TE e = mk(R, p); vp_eq(e.toTransformationMatrix(), mT(sk::quat2r(vp_quat("R")), v3("p")), "value"); trf(e, {&R, &p}); }
HARNESS(c17_t_constant) { Matrix4d M = vp_mat<4, 4>("M"); TE e(M); vp_eq(e.toTransformationMatrix(), M, "value"); DVar::set_t s; e.getDesignVariables(s); vp_check(s.empty(), "no_dv"); JacobianContainer jc(6); e.evaluateJacobians(jc); vp_check(jc.numDesignVariables() == 0, "no_jac"); }
HARNESS(c17_t_multiply) { RQ R("R"), S("S"); P3 p("p"), q("q"); TE e = mk(R, p) * mk(S, q); vp_eq(e.toTransformationMatrix(), mT(sk::quat2r(vp_quat("R")), v3("p")) * mT(sk::quat2r(vp_quat("S")), v3("q")), "value"); trf(e, {&R, &p, &S, &q}); }
HARNESS(c17_t_inverse) { RQ R("R"); P3 p("p"); TE e = mk(R, p).inverse(); Matrix3d C = sk::quat2r(vp_quat("R")); vp_eq(e.toTransformationMatrix(), mT(C.transpose(), -C.transpose() * v3("p")), "value"); trf(e, {&R, &p}); }
HARNESS(c17_t_shared) { RQ R("R"); P3 p("p"), q("q"); TE a = mk(R, p), e = a * TE(RE(&R).inverse(), EE(&q)); trf(e, {&R, &p, &q}); }
HARNESS(c17_t_point) { RQ R("R"); P3 p("p"); HP h("h"); HE e = mk(R, p) * HE(&h); vp_eq(e.toHomogeneous(), mT(sk::quat2r(vp_quat("R")), v3("p")) * vp_quat("h"), "value"); hom(e, {&R, &p, &h}); }
HARNESS(c17_t_rotation) { RQ R("R"), S("S"); P3 p("p"), q("q"); TE t = mk(R, p) * mk(S, q); RE e = t.toRotationExpression(); DVs dv{&R, &p, &S, &q}; rot(e, dv); }
HARNESS(c17_t_translation) { RQ R("R"), S("S"); P3 p("p"), q("q"); TE t = mk(R, p) * mk(S, q); EE e = t.toEuclideanExpression(); euc(e, {&R, &p, &S, &q}); }
HARNESS(c17_map) { sk::Transformation T(vp_quat("R"), v3("p")); boost::shared_ptr<MappedRotationQuaternion> q; boost::shared_ptr<MappedEuclideanPoint> t; TE e = transformationToExpression(T, q, t); vp_eq(e.toTransformationMatrix(), T.T(), "value"); trf(e, {q.get(), t.get()}); double d[3] = {vp_real("d0"), vp_real("d1"), vp_real("d2")}; t->update(d, 3); vp_eq(T.t(), v3("p") + Vector3d(d[0], d[1], d[2]), "written_through"); }
HARNESS(c17_parameters) { boost::shared_ptr<sk::RotationalKinematics> rk; rk.reset(new sk::EulerAnglesYawPitchRoll); RQ R("R"); EE e = RE(&R).toParameters(rk); Matrix3d C = sk::quat2r(vp_quat("R")); vp_assume(C(2, 0) * C(2, 0) <= 0.98); euc(e, {&R}); }
HARNESS(c17_error_term) { RQ R("R"); P3 p("p"); Vector4d q = vp_quat("R"); TE e = mk(R, p); sk::Transformation prior(q, v3("c")); double wr = vp_real_in("wr", 0.1, 10), wt = vp_real_in("wt", 0.1, 10); ErrorTermTransformation et(e, prior, wr, wt); double x = et.evaluateError(); VectorXd want(6); want << v3("p") - v3("c"), 0, 0, 0; vp_eq(et.error(), want, "error"); vp_check_eq(x, wt * (v3("p") - v3("c")).squaredNorm(), "cost");
  R.setBlockIndex(0); p.setBlockIndex(1); R.setActive(true); p.setActive(true); JacobianContainer jc(6); et.evaluateJacobians(jc); vp_eq(jacOf(jc, &p).topRows<3>(), Matrix3d::Identity(), "J_t"); vp_eq(jacOf(jc, &p).bottomRows<3>(), Matrix3d::Zero(), "J_t_r"); }
// ---- C18 design variables
static void dv_roundtrip(DVar& d, int n, MatrixXd P, MatrixXd Q) { vp_check(d.minimalDimensions() == n, "dims"); MatrixXd g; d.getParameters(g); vp_eq(g, P, "get"); d.setParameters(Q); d.getParameters(g); vp_eq(g, Q, "set"); d.setParameters(P); VectorXd u(n); for (int i = 0; i < n; i++) u[i] = vp_real(vpn("u", i)); d.setActive(true); MatrixXd b; d.getParameters(b); 
  d.update(u.data(), n); d.revertUpdate(); d.getParameters(g); vp_eq(g, P, "revert"); }
static void dv_additive(DVar& d, int n, MatrixXd P) { VectorXd u(n), diff; for (int i = 0; i < n; i++) u[i] = vp_real(vpn("w", i)); d.update(u.data(), n); MatrixXd g, J; d.getParameters(g); vp_eq(g, P + u, "update"); d.minimalDifference(P, diff); vp_eq(diff, u, "difference"); VectorXd diff2; d.minimalDifferenceAndJacobian(P, diff2, J); vp_eq(diff2, u, "difference2"); vp_eq(J, MatrixXd::Identity(n, n), "J"); d.revertUpdate(); d.getParameters(g); vp_eq(g, P, "reverted");
  d.minimalDifference(P, diff); vp_eq(diff, VectorXd::Zero(n), "difference0"); }
HARNESS(c18_point) { MatrixXd P = v3("p"), Q = v3("q"); EuclideanPoint d(P); dv_roundtrip(d, 3, P, Q); dv_additive(d, 3, P); }
HARNESS(c18_mapped_point) { MatrixXd P = v3("p"), Q = v3("q"); Vector3d s = P; MappedEuclideanPoint d(s.data()); dv_roundtrip(d, 3, P, Q); vp_eq(s, P, "storage"); dv_additive(d, 3, P); }
HARNESS(c18_scalar) { MatrixXd P = vp_vec<1>("p"), Q = vp_vec<1>("q"); Scalar d(P(0, 0)); dv_roundtrip(d, 1, P, Q); dv_additive(d, 1, P); }
HARNESS(c18_vector) { MatrixXd P = vp_vec<2>("p"), Q = vp_vec<2>("q"); DesignVariableVector<2> d(P); dv_roundtrip(d, 2, P, Q); dv_additive(d, 2, P); }
HARNESS(c18_mapped_vector) { MatrixXd P = vp_vec<2>("p"), Q = vp_vec<2>("q"); Vector2d s = P; DesignVariableMappedVector<2> d(s.data()); dv_roundtrip(d, 2, P, Q); vp_eq(s, P, "storage"); dv_additive(d, 2, P); }
HARNESS(c18_rotation_roundtrip) { MatrixXd P = vp_quat("p"), Q = vp_quat("q"); RotationQuaternion d((Vector4d)P); dv_roundtrip(d, 3, P, Q); vp_eq(d.toRotationMatrix(), sk::quat2r(P), "C"); }
HARNESS(c18_mapped_rotation_roundtrip) { MatrixXd P = vp_quat("p"), Q = vp_quat("q"); Vector4d s = P; MappedRotationQuaternion d(s.data()); dv_roundtrip(d, 3, P, Q); vp_eq(s, P, "storage"); vp_eq(d.toRotationMatrix(), sk::quat2r(P), "C"); }
HARNESS(c18_homogeneous_roundtrip) { MatrixXd P = vp_quat("p"), Q = vp_quat("q"); aslam::backend::HomogeneousPoint d(P); dv_roundtrip(d, 3, P, Q); }
HARNESS(c18_mapped_homogeneous_roundtrip) { MatrixXd P = vp_quat("p"), Q = vp_quat("q"); Vector4d s = P; MappedHomogeneousPoint d(s.data()); dv_roundtrip(d, 3, P, Q); vp_eq(s, P, "storage"); }
HARNESS(c18_matrix) { MatrixXd P = vp_mat<3, 3>("p"), Q = vp_mat<3, 3>("q"); MatrixBasic d((Matrix3d)P); dv_roundtrip(d, 9, P, Q); }
HARNESS(c18_direction) { EuclideanDirection d(Vector3d(vp_real_in("x", -5, 5), vp_real_in("y", -5, 5), vp_real_in("z", 0.1, 5))); MatrixXd P, Q = sk::quat2r(vp_quat("q")); d.getParameters(P); dv_roundtrip(d, 2, P, Q); double u[2] = {vp_real("a"), vp_real("b")}; d.update(u, 2); Vector3d v = d.toEuclidean(); double n = v.squaredNorm(); vp_check_eq(n, vp_real("x") * vp_real("x") + vp_real("y") * vp_real("y") + vp_real("z") * vp_real("z"), "length_kept"); }
// the minimal difference after an update by a small rotation, its Jacobian and the difference to itself
static void dv_rotation(DVar& d, const Vector4d& P) { d.setActive(true); VectorXd diff; d.minimalDifference(P, diff); vp_eq(diff, Vector3d::Zero(), "self"); MatrixXd J; d.minimalDifferenceAndJacobian(P, diff, J); vp_eq(diff, Vector3d::Zero(), "self2");
  for (int k = 0; k < 3; k++) { VpName en = vpn("eps", k); Vector3d u = Vector3d::Zero(); u[k] = vp_eps(en); d.update(u.data(), 3); VectorXd g; d.minimalDifference(P, g); vp_eq(d0(g, en), J.col(k), vpn("J", k)); vp_eq(d0(g, en), Vector3d::Unit(k), vpn("update", k)); d.revertUpdate(); } }
HARNESS(c18_rotation_difference) { Vector4d P = vp_quat("p"); RotationQuaternion d(P); dv_rotation(d, P); }
HARNESS(c18_mapped_rotation_difference) { Vector4d P = vp_quat("p"), s = P; MappedRotationQuaternion d(s.data()); dv_rotation(d, P); }
HARNESS(c18_homogeneous_difference) { Vector4d P = vp_quat("p"); aslam::backend::HomogeneousPoint d(P); dv_rotation(d, P); }
HARNESS(c18_mapped_homogeneous_difference) { Vector4d P = vp_quat("p"), s = P; MappedHomogeneousPoint d(s.data()); dv_rotation(d, P); }
// the difference to another rotation a half angle h away, and its derivative with respect to an update
template <class D> void dv_general(D& d, const Vector4d& P) { d.setActive(true); Vector3d a; vp_unit("axis", a.data(), 3); double h = vp_real_in("h", 0.1, 1.4); Vector4d E; E << a * sin(h), cos(h); Vector4d X = sk::qplus(sk::quatInv(E), P); vp_eq(sk::qplus(P, sk::quatInv(X)), E, "relative");
  VectorXd diff; MatrixXd J; d.minimalDifferenceAndJacobian(X, diff, J); vp_eq(diff, 2 * h * a, "difference");
  double c = h * cos(h) / sin(h); Matrix3d A; A << 0, -a[2], a[1], a[2], 0, -a[0], -a[1], a[0], 0; vp_eq(J, c * Matrix3d::Identity() + (1 - c) * a * a.transpose() + h * A, "J"); }
HARNESS(c18_rotation_general) { Vector4d P = vp_quat("p"); RotationQuaternion d(P); dv_general(d, P); }
HARNESS(c18_mapped_rotation_general) { Vector4d P = vp_quat("p"), s = P; MappedRotationQuaternion d(s.data()); dv_general(d, P); }
HARNESS(c18_homogeneous_general) { Vector4d P = vp_quat("p"); aslam::backend::HomogeneousPoint d(P); dv_general(d, P); }
HARNESS(c18_mapped_homogeneous_general) { Vector4d P = vp_quat("p"), s = P; MappedHomogeneousPoint d(s.data()); dv_general(d, P); }
