#include "pose_spec.hpp"
using namespace sm::kinematics;
using namespace spec;
typedef UncertainTransformation UT;
struct Pose { Vector4d q; Vector3d t; Matrix3d R; Matrix4d T; Matrix6d A;
  Pose(const char *a, const char *b) : q(unit_quat(a)), t(vec3(b)), R(quat_matrix(q)), T(pose_matrix(q, t)), A(adjoint_closed(R, t)) {} };
static void symm(const Matrix6d &U, double sc, const char *w) { for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) vf_check_eq(U(i, j), U(j, i), sc, w); }
static Matrix6d plus(const Matrix6d &A, const Matrix6d &B) { Matrix6d C; for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) C(i, j) = A(i, j) + B(i, j); return C; }
static double scale(const Pose &a, const Matrix6d &U) { double m = 1 + mag(a.t); return 1e-3 + m * m * (1 + mag(U)); }

VF_CHECK(C10, composition_of_uncertain) {
  Pose a("q", "t"), b("p", "s"); Matrix6d U = symmetric<6>("U"), V = symmetric<6>("V");
  UT A(a.q, a.t, U), B(b.q, b.t, V), C = A * B;
  double sc = scale(a, V) + mag(U);
  same(C.T(), mm<4, 4, 4>(a.T, b.T), 1 + mag(a.t) + mag(b.t), "composed transformation");
  same(C.U(), plus(U, carry<6, 6>(a.A, V)), sc, "U_a + Ad(T_a) U_b Ad(T_a)^T");
  symm(C.U(), sc, "symmetric");
}
VF_CHECK(C10, composition_with_certain_right) {
  Pose a("q", "t"), b("p", "s"); Matrix6d U = symmetric<6>("U");
  UT A(a.q, a.t, U); Transformation B(b.q, b.t); UT C = A * B;
  same(C.T(), mm<4, 4, 4>(a.T, b.T), 1 + mag(a.t) + mag(b.t), "composed transformation");
  equal(C.U(), U, "a certain right operand adds nothing");
}
VF_CHECK(C10, composition_with_certain_left) {
  Pose a("q", "t"), b("p", "s"); Matrix6d V = symmetric<6>("V");
  Transformation A(a.q, a.t); UT B(b.q, b.t, V); UT C = A * B;
  same(C.T(), mm<4, 4, 4>(a.T, b.T), 1 + mag(a.t) + mag(b.t), "composed transformation");
  same(C.U(), carry<6, 6>(a.A, V), scale(a, V), "Ad(T_a) U_b Ad(T_a)^T");
  symm(C.U(), scale(a, V), "symmetric");
}
VF_CHECK(C10, inversion) {
  Pose a("q", "t"); Matrix6d U = symmetric<6>("U");
  UT A(a.q, a.t, U), B = A.inverse();
  Matrix4d Ti = pose_inverse(a.T);
  Matrix6d Ai = adjoint_closed(rot(Ti), trans(Ti));
  same(B.T(), Ti, 1 + mag(a.t), "inverted transformation");
  same(B.U(), carry<6, 6>(Ai, U), scale(a, U), "Ad(T^-1) U Ad(T^-1)^T");
  symm(B.U(), scale(a, U), "symmetric");
}
VF_CHECK(C10, double_inversion_is_lossless) {
  Pose a("q", "t"); Matrix6d U = symmetric<6>("U");
  Matrix4d Ti = pose_inverse(a.T);
  Matrix6d Ai = adjoint_closed(rot(Ti), trans(Ti));
  same(mm<6, 6, 6>(a.A, Ai), Matrix6d::Identity().eval(), scale(a, U), "Ad(T) Ad(T^-1) = 1");
  same(mm<6, 6, 6>(Ai, a.A), Matrix6d::Identity().eval(), scale(a, U), "Ad(T^-1) Ad(T) = 1");
}
VF_CHECK(C10, construction) {
  Pose a("q", "t"); Matrix6d U = symmetric<6>("U"); double vt = vf_real("vt"), vr = vf_real("vr");
  Matrix6d Z, D;
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { Z(i, j) = 0; D(i, j) = i != j ? 0 : i < 3 ? vt : vr; }
  Transformation T(a.q, a.t);
  UT d;
  equal(d.T(), Matrix4d::Identity().eval(), "default is the identity"); equal(d.U(), Z, "default has no uncertainty");
  UT x1(T, U), x2(T, vt, vr), x3(T), x4(a.q, a.t), x5(a.q, a.t, U), x6(a.q, a.t, vt, vr);
  equal(x1.U(), U, "given covariance"); equal(x5.U(), U, "given covariance");
  equal(x2.U(), D, "diagonal covariance"); equal(x6.U(), D, "diagonal covariance");
  equal(x3.U(), Z, "no uncertainty"); equal(x4.U(), Z, "no uncertainty");
  equal(x1.T(), a.T, "transformation"); equal(x2.T(), a.T, "transformation"); equal(x3.T(), a.T, "transformation");
  equal(x4.T(), a.T, "transformation"); equal(x5.T(), a.T, "transformation"); equal(x6.T(), a.T, "transformation");
  x3.setU(U); equal(x3.U(), U, "setU"); equal(x3.toTransformation().T(), a.T, "toTransformation");
}
VF_CHECK(C10, construction_from_a_matrix) {
  Pose a("q", "t"); Matrix6d U = symmetric<6>("U"); double vt = vf_real("vt"), vr = vf_real("vr");
  int k = vf_choice("k", 3);
  Matrix6d E;
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) E(i, j) = k == 0 ? U(i, j) : k == 2 || i != j ? 0 : i < 3 ? vt : vr;
  if (k == 0) { UT x(a.T, U); equal(x.U(), E, "covariance"); same(x.T(), a.T, 1 + mag(a.t), "transformation"); }
  if (k == 1) { UT x(a.T, vt, vr); equal(x.U(), E, "covariance"); same(x.T(), a.T, 1 + mag(a.t), "transformation"); }
  if (k == 2) { UT x(a.T); equal(x.U(), E, "covariance"); same(x.T(), a.T, 1 + mag(a.t), "transformation"); }
}
// covariance of the update operator:  U = S Uo S^T with S the derivative of the perturbation by the update
VF_CHECK(C10, update_covariance) {
  Pose a("q", "t"); Matrix6d U = symmetric<6>("U");
  Matrix3d X = cross(a.t);
  Matrix6d S;
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) S(i, j) = (i == j ? 1.0 : 0.0) + (i < 3 && j >= 3 ? -X(i, j - 3) : 0.0);
  UT A(a.q, a.t, U), B(a.q, a.t);
  B.setUOplus(U);
  double m = 1 + mag(a.t), sc = 1e-3 + m * m * m * m * (1 + mag(U));
  same(B.U(), carry<6, 6>(S, U), sc, "S Uo S^T"); symm(B.U(), sc, "symmetric");
  same(B.UOplus(), U, sc, "set and get of the update covariance"); symm(A.UOplus(), sc, "symmetric");
  same(carry<6, 6>(S, Matrix6d(A.UOplus())), U, sc, "get of the update covariance");
  equal(B.T(), a.T, "the transformation is untouched");
}
// S is the first-order map from the update (translation added, rotation exp(phi) C) to the left perturbation
VF_CHECK(C10, update_is_a_perturbation_to_first_order) {
  Pose a("q", "t"); Vector6d d; vf_vec("d", 6, d.data());
  Transformation T(a.q, a.t);
  Matrix6d S = T.S();
  Vector6d p = mm<6, 6, 1>(S, d);
  // dT of the update: rotation part -[phi]x C, translation part rho;  dT of the perturbation: -twist(p) T
  Matrix4d L = mm<4, 4, 4>(twist(p), a.T);
  Matrix3d dC = mul(cross(Vector3d(d[3], d[4], d[5])), a.R);
  double sc = 1e-3 + (1 + mag(a.t)) * mag(d);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) vf_check_eq(-L(i, j), -dC(i, j), sc, "rotation part");
    vf_check_eq(-L(i, 3), d[i], sc, "translation part");
  }
}
