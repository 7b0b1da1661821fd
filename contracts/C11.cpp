#include "pose_spec.hpp"
#include <sm/kinematics/UncertainVector.hpp>
using namespace sm::kinematics;
using namespace spec;
typedef UncertainHomogeneousPoint UHP;
static const double TINY = 1e-2;
static Vector4d point(const char *n) { Vector4d p = vec4(n); vf_assume(p[3] != 0); if (vf_native()) vf_assume(std::fabs(p[3]) > TINY); return p; }
static double sq(const Vector4d &p) { return p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3]; }
template <int N> static Eigen::Matrix<double, N, N> sum(const Eigen::Matrix<double, N, N> &A, const Eigen::Matrix<double, N, N> &B) {
  Eigen::Matrix<double, N, N> C; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) C(i, j) = A(i, j) + B(i, j); return C;
}
template <int N> static Eigen::Matrix<double, N, N> zero() { Eigen::Matrix<double, N, N> Z; for (int i = 0; i < N * N; ++i) Z.data()[i] = 0; return Z; }
// value and derivative of the homogeneous sum / difference with respect to operand a (unit k) or b
static Vector4d add(const Vector4d &p, const Vector4d &q, double s) {
  return Vector4d(p[0] * q[3] + s * q[0] * p[3], p[1] * q[3] + s * q[1] * p[3], p[2] * q[3] + s * q[2] * p[3], p[3] * q[3]);
}
// add is bilinear, so the derivative with respect to one operand is add itself with a unit vector in its place
static Matrix4d d_left(const Vector4d &q, double s) { Matrix4d J; for (int j = 0; j < 4; ++j) { Vector4d e(0, 0, 0, 0); e[j] = 1; Vector4d c = add(e, q, s); for (int i = 0; i < 4; ++i) J(i, j) = c[i]; } return J; }
static Matrix4d d_right(const Vector4d &p, double s) { Matrix4d J; for (int j = 0; j < 4; ++j) { Vector4d e(0, 0, 0, 0); e[j] = 1; Vector4d c = add(p, e, s); for (int i = 0; i < 4; ++i) J(i, j) = c[i]; } return J; }
static double big(const Vector4d &p, const Matrix4d &U) { double m = 1 + mag(p); return 1e-3 + m * m * (1 + mag(U)); }

VF_CHECK(C11, sum_and_difference_of_uncertain_points) {
  Vector4d p = point("p"), q = point("q"); Matrix4d U = symmetric<4>("U"), V = symmetric<4>("V");
  vf_lemma(p[3] * q[3] != 0, "scale of the result");
  UHP a(p, U), b(q, V);
  UHP s = a + b, d = a - b;
  double sc = big(p, V) + big(q, U);
  same(s.toHomogeneous(), (HomogeneousPoint(p) + HomogeneousPoint(q)).toHomogeneous(), sc, "same point as the certain sum");
  same(d.toHomogeneous(), (HomogeneousPoint(p) - HomogeneousPoint(q)).toHomogeneous(), sc, "same point as the certain difference");
  same(s.U4(), sum<4>(carry<4, 4>(d_left(q, 1), U), carry<4, 4>(d_right(p, 1), V)), sc, "covariance of the sum");
  same(d.U4(), sum<4>(carry<4, 4>(d_left(q, -1), U), carry<4, 4>(d_right(p, -1), V)), sc, "covariance of the difference");
}
VF_CHECK(C11, sum_and_difference_with_a_certain_point) {
  Vector4d p = point("p"), q = point("q"); Matrix4d U = symmetric<4>("U");
  vf_lemma(p[3] * q[3] != 0, "scale of the result");
  UHP a(p, U); HomogeneousPoint b(q);
  double sc = big(p, U) + big(q, U);
  UHP s = a + b, d = a - b;
  same(s.toHomogeneous(), add(p, q, 1), sc, "point"); same(d.toHomogeneous(), add(p, q, -1), sc, "point");
  same(s.U4(), carry<4, 4>(d_left(q, 1), U), sc, "uncertain + certain"); same(d.U4(), carry<4, 4>(d_left(q, -1), U), sc, "uncertain - certain");
  UHP t = b + a, e = b - a;
  same(t.toHomogeneous(), add(q, p, 1), sc, "point"); same(e.toHomogeneous(), add(q, p, -1), sc, "point");
  same(t.U4(), carry<4, 4>(d_right(q, 1), U), sc, "certain + uncertain"); same(e.U4(), carry<4, 4>(d_right(q, -1), U), sc, "certain - uncertain");
}
VF_CHECK(C11, construction_and_conversions) {
  Vector3d v = vec3("v"); Vector4d p = point("p"); Eigen::Matrix3d U3 = symmetric<3>("W"); Matrix4d U = symmetric<4>("U");
  vf_lemma(sq(p) > 0, "not zero");
  Matrix4d Z = zero<4>(), E;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) E(i, j) = i < 3 && j < 3 ? U3(i, j) : 0;
  UHP a(v, U3), b(p, U), c(p), d(v), e, f{HomogeneousPoint(p)}, g(HomogeneousPoint(p), U);
  equal(a.U4(), E, "covariance of a Euclidean point"); equal(a.U3(), U3, "Euclidean covariance survives"); equal(a.toHomogeneous(), hom(v), "point");
  equal(b.U4(), U, "covariance"); equal(b.toHomogeneous(), p, "point"); equal(g.U4(), U, "covariance"); equal(g.toHomogeneous(), p, "point");
  equal(c.U4(), Z, "certain"); equal(d.U4(), Z, "certain"); equal(e.U4(), Z, "certain"); equal(f.U4(), Z, "certain");
  equal(c.toHomogeneous(), p, "point"); equal(d.toHomogeneous(), hom(v), "point"); equal(e.toHomogeneous(), hom(Vector3d(0, 0, 0)), "origin"); equal(f.toHomogeneous(), p, "point");
  c.setU(U); equal(c.U4(), U, "setU");
}
static Eigen::Matrix<double, 3, 4> d_euclid(const Vector4d &p) {
  Eigen::Matrix<double, 3, 4> J;
  for (int j = 0; j < 4; ++j) for (int i = 0; i < 3; ++i) J(i, j) = (Dual(p[i], i == j ? 1.0 : 0.0) / Dual(p[3], j == 3 ? 1.0 : 0.0)).d;
  return J;
}
VF_CHECK(C11, euclidean_covariance) {
  Vector4d p = point("p"); Matrix4d U = symmetric<4>("U");
  vf_lemma(sq(p) > 0, "not zero");
  UHP a(p, U);
  Eigen::Matrix<double, 3, 4> J = d_euclid(p);
  double m = 1 + mag(J);
  same(a.U3(), carry<3, 4>(J, U), 1e-3 + m * m * mag(U), "J U J^T of the conversion");
}
// minimal update p <- exp(d) (x) p, derivative at 0: columns (e_j/2, 0) (x) p
static Eigen::Matrix<double, 4, 3> d_update(const Vector4d &p) {
  Eigen::Matrix<double, 4, 3> J;
  for (int j = 0; j < 3; ++j) { Vector4d u(0, 0, 0, 0); u[j] = 0.5; Vector4d c = quat_mul(u, p); for (int i = 0; i < 4; ++i) J(i, j) = c[i]; }
  return J;
}
VF_CHECK(C11, minimal_covariance) {
  Vector4d p = unit_quat("p"); Eigen::Matrix3d M = symmetric<3>("M");
  Eigen::Matrix<double, 4, 3> J = d_update(p);
  UHP a(p), b(p, M), c{HomogeneousPoint(p), M};
  a.setUOplus(M);
  Matrix4d E = carry<4, 3>(J, M);
  equal(a.U4(), E, "J M J^T of the minimal update"); equal(b.U4(), E, "construction from the minimal covariance"); equal(c.U4(), E, "construction from the minimal covariance");
  equal(a.U_av_form(), M, "minimal covariance survives");
  equal(a.toHomogeneous(), p, "point");
}
VF_CHECK(C11, minimal_covariance_of_any_unit_point) {
  Vector4d p = unit_quat("p"); Matrix4d U = symmetric<4>("U");
  UHP a(p, U);
  // left inverse of the derivative of the update that ignores the direction of p
  Eigen::Matrix<double, 4, 3> J = d_update(p);
  Eigen::Matrix<double, 3, 4> S;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) S(i, j) = 4.0 * J(j, i);
  same(a.U_av_form(), carry<3, 4>(S, U), 1 + mag(U), "S U S^T");
}
VF_CHECK(C11, normalisation) {
  Vector4d p = point("p"); Matrix4d U = symmetric<4>("U");
  vf_lemma(sq(p) > 0, "not zero");
  UHP a(p, U);
  a.normalize();
  double l = std::sqrt(sq(p));
  Matrix4d J; Vector4d n;
  for (int i = 0; i < 4; ++i) n[i] = p[i] / l;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) J(i, j) = ((i == j ? 1.0 : 0.0) - n[i] * n[j]) / l;
  same(a.toHomogeneous(), n, 1, "normalised point");
  same(a.U4(), carry<4, 4>(J, U), 1e-3 + mag(U) / (l * l), "J U J^T of the normalisation");
}
struct Pose { Vector4d q; Vector3d t; Matrix3d R; Matrix4d T;
  Pose(const char *a, const char *b) : q(unit_quat(a)), t(vec3(b)), R(quat_matrix(q)), T(pose_matrix(q, t)) {} };
// a rigid motion keeps the scale, so the image of a finite point is a finite point
VF_CHECK(C11, certain_transformation_of_an_uncertain_point) {
  Pose a("a", "t"); Vector4d p = point("p"); Matrix4d V = symmetric<4>("V");
  Transformation A(a.q, a.t);
  vf_lemma(p[3] * p[3] > 0, "scale");
  UHP x = A * UHP(p, V);
  double m = (1 + mag(a.t)), sc = 1e-3 + m * m * (1 + mag(V)) + m * mag(p);
  same(x.toHomogeneous(), mm<4, 4, 1>(a.T, p), sc, "transformed point"); same(x.U4(), carry<4, 4>(a.T, V), sc, "T V T^T");
}
VF_CHECK(C11, uncertain_transformation_of_a_certain_point) {
  Pose a("a", "t"); Vector4d p = point("p"); Matrix6d U = symmetric<6>("U");
  UncertainTransformation A(a.q, a.t, U);
  vf_lemma(p[3] * p[3] > 0, "scale");
  UHP x = A * HomogeneousPoint(p);
  Vector4d y = mm<4, 4, 1>(a.T, p);
  double m = 1 + mag(y), sc = 1e-3 + m * m * (1 + mag(U)) + (1 + mag(a.t)) * mag(p);
  same(x.toHomogeneous(), y, sc, "transformed point"); same(x.U4(), carry<4, 6>(point_jacobian(y), U), sc, "J U J^T");
  same(A * p, y, sc, "plain homogeneous vector");
  Vector3d v(p[0], p[1], p[2]); Vector4d z = mm<4, 4, 1>(a.T, hom(v));
  same(A * v, Vector3d(z[0], z[1], z[2]), sc, "plain vector");
}
VF_CHECK(C11, uncertain_transformation_of_an_uncertain_point) {
  Pose a("a", "t"); Vector4d p = point("p"); Matrix6d U = symmetric<6>("U"); Matrix4d V = symmetric<4>("V");
  UncertainTransformation A(a.q, a.t, U);
  vf_lemma(p[3] * p[3] > 0, "scale");
  UHP x = A * UHP(p, V);
  Vector4d y = mm<4, 4, 1>(a.T, p);
  double m = 1 + mag(y), n = 1 + mag(a.t), sc = 1e-3 + m * m * (1 + mag(U)) + n * n * (1 + mag(V)) + n * mag(p);
  same(x.toHomogeneous(), y, sc, "transformed point");
  same(x.U4(), sum<4>(carry<4, 6>(point_jacobian(y), U), carry<4, 4>(a.T, V)), sc, "J U J^T + T V T^T");
}
VF_CHECK(C11, rotation_of_an_uncertain_vector) {
  Pose a("a", "t"); Vector3d v = vec3("v"); Matrix3d V = symmetric<3>("V");
  UncertainVector3 x = Transformation(a.q, a.t).rotate(UncertainVector3(v, V));
  equal(x.mean(), mul(a.R, v), "rotated vector"); same(x.covariance(), carry<3, 3>(a.R, V), 1e-3 + mag(V), "R V R^T");
}
// ---- plain vectors
template <int D> static void vectors() {
  typedef Eigen::Matrix<double, D, 1> V; typedef Eigen::Matrix<double, D, D> M; typedef UncertainVector<D> UV;
  V a, b; vf_vec("a", D, a.data()); vf_vec("b", D, b.data());
  M A = symmetric<D>("A"), B = symmetric<D>("B"), Z = zero<D>();
  double s = vf_real("s"), sv = vf_real("sv");
  UV x(a, A), y(b, B), z(a), o;
  equal(z.mean(), a, "value"); equal(z.covariance(), Z, "certain"); equal(o.mean(), V(V::Zero()), "zero"); equal(o.covariance(), Z, "certain");
  equal(x.v(), a, "value"); equal(x.E(), A, "covariance");
  z.setMean(b); z.setCovariance(B); equal(z.mean(), b, "setMean"); equal(z.covariance(), B, "setCovariance");
  V p, m, k; for (int i = 0; i < D; ++i) { p[i] = a[i] + b[i]; m[i] = a[i] - b[i]; k[i] = s * a[i]; }
  M AB = sum<D>(A, B);
  double sc = 1e-3 + mag(A) + mag(B) + mag(a) + mag(b);
  same((x + y).mean(), p, sc, "sum"); same((x + y).covariance(), AB, sc, "covariance of the sum");
  same((x + b).mean(), p, sc, "sum"); equal((x + b).covariance(), A, "a certain operand adds nothing");
  same((x - y).mean(), m, sc, "difference"); same((x - y).covariance(), AB, sc, "covariance of the difference");
  same((x - b).mean(), m, sc, "difference"); equal((x - b).covariance(), A, "a certain operand adds nothing");
  M S, T, O; for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) { S(i, j) = s * s * A(i, j); O(i, j) = a[i] * a[j] * sv; T(i, j) = S(i, j) + O(i, j); }
  UncertainVector<1> u(s, sv);
  double sb = 1 + ab(s), sd = sb * sb * (sc + mag(a) * mag(a) * (1 + ab(sv)));
  same((x * s).mean(), k, sd, "product"); same((x * s).covariance(), S, sd, "s^2 A");
  same((x * u).mean(), k, sd, "product"); same((x * u).covariance(), T, sd, "s^2 A + v a a^T");
  same((u * x).mean(), k, sd, "product"); same((u * x).covariance(), T, sd, "s^2 A + v a a^T");
  same((u * a).mean(), k, sd, "product"); same((u * a).covariance(), O, sd, "v a a^T");
  double dot = 0, c1 = 0, c2 = 0;
  for (int i = 0; i < D; ++i) { dot += a[i] * b[i]; for (int j = 0; j < D; ++j) { c1 += b[i] * A(i, j) * b[j]; c2 += a[i] * B(i, j) * a[j]; } }
  double se = 1e-3 + sc * sc * sc;
  vf_check_eq(x.dot(y).mean(), dot, se, "dot product"); vf_check_eq(x.dot(y).covariance(), c1 + c2, se, "b^T A b + a^T B a");
  vf_check_eq(x.dot(b).mean(), dot, se, "dot product"); vf_check_eq(x.dot(b).covariance(), c1, se, "b^T A b");
  M L = any_matrix<D>("L");
  double sl = 1 + mag(L);
  same((::operator*(L, x)).mean(), Eigen::Matrix<double, D, 1>(mm<D, D, 1>(L, a)), sl * sc, "linear map"); same((::operator*(L, x)).covariance(), carry<D, D>(L, A), sl * sl * sc, "L A L^T");
  x.setZero(); equal(x.mean(), V(V::Zero()), "setZero"); equal(x.covariance(), Z, "setZero");
}
VF_CHECK(C11, vectors_of_dimension_2) { vectors<2>(); }
VF_CHECK(C11, vectors_of_dimension_3) { vectors<3>(); }
VF_CHECK(C11, vectors_of_dimension_4) { vectors<4>(); }
template <int D> static void normalised_vectors() {
  typedef Eigen::Matrix<double, D, 1> V; typedef Eigen::Matrix<double, D, D> M;
  V a, n; vf_vec("a", D, a.data()); M A = symmetric<D>("A"), J;
  double l2 = 0; for (int i = 0; i < D; ++i) l2 += a[i] * a[i];
  vf_assume(l2 > (vf_native() ? 1e-3 : 0.0));
  double l = std::sqrt(l2);
  for (int i = 0; i < D; ++i) n[i] = a[i] / l;
  for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) J(i, j) = ((i == j ? 1.0 : 0.0) - n[i] * n[j]) / l;
  UncertainVector<D> x(a, A), y = x.normalized();
  x.normalize();
  same(x.mean(), n, 1, "normalised"); same(x.covariance(), carry<D, D>(J, A), 1e-3 + mag(A) / l2, "J A J^T");
  same(y.mean(), n, 1, "normalised"); same(y.covariance(), carry<D, D>(J, A), 1e-3 + mag(A) / l2, "J A J^T");
}
VF_CHECK(C11, normalised_vectors_of_dimension_2) { normalised_vectors<2>(); }
VF_CHECK(C11, normalised_vectors_of_dimension_3) { normalised_vectors<3>(); }
VF_CHECK(C11, normalised_vectors_of_dimension_4) { normalised_vectors<4>(); }
VF_CHECK(C11, uncertain_scalars) {
  double a = vf_real("a"), b = vf_real("b"), A = vf_real("A"), B = vf_real("B");
  vf_assume(b != 0); if (vf_native()) vf_assume(std::fabs(b) > TINY);
  UncertainVector<1> x(a, A), y(b, B), z(a), o;
  double sc = 1e-3 + (1 + ab(a) + ab(b)) * (1 + ab(a) + ab(b)) * (1 + ab(A) + ab(B));
  vf_check_eq(o.mean(), 0, 1, "zero"); vf_check_eq(o.covariance(), 0, 1, "certain"); vf_check_eq(z.covariance(), 0, 1, "certain"); vf_check_eq(z.v(), a, sc, "value"); vf_check_eq(x.E(), A, sc, "variance");
  vf_check_eq((x + y).mean(), a + b, sc, "sum"); vf_check_eq((x + y).covariance(), A + B, sc, "variance of the sum");
  vf_check_eq((x - y).mean(), a - b, sc, "difference"); vf_check_eq((x - y).covariance(), A + B, sc, "variance of the difference");
  vf_check_eq((x + b).mean(), a + b, sc, "sum"); vf_check_eq((x + b).covariance(), A, sc, "a certain operand adds nothing");
  vf_check_eq((x - b).mean(), a - b, sc, "difference"); vf_check_eq((x - b).covariance(), A, sc, "a certain operand adds nothing");
  vf_check_eq((x * y).mean(), a * b, sc, "product"); vf_check_eq((x * y).covariance(), b * b * A + a * a * B, sc, "variance of the product");
  vf_check_eq((x * b).mean(), a * b, sc, "product"); vf_check_eq((x * b).covariance(), b * b * A, sc, "variance of the product");
  vf_check_eq(x.dot(y).mean(), a * b, sc, "product"); vf_check_eq(x.dot(y).covariance(), b * b * A + a * a * B, sc, "variance of the product");
  double b2 = b * b, sq = sc / (b2 * b2) + sc / b2;
  vf_check_eq((x / y).mean(), a / b, sq, "quotient"); vf_check_eq((x / y).covariance(), A / b2 + a * a * B / (b2 * b2), sq, "variance of the quotient");
  vf_check_eq((x / b).mean(), a / b, sq, "quotient"); vf_check_eq((x / b).covariance(), A / b2, sq, "variance of the quotient");
  x.setMean(b); x.setCovariance(B); vf_check_eq(x.mean(), b, sc, "setMean"); vf_check_eq(x.covariance(), B, sc, "setCovariance");
  x.setZero(); vf_check_eq(x.mean(), 0, 1, "setZero"); vf_check_eq(x.covariance(), 0, 1, "setZero");
}
