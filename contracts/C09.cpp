#include "pose_spec.hpp"
using namespace sm::kinematics;
using namespace spec;
static const double TINY = 1e-3;
static Vector4d point(const char *n) { Vector4d p = vec4(n); vf_assume(p[3] != 0); if (vf_native()) vf_assume(std::fabs(p[3]) > TINY); return p; }
static Vector3d euclid(const Vector4d &p) { return Vector3d(p[0] / p[3], p[1] / p[3], p[2] / p[3]); }
static double size(const Vector4d &p) { return 1e-3 + mag(euclid(p)); }

VF_CHECK(C09, construction_and_access) {
  Vector3d v = vec3("v"); Vector4d h = point("h");
  HomogeneousPoint a(v), b(h), c, d, e, f;
  equal(a.toHomogeneous(), hom(v), "from a Euclidean point"); equal(a.toEuclidean(), v, "Euclidean value");
  equal(b.toHomogeneous(), h, "from homogeneous coordinates"); same(b.toEuclidean(), euclid(h), size(h), "division by the scale");
  equal(c.toHomogeneous(), Vector4d(0, 0, 0, 1), "default is the origin");
  c = v; d = h; e.set(v); f.set(h);
  equal(c.toHomogeneous(), hom(v), "assignment"); equal(d.toHomogeneous(), h, "assignment");
  equal(e.toHomogeneous(), hom(v), "set"); equal(f.toHomogeneous(), h, "set");
  f.setZero(); equal(f.toHomogeneous(), Vector4d(0, 0, 0, 1), "setZero is the origin");
}
VF_CHECK(C09, addition_and_subtraction) {
  Vector4d p = point("p"), q = point("q");
  vf_lemma(p[3] * q[3] != 0, "scale of the result");
  HomogeneousPoint a(p), b(q), s = a + b, d = a - b;
  Vector3d ep = euclid(p), eq = euclid(q), es = euclid(s.toHomogeneous()), ed = euclid(d.toHomogeneous());
  double sc = size(p) + size(q);
  for (int i = 0; i < 3; ++i) {
    vf_check_eq(es[i], ep[i] + eq[i], sc, "sum represents the Euclidean sum");
    vf_check_eq(ed[i], ep[i] - eq[i], sc, "difference represents the Euclidean difference");
  }
}
VF_CHECK(C09, matrix_forms_of_addition_and_subtraction) {
  Vector4d p = point("p"), q = point("q");
  Vector4d a = mm<4, 4, 1>(toHomogeneousPlus(p), q), b = mm<4, 4, 1>(toHomogeneousMinus(p), q);
  vf_lemma(p[3] * q[3] != 0, "scale of the result");
  double sc = size(p) + size(q);
  Vector3d ea = euclid(a), eb = euclid(b), ep = euclid(p), eq = euclid(q);
  for (int i = 0; i < 3; ++i) {
    vf_check_eq(ea[i], eq[i] + ep[i], sc, "plus matrix adds");
    vf_check_eq(eb[i], eq[i] - ep[i], sc, "minus matrix subtracts");
  }
}
VF_CHECK(C09, scale_has_no_influence) {
  Vector4d p = point("p"); double k = vf_real("k");
  vf_assume(k != 0); if (vf_native()) vf_assume(std::fabs(k) > TINY);
  vf_lemma(k * p[3] != 0, "scale");
  Vector4d kp(k * p[0], k * p[1], k * p[2], k * p[3]);
  same(HomogeneousPoint(kp).toEuclidean(), HomogeneousPoint(p).toEuclidean(), size(p), "same point at every scale");
  same(fromHomogeneous(kp), fromHomogeneous(p), size(p), "same point at every scale");
}
VF_CHECK(C09, functions_and_their_jacobians) {
  Vector3d v = vec3("v"); Vector4d p = point("p");
  Eigen::Matrix<double, 4, 3> J; Eigen::Matrix<double, 3, 4> K, K2;
  equal(toHomogeneous(v), hom(v), "toHomogeneous"); equal(toHomogeneous(v, &J), hom(v), "toHomogeneous");
  same(fromHomogeneous(p), euclid(p), size(p), "fromHomogeneous"); same(fromHomogeneous(p, &K), euclid(p), size(p), "fromHomogeneous");
  K2 = fromHomogeneousJacobian(p);
  Eigen::Matrix<double, 4, 3> J2 = toHomogeneousJacobian(v);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) {
    vf_check_eq(J(i, j), i == j ? 1.0 : 0.0, 1, "derivative of toHomogeneous"); vf_check_eq(J2(i, j), i == j ? 1.0 : 0.0, 1, "derivative of toHomogeneous");
  }
  for (int j = 0; j < 4; ++j) {
    Dual d[4];
    for (int i = 0; i < 4; ++i) d[i] = Dual(p[i], i == j ? 1.0 : 0.0);
    for (int i = 0; i < 3; ++i) {
      Dual r = d[i] / d[3];
      vf_check_eq(K(i, j), r.d, size(p) + size(p) / ab(p[3]), "derivative of fromHomogeneous");
      vf_check_eq(K2(i, j), r.d, size(p) + size(p) / ab(p[3]), "derivative of fromHomogeneous");
    }
  }
}
static double sq(const Vector4d &p) { return p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3]; }
VF_CHECK(C09, normalisation) {
  Vector4d p = point("p");
  vf_lemma(sq(p) > 0, "not zero");
  HomogeneousPoint a(p);
  a.normalize();
  Vector4d n = a.toHomogeneous();
  vf_check_eq(sq(n), 1.0, 1, "unit length");
  vf_lemma(n[3] != 0, "scale");
  same(a.toEuclidean(), euclid(p), size(p), "normalisation keeps the point");
  same(normalize<4>(p), n, 1, "normalize");
  Eigen::Matrix4d J;
  same(normalizeAndJacobian<4>(p, J), n, 1, "normalizeAndJacobian");
  Dual d[4];
  for (int j = 0; j < 4; ++j) {
    for (int i = 0; i < 4; ++i) d[i] = Dual(p[i], i == j ? 1.0 : 0.0);
    Dual l = sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2] + d[3] * d[3]);
    for (int i = 0; i < 4; ++i) vf_check_eq(J(i, j), (d[i] / l).d, 1 / ab(p[3]), "derivative of the normalisation");
  }
}
VF_CHECK(C09, normalisation_of_3_vectors) {
  Vector3d p = vec3("p");
  vf_assume(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] > (vf_native() ? 1e-4 : 0.0));
  double len = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
  Eigen::Matrix3d J;
  Vector3d n = normalizeAndJacobian<3>(p, J), e(p[0] / len, p[1] / len, p[2] / len);
  same(n, e, 1, "normalizeAndJacobian"); same(normalize<3>(p), e, 1, "normalize");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
    vf_check_eq(J(i, j), ((i == j ? 1.0 : 0.0) - e[i] * e[j]) / len, 1 / len, "derivative of the normalisation");
}
// derivatives with respect to the minimal update p <- exp(dp) (x) p at dp = 0:  d exp = (dp/2, 0)
VF_CHECK(C09, jacobians_of_the_minimal_update) {
  Vector4d p = point("p");
  vf_lemma(sq(p) > 0, "not zero");
  HomogeneousPoint a(p);
  HomogeneousPoint::homogeneous_jacobian_t H; HomogeneousPoint::euclidean_jacobian_t E;
  equal(a.toHomogeneousAndJacobian(H), p, "value"); same(a.toEuclideanAndJacobian(E), euclid(p), size(p), "value");
  for (int j = 0; j < 3; ++j) {
    Vector4d u(0, 0, 0, 0); u[j] = 0.5;
    Vector4d dh = quat_mul(u, p);
    for (int i = 0; i < 4; ++i) vf_check_eq(H(i, j), dh[i], 1e-3 + mag(p), "derivative of the homogeneous coordinates");
    for (int i = 0; i < 3; ++i)
      vf_check_eq(E(i, j), (Dual(p[i], dh[i]) / Dual(p[3], dh[3])).d, 1 + size(p) * size(p), "derivative of the Euclidean coordinates");
  }
}
VF_CHECK(C09, minimal_update) {
  Vector4d p = point("p"); Vector3d d = vec3("d");
  vf_lemma(sq(p) > 0, "not zero");
  HomogeneousPoint a(p);
  a.oplus(d);
  double t = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
  Vector4d e(0, 0, 0, 1);
  if (t != 0) { double s = std::sin(t * 0.5) / t; e = Vector4d(d[0] * s, d[1] * s, d[2] * s, std::cos(t * 0.5)); }
  equal(a.toHomogeneous(), quat_mul(e, p), "exp(d) (x) p");
}
VF_CHECK(C09, vectors_and_scaling) {
  Vector4d p = point("p"); double k = vf_real("k");
  vf_lemma(sq(p) > 0, "not zero");
  HomogeneousPoint a(p), b(p);
  vf_check(!a.isVector() && !a.atInfinity(), "finite point");
  a.scale(k);
  Vector3d e = euclid(p);
  same(euclid(a.toHomogeneous()), Vector3d(k * e[0], k * e[1], k * e[2]), 1e-3 + mag(e) * (1 + ab(k)), "scaling scales the Euclidean point");
  b.convertToVector();
  vf_check(b.isVector() && b.atInfinity(), "vector");
  equal(b.toHomogeneous(), Vector4d(p[0], p[1], p[2], 0), "direction is kept");
}
static void columns(int r, int c) {
  double x[20]; vf_vec("x", 20, x);
  Eigen::MatrixXd M(r, c), H(r + 1, c);
  for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) M(i, j) = x[i * 4 + j];
  for (int j = 0; j < c; ++j) { vf_assume(x[16 + j] != 0); if (vf_native()) vf_assume(std::fabs(x[16 + j]) > TINY); }
  for (int i = 0; i <= r; ++i) for (int j = 0; j < c; ++j) H(i, j) = i < r ? M(i, j) : x[16 + j];
  Eigen::MatrixXd A = toHomogeneousColumns(M), B = fromHomogeneousColumns(H);
  vf_check(A.rows() == r + 1 && A.cols() == c && B.rows() == r && B.cols() == c, "size");
  for (int j = 0; j < c; ++j) {
    for (int i = 0; i <= r; ++i) vf_check_eq(A(i, j), i < r ? M(i, j) : 1.0, 1, "to homogeneous, column by column");
    for (int i = 0; i < r; ++i) vf_check_eq(B(i, j), H(i, j) / H(r, j), 1e-3 + ab(H(i, j) / H(r, j)), "from homogeneous, column by column");
  }
}
VF_CHECK(C09, columns_of_any_small_size) { int r = 1 + vf_choice("r", 4), c = vf_choice("c", 5); columns(r, c); }
