#include "rot_spec.hpp"
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
using namespace sm::kinematics;
using namespace spec;
typedef Eigen::Matrix<double, 3, 6> Matrix36;

static Vector3d parameters(Param k) {
  if (k <= ZXY) return Vector3d(vf_angle("p0"), vf_angle("p1"), vf_angle("p2"));
  return vec3("p");
}
static double squared(const Vector3d &p) { return p[0] * p[0] + p[1] * p[1] + p[2] * p[2]; }

// native evaluation only: the closed forms of the specification lose their digits for short rotation vectors
static void short_rotation_vector(const Vector3d &p) {
  if (squared(p) > 1e-6) return;
  Matrix3d X = cross(p), X2 = mul(X, X), S = RotationVector().parametersToSMatrix(p);
  double n = std::sqrt(squared(p));
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      vf_check_near(S(i, j), (i == j ? 1.0 : 0.0) - 0.5 * X(i, j) + X2(i, j) / 6, n * n * n + 1e-12, "series of the rate matrix");
}
template <class K> static void kinematics(Param k) {
  Vector3d p = parameters(k), pd = vec3("pd");
  if (k == RVEC && vf_native()) short_rotation_vector(p);
  if (k == RVEC) vf_assume(squared(p) >= (vf_native() ? 1e-6 : 1e-24));
  K kin;
  Vector3d w = kin.angularVelocityAndJacobian(p, pd, 0);
  Dual pp[3] = {Dual(p[0], pd[0]), Dual(p[1], pd[1]), Dual(p[2], pd[2])};
  M3<Dual> C = documented_matrix<Dual>(k, pp);
  double sc = 1e-3 + mag(pd);
  Matrix3d W = cross(w);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      double r = 0;
      for (int l = 0; l < 3; ++l) r += W(i, l) * C(l, j).v;
      vf_check_eq(C(i, j).d, -r, sc, "dC/dt = -[w]x C");
    }
  Matrix3d S = kin.parametersToSMatrix(p), S2;
  Vector3d Sp = mul(S, pd);
  for (int i = 0; i < 3; ++i) vf_check_eq(Sp[i], w[i], sc, "the angular velocity is the rate matrix times the rates");
  kin.parametersToRotationMatrix(p, &S2);
  same(S2, S, 1e-3, "the rate matrix reported with the rotation matrix is the rate matrix");
}
VF_CHECK(C05, yaw_pitch_roll_kinematics) { kinematics<EulerAnglesYawPitchRoll>(YPR); }
VF_CHECK(C05, zyx_kinematics) { kinematics<EulerAnglesZYX>(ZYX); }
VF_CHECK(C05, zxy_kinematics) { kinematics<EulerAnglesZXY>(ZXY); }
VF_CHECK(C05, rotation_vector_kinematics) { kinematics<RotationVector>(RVEC); }
VF_CHECK(C05, rodrigues_kinematics) { kinematics<EulerRodriguez>(RODRIGUES); }

template <class K> static void jacobian(Param k) {
  Vector3d p = parameters(k), pd = vec3("pd");
  if (k == RVEC) vf_assume(squared(p) >= (vf_native() ? 1e-4 : 1e-6));
  K kin;
  Matrix36 J;
  Vector3d w = kin.angularVelocityAndJacobian(p, pd, &J);
  double sc = 1e-3 + mag(pd) + (k == RODRIGUES ? 0 : 1);
  for (int c = 0; c < 3; ++c) {
    Dual pp[3];
    V3<Dual> d;
    for (int i = 0; i < 3; ++i) { pp[i] = Dual(p[i], i == c ? 1.0 : 0.0); d[i] = Dual(pd[i]); }
    M3<Dual> S = rate_matrix<Dual>(k, pp);
    V3<Dual> ws = mulv(S, d);
    for (int i = 0; i < 3; ++i) {
      vf_check_eq(w[i], ws[i].v, sc, "the angular velocity of the documented parametrisation");
      vf_check_eq(J(i, c), ws[i].d, sc, "derivative of the angular velocity with respect to the parameters");
      vf_check_eq(J(i, 3 + c), S(i, c).v, 1, "derivative of the angular velocity with respect to the rates");
    }
  }
}
VF_CHECK(C05, yaw_pitch_roll_jacobian) { jacobian<EulerAnglesYawPitchRoll>(YPR); }
VF_CHECK(C05, zyx_jacobian) { jacobian<EulerAnglesZYX>(ZYX); }
VF_CHECK(C05, zxy_jacobian) { jacobian<EulerAnglesZXY>(ZXY); }
VF_CHECK(C05, rotation_vector_jacobian) { jacobian<RotationVector>(RVEC); }
VF_CHECK(C05, rodrigues_jacobian) { jacobian<EulerRodriguez>(RODRIGUES); }

VF_CHECK(C05, rotation_vector_at_zero) {
  // limits at the zero vector: S = 1 - [p]x/2 + O(p^2), so w = p' - p x p'/2 and dw/dp = [p']x/2
  Vector3d z(0, 0, 0), pd = vec3("pd");
  RotationVector kin;
  Matrix36 J;
  Vector3d w = kin.angularVelocityAndJacobian(z, pd, &J);
  same(w, pd, 1e-3, "angular velocity at the zero vector");
  Matrix3d X = cross(pd), I = Matrix3d::Identity();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      vf_check_eq(J(i, j), 0.5 * X(i, j), 1e-3, "derivative with respect to the parameters at the zero vector");
      vf_check_eq(J(i, 3 + j), I(i, j), 1e-3, "derivative with respect to the rates at the zero vector");
    }
  same(kin.parametersToSMatrix(z), I, 1, "rate matrix at the zero vector");
  same(kin.parametersToInverseSMatrix(z), I, 1, "inverse rate matrix at the zero vector");
}
VF_CHECK(C05, inverse_rate_matrix_of_the_rotation_vector) {
  Vector3d p = vec3("p");
  double a = std::sqrt(squared(p)), h = std::sin(a * 0.5);
  vf_assume(a >= 1e-3);
  vf_assume(h * h > (vf_native() ? 1e-4 * a * a / (1 + a * a) : 0.0));   // regular away from full turns
  vf_candidate(std::cos(a * 0.5)); vf_candidate(h);
  RotationVector kin;
  Matrix3d P = mul(Matrix3d(kin.parametersToSMatrix(p)), Matrix3d(kin.parametersToInverseSMatrix(p)));
  same(P, Matrix3d::Identity().eval(), 1, "rate matrix times inverse rate matrix is the identity");
}
static const double short_vector = 0.01;
static double pos(double x) { return x < 0 ? -x : x; }
// 1 + [p]x/2 + k [p]x^2 with k = (1 - h cot h)/t^2 = 1/12 + t^2/720 + O(t^4), h = t/2, for short p
template <class F> static void short_log_differential(double bound, F f, const char *what) {
  Vector3d p = vec3("p");
  double t2 = squared(p), t = std::sqrt(t2), h = 0.5 * t, s = std::sin(h), c = std::cos(h);
  vf_assume(t < bound);
  vf_assume(t > 0);
  vf_candidate(c); vf_candidate(s);
  vf_lemma(t2 <= 1.01e-4, "length");
  vf_lemma(s > 0.49 * t, "sin x ~ x");
  double k = (s - h * c) / (t2 * s), dk = k - 1.0 / 12.0;
  vf_lemma(dk <= 1e-6, "series of the coefficient");
  vf_lemma(dk >= -1e-6, "series of the coefficient");
  for (int i = 0; i < 3; ++i) {
    vf_lemma(p[i] <= t, "components are bounded by the length"); vf_lemma(p[i] >= -t, "components are bounded by the length");
    for (int j = 0; j <= i; ++j) {
      double b = p[i] * p[j];
      vf_lemma(b <= t2, "second order"); vf_lemma(b >= -t2, "second order");
      vf_lemma(dk * b <= 2e-10, "second order"); vf_lemma(dk * b >= -2e-10, "second order");
      vf_lemma(t2 * b <= 2e-8, "fourth order"); vf_lemma(t2 * b >= -2e-8, "fourth order");
    }
  }
  Matrix3d G = f(p), X = cross(p), X2 = mul(X, X);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      vf_check_near(G(i, j), (i == j ? 1.0 : 0.0) + 0.5 * X(i, j) + X2(i, j) / 12.0, 1e-9, what);
}
static Matrix3d inverse_rate(const Vector3d &p) { RotationVector kin; return kin.parametersToInverseSMatrix(p); }
static Matrix3d log_differential(const Vector3d &p) { return logDiffMat(p); }
VF_CHECK(C05, inverse_rate_matrix_of_a_short_rotation_vector) {
  short_log_differential(1e-3, inverse_rate, "inverse rate matrix of a short vector");
}
VF_CHECK(C05, differential_of_the_logarithm_of_short_vectors) {
  vf_body(vf_sig<Matrix3d(const Vector3d &)>(&logDiffMat<double>));
  short_log_differential(short_vector, log_differential, "logDiffMat of a short vector");
}
VF_CHECK(C05, rotation_vector_jacobian_of_short_vectors) {
  Vector3d p = vec3("p"), pd = vec3("pd");
  vf_assume(squared(p) < 0.9e-8);
  RotationVector kin;
  Matrix36 J;
  kin.angularVelocityAndJacobian(p, pd, &J);
  Matrix3d X = cross(pd);
  double dot = p[0] * pd[0] + p[1] * pd[1] + p[2] * pd[2], m = pos(pd[0]) + pos(pd[1]) + pos(pd[2]);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)   // from w = p' - p x p'/2 + p x (p x p')/6 + O(|p|^3)
      vf_check_near(J(i, j), 0.5 * X(i, j) + ((i == j ? dot : 0.0) + p[i] * pd[j] - 2.0 * pd[i] * p[j]) / 6.0, 1e-8 * m + 1e-300, "derivative at a short vector");
}
// ---- quaternions: the exponential e(a) = (a sin(t/2)/t, cos(t/2)), the logarithm l(q) = 2 acos(q3) qe/|qe|
VF_CHECK(C05, quaternion_rates) {
  Vector4d q = unit_quat("q");
  Vector3d w = vec3("w");
  Vector4d qd = quat_mul(Vector4d(0.5 * w[0], 0.5 * w[1], 0.5 * w[2], 0), q);   // dC/dt = -[w]x C
  Eigen::Matrix<double, 4, 3> G = quatInvS(q), Jq = quatJacobian(q);
  Eigen::Matrix<double, 3, 4> S = quatS(q);
  double sc = 1e-3 + mag(w);
  for (int i = 0; i < 4; ++i) {
    vf_check_eq(G(i, 0) * w[0] + G(i, 1) * w[1] + G(i, 2) * w[2], qd[i], sc, "quatInvS maps the angular velocity to the quaternion rate");
    vf_check_eq(Jq(i, 0) * w[0] + Jq(i, 1) * w[1] + Jq(i, 2) * w[2], qd[i], sc, "quatJacobian is the derivative of the quaternion update");
  }
  for (int i = 0; i < 3; ++i)
    vf_check_eq(S(i, 0) * qd[0] + S(i, 1) * qd[1] + S(i, 2) * qd[2] + S(i, 3) * qd[3], w[i], sc, "quatS maps the quaternion rate to the angular velocity");
}
// d/da of the exponential, column c
static void exp_derivative(const Vector3d &a, int c, Dual *q) {
  Dual d[3];
  for (int i = 0; i < 3; ++i) d[i] = Dual(a[i], i == c ? 1.0 : 0.0);
  Dual t = sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), h = t * Dual(0.5), s = sin(h) / t;
  for (int i = 0; i < 3; ++i) q[i] = d[i] * s;
  q[3] = cos(h);
}
VF_CHECK(C05, derivative_of_the_exponential) {
  Vector3d a = vec3("a");
  vf_assume(squared(a) > (vf_native() ? 1e-4 : 0.0));
  Eigen::Matrix<double, 4, 3> J = quatExpJacobian(a);
  for (int c = 0; c < 3; ++c) {
    Dual q[4];
    exp_derivative(a, c, q);
    for (int i = 0; i < 4; ++i) vf_check_eq(J(i, c), q[i].d, 1e-2, "quatExpJacobian is the derivative of the exponential");
  }
}
VF_CHECK(C05, derivative_of_the_exponential_at_zero) {
  Eigen::Matrix<double, 4, 3> J = quatExpJacobian(Vector3d(0, 0, 0));
  for (int i = 0; i < 4; ++i) for (int c = 0; c < 3; ++c) vf_check_eq(J(i, c), i == c ? 0.5 : 0.0, 1, "quatExpJacobian at zero");
  same(expDiffMat(Vector3d(0, 0, 0)), Matrix3d::Identity().eval(), 1, "expDiffMat at zero");
  same(logDiffMat(Vector3d(0, 0, 0)), Matrix3d::Identity().eval(), 1, "logDiffMat at zero");
}
VF_CHECK(C05, differential_of_the_exponential) {
  Vector3d a = vec3("a");
  vf_assume(squared(a) >= 4e-8);
  vf_body(vf_sig<Matrix3d(const Vector3d &)>(&expDiffMat<double>));
  same(expDiffMat(a), rate_matrix<double>(RVEC, a.data()), 1, "expDiffMat is the rate matrix of the rotation vector");
}
static Matrix3d rate_matrix_of(const Vector3d &a) {
  M3<double> S = rate_matrix<double>(RVEC, a.data());
  Matrix3d R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = S(i, j);
  return R;
}
VF_CHECK(C05, differential_of_the_exponential_of_short_vectors) {
  Vector3d a = vec3("a");
  double t2 = squared(a), t = std::sqrt(t2), h = 0.5 * t, s = std::sin(h), S = std::sin(t);
  vf_assume(t < 2e-4);
  vf_assume(t > 0);
  vf_body(vf_sig<Matrix3d(const Vector3d &)>(&expDiffMat<double>));
  // coefficients of the differential and their series
  double p = 2.0 * s * s / t2, q = (t - S) / (t2 * t), dp = p - 0.5 * (1.0 - t2 / 12.0), dq = q - (1.0 - t2 / 20.0) / 6.0;
  vf_lemma(t2 <= 5e-8, "length");
  vf_lemma(dp <= 1e-10, "series"); vf_lemma(dp >= -1e-10, "series");
  vf_lemma(dq <= 1e-9, "series"); vf_lemma(dq >= -1e-9, "series");
  for (int i = 0; i < 3; ++i) {
    vf_lemma(a[i] <= t, "components are bounded by the length"); vf_lemma(a[i] >= -t, "components are bounded by the length");
    vf_lemma(dp * a[i] <= 2e-14, "first order"); vf_lemma(dp * a[i] >= -2e-14, "first order");
    vf_lemma(t2 * a[i] <= 1e-11, "third order"); vf_lemma(t2 * a[i] >= -1e-11, "third order");
    for (int j = 0; j <= i; ++j) {
      double b = a[i] * a[j];
      vf_lemma(b <= t2, "second order"); vf_lemma(b >= -t2, "second order");
      vf_lemma(dq * b <= 1e-16, "second order"); vf_lemma(dq * b >= -1e-16, "second order");
      vf_lemma(t2 * b <= 1e-14, "fourth order"); vf_lemma(t2 * b >= -1e-14, "fourth order");
    }
  }
  Matrix3d X = cross(a), X2 = mul(X, X), D = expDiffMat(a), E = rate_matrix_of(a);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) vf_check_near(D(i, j), E(i, j), 1e-13, "expDiffMat of a short vector");
}
VF_CHECK(C05, differential_of_the_logarithm) {
  Vector3d a = vec3("a");
  double t = std::sqrt(squared(a)), h = std::sin(t * 0.5);
  vf_assume(t >= short_vector);
  vf_assume(h * h > (vf_native() ? 1e-4 : 0.0));
  vf_candidate(std::cos(t * 0.5)); vf_candidate(h);
  vf_body(vf_sig<Matrix3d(const Vector3d &)>(&logDiffMat<double>));
  Matrix3d P = mul(Matrix3d(logDiffMat(a)), rate_matrix_of(a));
  same(P, Matrix3d::Identity().eval(), 1, "logDiffMat is the inverse of expDiffMat");
}
// tangent of the unit sphere at q: quaternion rates of all angular velocities w
static void log_derivative(const Vector4d &q, const Vector4d &d, double *l) {
  Dual e[3];
  for (int i = 0; i < 3; ++i) e[i] = Dual(q[i], d[i]);
  Dual n = sqrt(e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
  double ang = 2.0 * std::atan2(n.v, q[3]), angd = -(2.0 * d[3]) / n.v;   // d acos(h) = -dh / sqrt(1 - h^2)
  Dual s = Dual(ang, angd) / n;
  for (int i = 0; i < 3; ++i) l[i] = (e[i] * s).d;
}
template <class F> static void log_jacobian(F f, const char *what) {
  Vector4d q = unit_quat("q");
  Vector3d w = vec3("w");
  double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
  vf_assume(n > (vf_native() ? 1e-7 : 1e-9));
  vf_assume(q[3] > (vf_native() ? -0.999 : -1.0));
  vf_candidate(n); vf_candidate(q[3]);
  vf_candidate(2.0 * std::acos(q[3])); vf_candidate(std::acos(q[3]));
  vf_candidate(M_PI - std::acos(q[3])); vf_candidate(n * n);
  Vector4d d = quat_mul(Vector4d(0.5 * w[0], 0.5 * w[1], 0.5 * w[2], 0), q);
  double l[3];
  log_derivative(q, d, l);
  Eigen::Matrix<double, 3, 4> J = f(q);
  for (int i = 0; i < 3; ++i)
    vf_check_eq(J(i, 0) * d[0] + J(i, 1) * d[1] + J(i, 2) * d[2] + J(i, 3) * d[3], l[i], 1e-2 + mag(w) * (q[3] > 0 ? 1 : 1 / (n * n)), what);
}
static Eigen::Matrix<double, 3, 4> jac_log1(const Vector4d &q) { return quatLogJacobian(q); }
static Eigen::Matrix<double, 3, 4> jac_log2(const Vector4d &q) { return quatLogJacobian2(q); }
VF_CHECK(C05, derivative_of_the_logarithm) { log_jacobian(jac_log1, "quatLogJacobian is the derivative of the logarithm along the unit quaternions"); }
VF_CHECK(C05, derivative_of_the_logarithm_2) { log_jacobian(jac_log2, "quatLogJacobian2 is the derivative of the logarithm along the unit quaternions"); }
