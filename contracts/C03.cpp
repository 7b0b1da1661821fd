#include "kin_spec.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/rotations.hpp>
using namespace sm::kinematics;
using namespace spec;

static double len(const Vector3d &a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
static const double working_precision = 4e-15;
static const double short_vector = 0.01;

VF_CHECK(C03, exponential) {
  Vector3d a = vec3("a");
  vf_body(vf_p(&axisAngle2quat));
  double t = len(a);
  vf_assume(t >= short_vector);
  Vector4d q = axisAngle2quat(a);
  double s = std::sin(t * 0.5);
  for (int i = 0; i < 3; ++i) vf_check_eq(q[i] * t, a[i] * s, 1e-3 * t, "vector part is sin(|a|/2) a/|a|");
  vf_check_eq(q[3], std::cos(t * 0.5), 1, "scalar part is cos(|a|/2)");
  vf_check_eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], 1.0, 1, "unit length");
}
VF_CHECK(C03, exponential_of_short_vectors) {
  Vector3d a = vec3("a");
  vf_body(vf_p(&axisAngle2quat));
  double t = len(a);
  vf_assume(t < short_vector);
  Vector4d q = axisAngle2quat(a);
  double s = std::sin(t * 0.5);
  for (int i = 0; i < 3; ++i) vf_check_near(q[i] * t, a[i] * s, working_precision * std::fabs(a[i]) * t, "vector part of a short vector");
  vf_check_eq(q[3], std::cos(t * 0.5), 1, "scalar part of a short vector");
  if (t == 0) same(q, Vector4d(0, 0, 0, 1), 1, "exponential of zero is the identity");
}
VF_CHECK(C03, matrix_exponential) {
  Vector3d a = vec3("a");
  vf_body(vf_sig<Matrix3d(Vector3d const &)>(&axisAngle2R));
  double t = len(a);
  vf_assume(t > 1e-11);
  Vector4d q;
  double s = std::sin(t * 0.5) / t;
  for (int i = 0; i < 3; ++i) q[i] = a[i] * s;
  q[3] = std::cos(t * 0.5);
  Matrix3d R = quat_matrix(q);
  same(axisAngle2R(a), R, 1, "axisAngle2R(vector) is the matrix of the exponential");
  same(axisAngle2R(a[0], a[1], a[2]), R, 1, "axisAngle2R(x,y,z) is the matrix of the exponential");
}
VF_CHECK(C03, matrix_exponential_of_short_vectors) {
  Vector3d a = vec3("a");
  double t = len(a);
  vf_assume(t <= 1e-11);
  vf_assume(t > 0);
  Vector4d q;
  double s = std::sin(t * 0.5), h = std::cos(t * 0.5);
  for (int i = 0; i < 3; ++i) q[i] = a[i] * s / t;
  q[3] = h;
  if (t <= 1e-12) {
    vf_lemma(s <= t * 0.5, "sin x <= x");
    vf_lemma(s >= 0.0, "sin x >= 0");
    for (int i = 0; i < 3; ++i) {
      double ai = a[i];
      vf_lemma(ai <= t, "components are bounded by the length");
      vf_lemma(ai >= -t, "components are bounded by the length");
      vf_lemma(q[i] <= 0.5e-12, "vector part of a vanishing rotation");
      vf_lemma(q[i] >= -0.5e-12, "vector part of a vanishing rotation");
    }
  }
  Matrix3d R = axisAngle2R(a), Q = quat_matrix(q);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) vf_check_near(R(i, j), Q(i, j), 1.1e-12, "axisAngle2R of a vanishing vector");
}
VF_CHECK(C03, matrix_of_axis_and_angle) {
  Vector3d e = unit3("e");
  double a = vf_angle("a");
  vf_assume(std::fabs(a) > 1e-12);
  Vector4d q;
  for (int i = 0; i < 3; ++i) q[i] = e[i] * std::sin(a * 0.5);
  q[3] = std::cos(a * 0.5);
  same(axisAngle2R(a, e[0], e[1], e[2]), quat_matrix(q), 1, "axisAngle2R(angle, axis), angle of any sign");
}
VF_CHECK(C03, logarithm) {
  Vector4d q = unit_quat("q");
  vf_assume(q[3] > -1);
  Vector3d e(q[0], q[1], q[2]);
  double na = len(e);
  vf_assume(na >= short_vector);
  vf_candidate(2.0 * std::acos(q[3]));
  vf_candidate(2.0 * std::asin(na));
  vf_candidate(2.0 * (M_PI - std::asin(na)));
  vf_body(vf_sig<Vector3d(Vector4d const &)>(&quat2AxisAngle<double>));
  Vector3d v = quat2AxisAngle(q);
  double t = len(v), s = std::sin(t * 0.5);
  for (int i = 0; i < 3; ++i) vf_check_eq(q[i] * t, v[i] * s, 1, "exponential of the logarithm (vector part)");
  vf_check_eq(q[3], std::cos(t * 0.5), 1, "exponential of the logarithm (scalar part)");
  vf_check_le(t, 2 * M_PI, 1e-9, "the logarithm is shorter than a full turn");
}
VF_CHECK(C03, logarithm_near_identity) {
  vf_body(vf_sig<Vector3d(Vector4d const &)>(&quat2AxisAngle<double>));
  Vector4d q = unit_quat("q");
  vf_assume(q[3] > 0);
  Vector3d e(q[0], q[1], q[2]);
  double na = len(e);
  vf_assume(na < short_vector);
  Vector3d v = quat2AxisAngle(q);
  for (int i = 0; i < 3; ++i) vf_check_near(v[i] * na, e[i] * 2.0 * std::asin(na), working_precision * std::fabs(e[i]) * na, "logarithm near the identity");
}
VF_CHECK(C03, logarithm_near_minus_identity) {
  vf_body(vf_sig<Vector3d(Vector4d const &)>(&quat2AxisAngle<double>));
  Vector4d q = unit_quat("q");
  vf_assume(q[3] < 0);
  Vector3d e(q[0], q[1], q[2]);
  double na = len(e);
  vf_assume(na < short_vector);
  vf_assume(na > 1e-9);
  Vector3d v = quat2AxisAngle(q);
  for (int i = 0; i < 3; ++i) vf_check_eq(v[i] * na, e[i] * 2.0 * (M_PI - std::asin(na)), na, "logarithm near minus identity");
}
VF_CHECK(C03, logarithm_of_exponential) {
  Vector3d a = vec3("a");
  double t = len(a);
  vf_assume(t < M_PI);
  vf_assume(t >= short_vector);
  vf_candidate(0.5 * t);
  vf_candidate(std::sin(0.5 * t));
  vf_candidate(std::cos(0.5 * t));
  Vector3d v = quat2AxisAngle(axisAngle2quat(a));
  same(v, a, 1, "logarithm of the exponential is the vector");
}
VF_CHECK(C03, logarithm_of_exponential_of_short_vectors) {
  Vector3d a = vec3("a");
  double t = len(a);
  vf_assume(t < short_vector);
  vf_candidate(0.5 * t);
  vf_candidate(std::sin(0.5 * t));
  vf_candidate(std::cos(0.5 * t));
  Vector3d v = quat2AxisAngle(axisAngle2quat(a));
  for (int i = 0; i < 3; ++i) vf_check_near(v[i], a[i], 4 * working_precision * std::fabs(a[i]), "logarithm of the exponential of a short vector");
}
VF_CHECK(C03, aliases) {
  Vector3d a = vec3("a");
  Vector4d q = unit_quat("q");
  vf_assume(q[3] > 0);
  same(qexp(a), axisAngle2quat(a), 1e-9, "qexp is the exponential");
  same(qlog(q), quat2AxisAngle(q), 1e-9, "qlog is the logarithm");
}
VF_CHECK(C03, update) {
  Vector4d q = vec4("q");
  Vector3d d = vec3("d");
  vf_body(vf_p(&updateQuat));
  same(updateQuat(q, d), quat_mul(axisAngle2quat(d), q), mag(q), "updateQuat multiplies by the exponential of the increment");
}
VF_CHECK(C03, rotation_vector_of_matrix) {
  Vector4d u = unit_quat("u");
  Vector3d e(u[0], u[1], u[2]);
  double n = len(e);
  vf_assume(n >= 1e-12); // (closer to the identity Eigen switches to a scaled norm)
  for (int i = 0; i < 4; ++i) vf_candidate(2.0 * u[i]);
  vf_candidate(n);
  vf_candidate(2.0 * std::atan2(n, std::fabs(u[3])));
  vf_body(vf_p(&R2AxisAngle));
  Matrix3d R = quat_matrix(u);
  Vector3d v = R2AxisAngle(R);
  double t = len(v);
  vf_check_le(t, M_PI, 1e-9, "the rotation vector is not longer than half a turn");
  Vector4d q;
  double s = std::sin(t * 0.5) / t;
  for (int i = 0; i < 3; ++i) q[i] = v[i] * s;
  q[3] = std::cos(t * 0.5);
  same(quat_matrix(q), R, 1, "the exponential of the extracted rotation vector is the given matrix");
}
