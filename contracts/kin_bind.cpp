// Contracts used at call sites inside sm_kinematics: the callee's body is replaced by its specification.
// Each of these is established by the entry of C01..C03 that lists the function in vf_body().
#include "rot_spec.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
using namespace spec;
static void unit_required(const Vector4d &q) {
  vf_requires(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] == 1.0, "unit quaternion");
}
static Matrix3d s_quat2r(const Vector4d &q) { unit_required(q); return quat_matrix(q); }
static Vector4d s_qplus(const Vector4d &q, const Vector4d &p) { return quat_mul(q, p); }
static Vector4d s_qoplus(const Vector4d &q, const Vector4d &p) { return quat_mul(p, q); }
static Vector4d s_quatInv(const Vector4d &q) { return quat_conj(q); }
static Vector3d s_quatRotate(const Vector4d &q, const Vector3d &v) { unit_required(q); return mul(quat_matrix(q), v); }
static Vector4d s_quatIdentity() { return Vector4d(0, 0, 0, 1); }
static Matrix4d s_quatPlus(const Vector4d &q) {
  Matrix4d A; for (int j = 0; j < 4; ++j) { Vector4d u(0, 0, 0, 0); u[j] = 1; Vector4d c = quat_mul(q, u); for (int i = 0; i < 4; ++i) A(i, j) = c[i]; } return A;
}
static Matrix4d s_quatOPlus(const Vector4d &q) {
  Matrix4d A; for (int j = 0; j < 4; ++j) { Vector4d u(0, 0, 0, 0); u[j] = 1; Vector4d c = quat_mul(u, q); for (int i = 0; i < 4; ++i) A(i, j) = c[i]; } return A;
}
// exact exponential: the series used for short vectors agrees with it to working precision (C03, exponential_of_short_vectors)
static Vector4d s_axisAngle2quat(const Vector3d &a) {
  double t = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
  if (t == 0) return Vector4d(0, 0, 0, 1);
  double s = std::sin(t * 0.5) / t;
  return Vector4d(a[0] * s, a[1] * s, a[2] * s, std::cos(t * 0.5));
}
// exact logarithm (C03, logarithm and logarithm_near_identity)
static Vector3d s_quat2AxisAngle(const Vector4d &q) {
  unit_required(q);
  double n = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
  if (n == 0) { vf_requires(q[3] > 0, "not minus identity"); return Vector3d(0, 0, 0); }
  double s = 2.0 * std::atan2(n, q[3]) / n;
  return Vector3d(q[0] * s, q[1] * s, q[2] * s);
}
// differentials of the exponential and of the logarithm (C05, differential_of_the_exponential / _logarithm and the short vector entries)
static Matrix3d s_expDiffMat(const Vector3d &a) {
  if (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] == 0) return Matrix3d::Identity();
  M3<double> S = rate_matrix<double>(RVEC, a.data());
  Matrix3d R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = S(i, j);
  return R;
}
static Matrix3d s_logDiffMat(const Vector3d &a) {
  double t2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2], t = std::sqrt(t2);
  if (t == 0) return Matrix3d::Identity();
  vf_requires(std::sin(t * 0.5) != 0, "not a full turn");
  double k = (1.0 - 0.5 * t * std::cos(t * 0.5) / std::sin(t * 0.5)) / t2;
  Matrix3d X = cross(a), X2 = mul(X, X), R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = (i == j ? 1.0 : 0.0) + 0.5 * X(i, j) + k * X2(i, j);
  return R;
}
extern "C" void vf_bindings() {
  using namespace sm::kinematics;
  vf_bind(vf_p(&quat2r), vf_p(&s_quat2r));
  vf_bind(vf_p(&qplus), vf_p(&s_qplus));
  vf_bind(vf_p(&qoplus), vf_p(&s_qoplus));
  vf_bind(vf_p(&quatInv), vf_p(&s_quatInv));
  vf_bind(vf_p(&quatRotate), vf_p(&s_quatRotate));
  vf_bind(vf_p(&quatIdentity), vf_p(&s_quatIdentity));
  vf_bind(vf_p(&axisAngle2quat), vf_p(&s_axisAngle2quat));
  vf_bind(vf_sig<Vector3d(Vector4d const &)>(&quat2AxisAngle<double>), vf_p(&s_quat2AxisAngle));
  vf_bind(vf_sig<Matrix3d(const Vector3d &)>(&expDiffMat<double>), vf_p(&s_expDiffMat));
  vf_bind(vf_sig<Matrix3d(const Vector3d &)>(&logDiffMat<double>), vf_p(&s_logDiffMat));
  vf_bind(vf_p(&quatPlus), vf_p(&s_quatPlus));
  vf_bind(vf_p(&quatOPlus), vf_p(&s_quatOPlus));
}
