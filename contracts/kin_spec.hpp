// Specification vocabulary for sm_kinematics, written from the mathematics (independent of the implementation).
#pragma once
#include "contract.hpp"
#include <Eigen/Core>
#include <cmath>

namespace spec {
using Eigen::Matrix3d;
using Eigen::Matrix4d;
using Eigen::Vector3d;
using Eigen::Vector4d;

inline Vector4d unit_quat(const char *n) { Vector4d q; vf_unit(n, 4, q.data()); return q; }
inline Vector3d unit3(const char *n) { Vector3d q; vf_unit(n, 3, q.data()); return q; }
inline Vector4d vec4(const char *n) { Vector4d q; vf_vec(n, 4, q.data()); return q; }
inline Vector3d vec3(const char *n) { Vector3d q; vf_vec(n, 3, q.data()); return q; }

inline Matrix3d cross(const Vector3d &v) {
  Matrix3d C;
  C(0, 0) = 0; C(0, 1) = -v[2]; C(0, 2) = v[1];
  C(1, 0) = v[2]; C(1, 1) = 0; C(1, 2) = -v[0];
  C(2, 0) = -v[1]; C(2, 1) = v[0]; C(2, 2) = 0;
  return C;
}
// library convention: quaternion (e, h), vector part first; C(q) = (h^2 - e.e) 1 + 2 e e^T - 2 h [e]x
inline Matrix3d quat_matrix(const Vector4d &q) {
  Vector3d e(q[0], q[1], q[2]);
  double h = q[3], d = h * h - (e[0] * e[0] + e[1] * e[1] + e[2] * e[2]);
  Matrix3d X = cross(e), R;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      R(i, j) = (i == j ? d : 0.0) + 2.0 * (e[i] * e[j]) - 2.0 * h * X(i, j);
  return R;
}
// composition: C(mul(q,p)) = C(q) C(p)
inline Vector4d quat_mul(const Vector4d &q, const Vector4d &p) {
  Vector4d r;
  Vector3d a(q[0], q[1], q[2]), b(p[0], p[1], p[2]);
  Vector3d c(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
  for (int i = 0; i < 3; ++i) r[i] = q[3] * b[i] + p[3] * a[i] - c[i];
  r[3] = q[3] * p[3] - (a[0] * b[0] + a[1] * b[1] + a[2] * b[2]);
  return r;
}
inline Vector4d quat_conj(const Vector4d &q) { return Vector4d(-q[0], -q[1], -q[2], q[3]); }

inline Matrix3d mul(const Matrix3d &A, const Matrix3d &B) {
  Matrix3d C;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) C(i, j) = A(i, 0) * B(0, j) + A(i, 1) * B(1, j) + A(i, 2) * B(2, j);
  return C;
}
inline Vector3d mul(const Matrix3d &A, const Vector3d &v) {
  Vector3d r;
  for (int i = 0; i < 3; ++i) r[i] = A(i, 0) * v[0] + A(i, 1) * v[1] + A(i, 2) * v[2];
  return r;
}
inline double det(const Matrix3d &R) {
  return R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) +
         R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0));
}
template <class A, class B> inline void same(const A &a, const B &b, double scale, const char *name) {
  for (int i = 0; i < (int)a.rows(); ++i)
    for (int j = 0; j < (int)a.cols(); ++j) vf_check_eq(a(i, j), b(i, j), scale, name);
}
template <class A> inline double mag(const A &a) {
  double m = 0;
  if (!vf_native()) return 1;
  for (int i = 0; i < (int)a.rows(); ++i)
    for (int j = 0; j < (int)a.cols(); ++j) m += std::fabs(a(i, j));
  return m;
}
inline double ab(double x) { return vf_scale(x); }
inline void proper_rotation(const Matrix3d &R, const char *name) {
  Matrix3d Rt = R.transpose();
  same(mul(R, Rt), Matrix3d::Identity().eval(), 1, name);
  vf_check_eq(det(R), 1.0, 1, name);
}
} // namespace spec
