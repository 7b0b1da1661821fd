// Poses, perturbations, covariances: specification vocabulary for C06..C12.
#pragma once
#include "rot_spec.hpp"
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/kinematics/homogeneous_coordinates.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>

namespace spec {
typedef Eigen::Matrix<double, 6, 6> Matrix6d;
typedef Eigen::Matrix<double, 6, 1> Vector6d;
typedef Eigen::Matrix<double, 4, 6> Matrix46;

// matrix product, written out (independent of Eigen's product kernels)
template <int R, int K, int C>
inline Eigen::Matrix<double, R, C> mm(const Eigen::Matrix<double, R, K> &A, const Eigen::Matrix<double, K, C> &B) {
  Eigen::Matrix<double, R, C> P;
  for (int i = 0; i < R; ++i)
    for (int j = 0; j < C; ++j) {
      double s = 0;
      for (int k = 0; k < K; ++k) s += A(i, k) * B(k, j);
      P(i, j) = s;
    }
  return P;
}
template <int R, int C> inline Eigen::Matrix<double, C, R> tr(const Eigen::Matrix<double, R, C> &A) {
  Eigen::Matrix<double, C, R> P;
  for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) P(j, i) = A(i, j);
  return P;
}
template <int R, int K>
inline Eigen::Matrix<double, R, R> carry(const Eigen::Matrix<double, R, K> &J, const Eigen::Matrix<double, K, K> &U) {
  return mm<R, K, R>(mm<R, K, K>(J, U), tr<R, K>(J));
}
template <int N> inline Eigen::Matrix<double, N, N> any_matrix(const char *n) { Eigen::Matrix<double, N, N> U; vf_vec(n, N * N, U.data()); return U; }
template <int N> inline Eigen::Matrix<double, N, N> symmetric(const char *n) {
  double u[N * (N + 1) / 2];
  vf_vec(n, N * (N + 1) / 2, u);
  Eigen::Matrix<double, N, N> U;
  int k = 0;
  for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) { U(i, j) = u[k]; U(j, i) = u[k]; ++k; }
  return U;
}
inline Matrix4d pose_matrix(const Matrix3d &R, const Vector3d &t) {
  Matrix4d T;
  for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) T(i, j) = R(i, j); T(i, 3) = t[i]; T(3, i) = 0; }
  T(3, 3) = 1;
  return T;
}
inline Matrix4d pose_matrix(const Vector4d &q, const Vector3d &t) { return pose_matrix(quat_matrix(q), t); }
inline Matrix3d rot(const Matrix4d &T) { Matrix3d R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = T(i, j); return R; }
inline Vector3d trans(const Matrix4d &T) { return Vector3d(T(0, 3), T(1, 3), T(2, 3)); }
inline Matrix4d pose_inverse(const Matrix4d &T) {
  Matrix3d Rt = tr<3, 3>(rot(T));
  Vector3d t = mul(Rt, trans(T));
  return pose_matrix(Rt, Vector3d(-t[0], -t[1], -t[2]));
}
// library convention: the perturbation d = (rho, phi) changes T to (1 - twist(d)) T to first order,
// twist(d) = [ [phi]x, -rho; 0, 0 ]
inline Matrix4d twist(const Vector6d &d) {
  Matrix3d X = cross(Vector3d(d[3], d[4], d[5]));
  Matrix4d B;
  for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) B(i, j) = X(i, j); B(i, 3) = -d[i]; }
  for (int j = 0; j < 4; ++j) B(3, j) = 0;
  return B;
}
// first-order change of a homogeneous point: v -> v + point_jacobian(v) d
inline Matrix46 point_jacobian(const Vector4d &v) {
  Matrix46 J;
  for (int c = 0; c < 6; ++c) {
    Vector6d e;
    for (int i = 0; i < 6; ++i) e[i] = i == c ? 1 : 0;
    Vector4d u = mm<4, 4, 1>(twist(e), v);
    for (int i = 0; i < 4; ++i) J(i, c) = -u[i];
  }
  return J;
}
// twist(adjoint(T) d) = T twist(d) T^-1
inline Matrix6d adjoint(const Matrix4d &T) {
  Matrix6d A;
  Matrix4d Ti = pose_inverse(T);
  for (int c = 0; c < 6; ++c) {
    Vector6d e;
    for (int i = 0; i < 6; ++i) e[i] = i == c ? 1 : 0;
    Matrix4d X = mm<4, 4, 4>(mm<4, 4, 4>(T, twist(e)), Ti);
    for (int i = 0; i < 3; ++i) A(i, c) = -X(i, 3);
    A(3, c) = X(2, 1); A(4, c) = X(0, 2); A(5, c) = X(1, 0);
  }
  return A;
}
// closed form of the same (equality of the two is an obligation of C07)
inline Matrix6d adjoint_closed(const Matrix3d &R, const Vector3d &t) {
  Matrix3d X = mul(cross(t), R);
  Matrix6d A;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) { A(i, j) = R(i, j); A(3 + i, 3 + j) = R(i, j); A(3 + i, j) = 0; A(i, 3 + j) = -X(i, j); }
  return A;
}
inline Matrix3d rotation_vector_matrix_d(const Vector3d &a) {
  if (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] == 0) return Matrix3d::Identity();
  M3<double> M = rotation_vector_matrix<double>(a.data());
  Matrix3d R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = M(i, j);
  return R;
}
inline Vector4d hom(const Vector3d &p) { return Vector4d(p[0], p[1], p[2], 1); }
template <class A, class B> inline void equal(const A &a, const B &b, const char *name) { same(a, b, 1e-3 + mag(b), name); }
} // namespace spec
