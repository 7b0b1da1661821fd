// C12: point-set alignment recovers the rigid motion
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <complex>
#include <map>
#include <Eigen/Core>
#define protected public
#define private public
#include <Eigen/SVD>
#include <Eigen/Eigenvalues>
#undef private
#undef protected
#include "kin_spec.hpp"
#include <sm/kinematics/three_point_methods.hpp>
#include <sm/kinematics/rotations.hpp>
using namespace spec;
using sm::kinematics::threePointSvd;
using sm::kinematics::qMethod;

static Matrix3d transposed(const Matrix3d &A) { Matrix3d B; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) B(i, j) = A(j, i); return B; }
#ifndef VF_NATIVE
// What the decompositions are of: nothing is known (exact = false), or the motion relating the points
static struct { bool exact; Matrix3d R, S; Vector4d q; double largest; } ghost;

// Assumed contract of Eigen's singular value decomposition H = U diag(s) V^T with s0 >= s1 >= s2 >= 0, U and V orthogonal.
// When H = R S with a rotation R and S = sum d d^T over vectors d that span at least a plane (required), then
// V diag(s) V^T = S with s1 > 0, so u_k = R v_k for k < 2 and u_2 = +-R v_2, with + if s2 > 0 (uniqueness of the polar decomposition).
static Eigen::JacobiSVD<Matrix3d> &spec_svd(Eigen::JacobiSVD<Matrix3d> *d, const Matrix3d &H, unsigned options) {
  d->m_isInitialized = d->m_isAllocated = true;
  d->m_computationOptions = options;
  d->m_computeFullU = (options & Eigen::ComputeFullU) != 0;
  d->m_computeFullV = (options & Eigen::ComputeFullV) != 0;
  d->m_computeThinU = (options & Eigen::ComputeThinU) != 0;
  d->m_computeThinV = (options & Eigen::ComputeThinV) != 0;
  double v = vf_bool("V is proper") ? 1 : -1;
  Matrix3d V = quat_matrix(unit_quat("V")), U;
  for (int i = 0; i < 9; ++i) V.data()[i] *= v;
  if (ghost.exact) {
    Matrix3d W = mul(ghost.R, ghost.S);
    for (int i = 0; i < 9; ++i) vf_requires(H.data()[i] == W.data()[i], "the decomposition is of the covariance of the point sets");
    U = mul(ghost.R, V);
    if (vf_bool("planar, and the third vector is opposite")) for (int i = 0; i < 3; ++i) U(i, 2) = -U(i, 2);
  } else {
    U = quat_matrix(unit_quat("U"));
    double u = vf_bool("U is proper") ? 1 : -1;
    for (int i = 0; i < 9; ++i) U.data()[i] *= u;
  }
  d->m_matrixU = U;
  d->m_matrixV = V;
  double s2 = vf_real("smallest singular value"), s1 = vf_real("middle"), s0 = vf_real("largest");
  vf_assume(s2 >= 0); vf_assume(s1 >= s2); vf_assume(s0 >= s1);
  d->m_singularValues = Vector3d(s0, s1, s2);
  d->m_nonzeroSingularValues = 3;
  return *d;
}
// Assumed contract of Eigen's decomposition of symmetric matrices: eigenvalues in ascending order with orthonormal vectors.
// When q is a unit vector with K q = l q and l is larger than all other eigenvalues (required: K q = l q; that l is the
// largest and simple for vectors which are not all parallel is assumed), the last vector is q or -q.
static Eigen::SelfAdjointEigenSolver<Matrix4d> &spec_eigen(Eigen::SelfAdjointEigenSolver<Matrix4d> *d, const Matrix4d &K) {
  d->m_isInitialized = d->m_eigenvectorsOk = true;
  d->m_info = Eigen::Success;
  double a = vf_real("eigenvalue"), b = vf_real("eigenvalue"), c = vf_real("eigenvalue"), e = vf_real("eigenvalue");
  vf_assume(a <= b); vf_assume(b <= c);
  if (ghost.exact) {
    for (int i = 0; i < 4; ++i) {
      double s = 0;
      for (int j = 0; j < 4; ++j) {
        s += K(i, j) * ghost.q[j];
        vf_requires(K(i, j) == K(j, i), "a symmetric matrix");
      }
      vf_requires(s == ghost.largest * ghost.q[i], "the rotation is an eigenvector of the largest eigenvalue");
    }
    e = ghost.largest;
    vf_assume(c < e);
  } else vf_assume(c <= e);
  d->m_eivalues << a, b, c, e;
  Vector4d last = ghost.exact ? ghost.q : unit_quat("last vector");
  double sign = vf_bool("opposite sign") ? -1 : 1;
  for (int i = 0; i < 4; ++i) d->m_eivec(i, 3) = sign * last[i];
  // orthonormal to the last one: rotated by quaternion multiplication with three units, in any order and rotated among themselves
  // (only unit length of the other vectors is used)
  for (int k = 0; k < 3; ++k) { Vector4d o = unit_quat("other vector"); for (int i = 0; i < 4; ++i) d->m_eivec(i, k) = o[i]; }
  return *d;
}
extern "C" void vf_bindings() {
  Eigen::JacobiSVD<Matrix3d> &(Eigen::JacobiSVD<Matrix3d>::*svd)(const Matrix3d &, unsigned) = &Eigen::JacobiSVD<Matrix3d>::compute;
  vf_bind(vf_m(svd), vf_p(&spec_svd));
  vf_bind(vf_m(&Eigen::SelfAdjointEigenSolver<Matrix4d>::compute<Matrix4d>), vf_p(&spec_eigen));
}
#endif

static Vector3d column(const Eigen::MatrixXd &M, int i) { return Vector3d(M(0, i), M(1, i), M(2, i)); }

// the rotation is proper, whatever the points
static void svd_proper(int n) {
  Eigen::MatrixXd p0(3, n), p1(3, n);
  vf_vec("p0", 3 * n, p0.data());
  vf_vec("p1", 3 * n, p1.data());
#ifndef VF_NATIVE
  ghost.exact = false;
#endif
  Matrix4d T = threePointSvd(p0, p1);
  Matrix3d R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = T(i, j);
  proper_rotation(R, "a proper rotation");
  for (int j = 0; j < 4; ++j) vf_check(T(3, j) == (j == 3 ? 1 : 0), "a transformation matrix");
}
VF_CHECK(C12, svd_proper_3) { svd_proper(3); }
VF_CHECK(C12, svd_proper_4) { svd_proper(4); }

static void svd_exact(int n) {
  Vector4d q = unit_quat("rotation");
  Matrix3d R = quat_matrix(q);
  Vector3d t = vec3("translation");
  Eigen::MatrixXd p0(3, n), p1(3, n);
  vf_vec("p1", 3 * n, p1.data());
#ifdef VF_NATIVE
  int shape = vf_choice("shape", 5);
  if (shape == 1) for (int i = 0; i < n; ++i) p1(2, i) = p1(0, i) - 2 * p1(1, i);      // planar
  if (shape == 2) for (int i = 0; i < n; ++i) p1(vf_choice("flat", 3), i) = 0;
  if (shape == 3 && n > 4) {      // all but a few coincide
    bool first = vf_bool("the first ones");
    for (int i = 1, k = 2 + vf_choice("coinciding", n - 3); i < k; ++i) for (int a = 0; a < 3; ++a) { if (first) p1(a, i) = p1(a, 0); else p1(a, n - 1 - i) = p1(a, n - 1); }
  }
#endif
  Vector3d c(0, 0, 0);
  for (int i = 0; i < n; ++i) c += column(p1, i) / double(n);
  Matrix3d S;
  S.setZero();
  for (int i = 0; i < n; ++i) {
    Vector3d p = column(p1, i), d = p - c, r = mul(R, p) + t;
    for (int a = 0; a < 3; ++a) { p0(a, i) = r[a]; for (int b = 0; b < 3; ++b) S(a, b) += d[a] * d[b]; }
  }
  double size = 1;
#ifndef VF_NATIVE
  ghost.exact = true; ghost.R = R; ghost.S = S;
#else
  // not (nearly) collinear
  double tr = S.trace(), m2 = S(0, 0) * S(1, 1) - S(0, 1) * S(0, 1) + S(0, 0) * S(2, 2) - S(0, 2) * S(0, 2) + S(1, 1) * S(2, 2) - S(1, 2) * S(1, 2);
  if (!(m2 > 1e-4 * tr * tr)) return;
  size = 1 + t.norm() + std::sqrt(tr) + c.norm();
  if (std::sqrt(tr) * 1e4 < size) return;
#endif
  Matrix4d T = threePointSvd(p0, p1);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf_check_near(T(i, j), R(i, j), 1e-6, "the rotation");
  for (int i = 0; i < 3; ++i) vf_check_near(T(i, 3), t[i], 1e-6 * size, "the translation");
}
VF_CHECK(C12, svd_exact_3) { svd_exact(3); }
VF_CHECK(C12, svd_exact_4) { svd_exact(4); }

static void q_method(int n, bool exact, bool weighted) {
  Vector4d q = unit_quat("rotation");
  Matrix3d R = quat_matrix(q);
  Eigen::MatrixXd p0(3, n), p1(3, n);
  Eigen::VectorXd w(n);
  double sum = 0;
  for (int i = 0; i < n; ++i) {
    Vector3d p = unit3("p1"), r = exact ? mul(R, p) : unit3("p0");
    for (int a = 0; a < 3; ++a) { p1(a, i) = p[a]; p0(a, i) = r[a]; }
    double s = weighted ? vf_real("root of the weight") : 1;
#ifdef VF_NATIVE
    if (weighted) s = 0.1 + std::fabs(std::sin(s));
#endif
    vf_assume(s > 0);
    w[i] = s * s;
    sum += s * s;
  }
#ifndef VF_NATIVE
  ghost.exact = exact; ghost.q = q; ghost.largest = sum;
#else
  if (exact) {
    double spread = 0;
    for (int i = 1; i < n; ++i) spread = std::max(spread, column(p1, i).cross(column(p1, 0)).norm());
    if (spread < 1e-3) return;
  }
#endif
  Matrix3d C = weighted ? qMethod(p0, p1, w) : qMethod(p0, p1);
  proper_rotation(C, "a proper rotation");
  if (exact) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) vf_check_near(C(i, j), R(i, j), 1e-6, "the rotation");
}
VF_CHECK(C12, q_proper_2) { q_method(2, false, true); }
VF_CHECK(C12, q_exact_2) { q_method(2, true, true); }
VF_CHECK(C12, q_exact_3) { q_method(3, true, true); }
VF_CHECK(C12, q_exact_unweighted) { q_method(2, true, false); }
#ifdef VF_NATIVE
VF_CHECK(C12, larger_sets_svd) { svd_exact(3 + vf_count("points", 20, 500)); }
VF_CHECK(C12, larger_sets_svd_proper) { svd_proper(3 + vf_count("points", 20, 500)); }
VF_CHECK(C12, larger_sets_q) { q_method(3 + vf_count("points", 20, 500), vf_bool("exact"), vf_bool("weighted")); }
#endif
