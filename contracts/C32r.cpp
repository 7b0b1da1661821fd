// C32: the matrix square root and numerical Jacobians (real arithmetic)
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <string>
#include <boost/function.hpp>
#include <boost/bind.hpp>
#include <Eigen/Core>
#define protected public
#define private public
#include <Eigen/Cholesky>
#undef private
#undef protected
#include <sm/eigen/matrix_sqrt.hpp>
#include <sm/eigen/NumericalDiff.hpp>
#include "contract.hpp"
using Eigen::MatrixXd;

// An arbitrary symmetric positive definite matrix is P^T L D L^T P with a permutation P, a unit lower triangular L and
// a positive diagonal D (that there is such a decomposition is the assumption that Eigen's LDLT rests on).
static struct { int n; double L[5][5], D[5], A[5][5]; int T[5]; } ghost;
static void any_spd(int n) {
  ghost.n = n;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) ghost.L[i][j] = i == j ? 1 : j < i ? vf_real("L") : 0;
    ghost.D[i] = vf_real("D");
#ifdef VF_NATIVE
    ghost.D[i] = 0.1 + std::fabs(std::sin(ghost.D[i])) * 3;
    for (int j = 0; j < i; ++j) ghost.L[i][j] = 2 * std::sin(ghost.L[i][j]);
#endif
    vf_assume(ghost.D[i] > 0);
    ghost.T[i] = i + vf_choice("transposition", n - i);
  }
  double B[5][5];
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    double s = 0;
    for (int k = 0; k < n; ++k) s += ghost.L[i][k] * ghost.D[k] * ghost.L[j][k];
    B[i][j] = s;
  }
  // P = T_{n-1} ... T_0 : A = P^T B P, transpositions applied in reverse order to rows and columns
  for (int k = n - 1; k >= 0; --k) {
    int t = ghost.T[k];
    if (t == k) continue;
    for (int j = 0; j < n; ++j) { double x = B[k][j]; B[k][j] = B[t][j]; B[t][j] = x; }
    for (int j = 0; j < n; ++j) { double x = B[j][k]; B[j][k] = B[j][t]; B[j][t] = x; }
  }
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ghost.A[i][j] = B[i][j];
}
#ifndef VF_NATIVE
// Assumed contract of Eigen's LDLT of a positive definite matrix A: A = P^T L D L^T P
template <class M> static Eigen::LDLT<M> &spec_ldlt(Eigen::LDLT<M> *d, const Eigen::EigenBase<M> &a) {
  const M &A = a.derived();
  int n = ghost.n;
  vf_requires(A.rows() == n && A.cols() == n, "the matrix decomposed is the one given");
  d->m_matrix.resize(n, n);
  d->m_transpositions.resize(n);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      vf_requires(A(i, j) == ghost.A[i][j], "the matrix decomposed is the one given");
      d->m_matrix(i, j) = i == j ? ghost.D[i] : j < i ? ghost.L[i][j] : vf_real("upper triangle");
    }
    d->m_transpositions.coeffRef(i) = ghost.T[i];
  }
  d->m_isInitialized = true;
  d->m_info = Eigen::Success;
  return *d;
}
extern "C" void vf_bindings() {
  vf_bind(vf_m(&Eigen::LDLT<Eigen::Matrix2d>::compute<Eigen::Matrix2d>), vf_p(&spec_ldlt<Eigen::Matrix2d>));
  vf_bind(vf_m(&Eigen::LDLT<Eigen::Matrix3d>::compute<Eigen::Matrix3d>), vf_p(&spec_ldlt<Eigen::Matrix3d>));
  vf_bind(vf_m(&Eigen::LDLT<MatrixXd>::compute<MatrixXd>), vf_p(&spec_ldlt<MatrixXd>));
}
#endif
template <class M> static void root(int n) {
  any_spd(n);
  M A(n, n), S(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = ghost.A[i][j];
  sm::eigen::computeMatrixSqrt(A, S);
  vf_check(S.rows() == n && S.cols() == n, "the shape of the matrix");
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    double s = 0, m = 1;
    for (int k = 0; k < n; ++k) { s += S(i, k) * S(j, k); m += vf_scale(S(i, k) * S(j, k)); }
    vf_check_eq(s, ghost.A[i][j], m, "S S^T is the matrix");
  }
}
VF_CHECK(C32, square_root_2) { root<Eigen::Matrix2d>(2); }
VF_CHECK(C32, square_root_3) { root<Eigen::Matrix3d>(3); }
VF_CHECK(C32, square_root_dynamic) { root<MatrixXd>(1 + vf_choice("size", vf_native() ? 5 : 4)); }

struct Affine {
  int m, n;
  const double *A, *b;
  Eigen::VectorXd operator()(const Eigen::VectorXd &x) const {
    Eigen::VectorXd y(m);
    for (int i = 0; i < m; ++i) { double s = b[i]; for (int j = 0; j < n; ++j) s += A[i * n + j] * x[j]; y[i] = s; }
    return y;
  }
};
static void jacobian(int m, int n, bool given) {
  double A[9], b[3], x0[3], size = 1;
  vf_vec("A", 9, A); vf_vec("b", 3, b); vf_vec("x", 3, x0);
  Eigen::VectorXd x(n);
  for (int j = 0; j < n; ++j) x[j] = x0[j];
  double eps = 0;
  if (given) { eps = vf_real("eps"); if (vf_native()) eps = 1e-6 + 0.1 * std::fabs(std::sin(eps)); vf_assume(eps > 0); }
  Affine f = {m, n, A, b};
#ifdef VF_NATIVE
  for (int i = 0; i < m * n; ++i) size = std::max(size, std::fabs(A[i]));
  double e = 1, l = 1;
  for (int j = 0; j < n; ++j) l = std::max(l, std::fabs(x0[j]));
  for (int i = 0; i < m; ++i) e = std::max(e, std::fabs(b[i]));
  size = (size * l * n + e) * 1e6 / (given ? eps * 1e6 : 1);
#endif
  MatrixXd J;
  std::function<Eigen::VectorXd(const Eigen::VectorXd &)> g = f;
  if (given) J = sm::eigen::numericalDiff<Eigen::VectorXd, Eigen::VectorXd>(g, x, eps);
  else J = sm::eigen::numericalDiff<Eigen::VectorXd, Eigen::VectorXd>(g, x);
  vf_check(J.rows() == m && J.cols() == n, "as many rows as the map has values, as many columns as it has arguments");
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) vf_check_eq(J(i, j), A[i * n + j], size, "the matrix of the map");
}
VF_CHECK(C32, jacobian_of_an_affine_map) { jacobian(1 + vf_choice("values", 3), 1 + vf_choice("arguments", 3), false); }
VF_CHECK(C32, jacobian_with_given_step) { jacobian(2, 2, true); }
