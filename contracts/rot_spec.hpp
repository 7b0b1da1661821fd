// Rotation parametrisations written from their documentation, generic in the scalar (so they can be differentiated).
#pragma once
#include "kin_spec.hpp"
namespace spec {
// forward derivative: value and directional derivative
struct Dual {
  double v, d;
  Dual() : v(0), d(0) {}
  Dual(double a) : v(a), d(0) {}
  Dual(double a, double b) : v(a), d(b) {}
};
inline Dual operator+(const Dual &a, const Dual &b) { return Dual(a.v + b.v, a.d + b.d); }
inline Dual operator-(const Dual &a, const Dual &b) { return Dual(a.v - b.v, a.d - b.d); }
inline Dual operator-(const Dual &a) { return Dual(-a.v, -a.d); }
inline Dual operator*(const Dual &a, const Dual &b) { return Dual(a.v * b.v, a.d * b.v + a.v * b.d); }
inline Dual operator/(const Dual &a, const Dual &b) { return Dual(a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)); }
inline Dual sin(const Dual &a) { return Dual(std::sin(a.v), std::cos(a.v) * a.d); }
inline Dual cos(const Dual &a) { return Dual(std::cos(a.v), -(std::sin(a.v) * a.d)); }
inline Dual sqrt(const Dual &a) { double s = std::sqrt(a.v); return Dual(s, a.d / (2.0 * s)); }
inline double val(const Dual &a) { return a.v; }
inline double val(double a) { return a; }

template <class T> struct M3 {
  T m[9];
  T &operator()(int i, int j) { return m[3 * i + j]; }
  const T &operator()(int i, int j) const { return m[3 * i + j]; }
  int rows() const { return 3; }
  int cols() const { return 3; }
};
template <class T> M3<T> operator*(const M3<T> &A, const M3<T> &B) {
  M3<T> C;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) C(i, j) = A(i, 0) * B(0, j) + A(i, 1) * B(1, j) + A(i, 2) * B(2, j);
  return C;
}
// rotation about coordinate axis k by a (right handed, active)
template <class T> M3<T> axis_rotation(int k, const T &a) {
  using std::cos; using std::sin;
  M3<T> R;
  int i = (k + 1) % 3, j = (k + 2) % 3;
  for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) R(r, c) = T(0.0);
  T c = cos(a), s = sin(a);
  R(k, k) = T(1.0); R(i, i) = c; R(j, j) = c; R(i, j) = -s; R(j, i) = s;
  return R;
}
template <class T> M3<T> cross3(const T *v) {
  M3<T> C;
  C(0, 0) = T(0.0); C(0, 1) = -v[2]; C(0, 2) = v[1];
  C(1, 0) = v[2]; C(1, 1) = T(0.0); C(1, 2) = -v[0];
  C(2, 0) = -v[1]; C(2, 1) = v[0]; C(2, 2) = T(0.0);
  return C;
}
// passive rotation by the vector p: 1 - sin(a)/a [p]x + (1-cos a)/a^2 [p]x^2   (a = |p| > 0)
template <class T> M3<T> rotation_vector_matrix(const T *p) {
  using std::cos; using std::sin; using std::sqrt;
  T a = sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
  T s = sin(a) / a, h = sin(a * T(0.5)), k = T(2.0) * h * h / (a * a);
  M3<T> X = cross3(p), X2 = X * X, R;
  for (int i = 0; i < 9; ++i) R.m[i] = T((i % 4 == 0) ? 1.0 : 0.0) - s * X.m[i] + k * X2.m[i];
  return R;
}
// Euler-Rodrigues (p = tan(a/2) axis): C = ((1 - p.p) 1 + 2 p p^T - 2 [p]x) / (1 + p.p)
template <class T> M3<T> rodrigues_matrix(const T *p) {
  T n = p[0] * p[0] + p[1] * p[1] + p[2] * p[2], f = T(1.0) / (T(1.0) + n);
  M3<T> X = cross3(p), R;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j)
      R(i, j) = f * ((i == j ? T(1.0) - n : T(0.0)) + T(2.0) * p[i] * p[j] - T(2.0) * X(i, j));
  return R;
}
enum Param { YPR, ZYX, ZXY, RVEC, RODRIGUES };
// documented matrix of each parametrisation
template <class T> M3<T> documented_matrix(Param k, const T *p) {
  switch (k) {
  case YPR: return axis_rotation<T>(2, p[0]) * axis_rotation<T>(1, p[1]) * axis_rotation<T>(0, p[2]);   // C_iv
  case ZYX: return axis_rotation<T>(2, -p[0]) * axis_rotation<T>(1, -p[1]) * axis_rotation<T>(0, -p[2]);
  case ZXY: return axis_rotation<T>(2, p[0]) * axis_rotation<T>(0, p[1]) * axis_rotation<T>(1, p[2]);
  case RVEC: return rotation_vector_matrix(p);
  default: return rodrigues_matrix(p);
  }
}

// angular velocity w of each parametrisation, from the documented rotation sequence; its defining property
// d/dt C = -[w]x C is itself checked by the contracts
template <class T> struct V3 { T v[3]; T &operator[](int i) { return v[i]; } const T &operator[](int i) const { return v[i]; } };
template <class T> V3<T> mulv(const M3<T> &A, const V3<T> &x) {
  V3<T> r;
  for (int i = 0; i < 3; ++i) r[i] = A(i, 0) * x[0] + A(i, 1) * x[1] + A(i, 2) * x[2];
  return r;
}
template <class T> M3<T> rate_matrix(Param k, const T *p) {
  using std::cos; using std::sin; using std::sqrt;
  M3<T> S;
  if (k <= ZXY) {
    // C = A0(q0) A1(q1) A2(q2), q = sign * p:  w = -sign (a0 p0' + A0 a1 p1' + A0 A1 a2 p2')
    int ax[3] = {2, k == ZXY ? 0 : 1, k == ZXY ? 1 : 0};
    T sg = T(k == ZYX ? -1.0 : 1.0);
    M3<T> A;
    for (int i = 0; i < 9; ++i) A.m[i] = T(i % 4 == 0 ? 1.0 : 0.0);
    for (int c = 0; c < 3; ++c) {
      for (int i = 0; i < 3; ++i) S(i, c) = -(sg * A(i, ax[c]));
      A = A * axis_rotation<T>(ax[c], sg * p[c]);
    }
    return S;
  }
  M3<T> X = cross3(p);
  if (k == RVEC) {   // 1 - (1-cos a)/a^2 [p]x + (a - sin a)/a^3 [p]x^2
    T a2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2], a = sqrt(a2), h = sin(a * T(0.5));
    T c1 = T(2.0) * h * h / a2, c2 = (a - sin(a)) / (a2 * a);
    M3<T> X2 = X * X;
    for (int i = 0; i < 9; ++i) S.m[i] = T(i % 4 == 0 ? 1.0 : 0.0) - c1 * X.m[i] + c2 * X2.m[i];
    return S;
  }
  T f = T(2.0) / (T(1.0) + p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
  for (int i = 0; i < 9; ++i) S.m[i] = f * (T(i % 4 == 0 ? 1.0 : 0.0) - X.m[i]);
  return S;
}
} // namespace spec
