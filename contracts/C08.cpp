#include "pose_spec.hpp"
using namespace sm::kinematics;
using namespace spec;

// the point at fraction t on the great circle arc from a to b (unit, dot >= 0 after the sign is chosen)
static double dot4(const Vector4d &a, const Vector4d &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]; }
static Vector4d geodesic(const Vector4d &a, const Vector4d &b, double t) {
  Vector4d r = quat_mul(quat_conj(a), b);
  double n = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]), h = r[3];
  if (n == 0) return a;
  double th = std::atan2(n, h), phi = t * th;
  vf_candidate(2 * phi); vf_candidate(th); vf_candidate(n); vf_candidate(phi);
  double s = std::sin(phi) / n, c = std::cos(phi) - h * s;
  Vector4d g;
  for (int i = 0; i < 4; ++i) g[i] = c * a[i] + s * b[i];
  return g;
}
static Vector4d negate(const Vector4d &q) { return Vector4d(-q[0], -q[1], -q[2], -q[3]); }
static void same_up_to_sign(const Vector4d &a, const Vector4d &b, const char *w) {
  for (int i = 0; i < 4; ++i) for (int j = 0; j <= i; ++j) vf_check_eq(a[i] * a[j], b[i] * b[j], 1, w);
}
static void interior(bool opposite) {
  Vector4d a = unit_quat("a"), b = unit_quat("b"); double t = vf_real("t");
  double d = dot4(a, b);
  if (opposite) vf_assume(d < (vf_native() ? -1e-6 : 0.0)); else vf_assume(d > (vf_native() ? 1e-6 : 0.0));
  vf_assume(t > 0); vf_assume(t < 1);
  Vector4d g = geodesic(a, opposite ? negate(b) : b, t), r = qslerp(a, b, t);
  same(r, g, 1, "fraction t of the shorter arc");
}
VF_CHECK(C08, slerp_same_hemisphere) { vf_body(vf_p(&qslerp)); interior(false); }
VF_CHECK(C08, slerp_opposite_hemisphere) { vf_body(vf_p(&qslerp)); interior(true); }
VF_CHECK(C08, slerp_at_half_turn) {
  Vector4d a = unit_quat("a"); Vector3d e = unit3("e"); double t = vf_real("t");
  Vector4d b = quat_mul(a, Vector4d(e[0], e[1], e[2], 0));      // every half turn away from a
  vf_assume(t > 0); vf_assume(t < 1);
  double phi = t * 0.5 * 3.14159265358979323846;
  vf_candidate(1.0); vf_candidate(0.5 * 3.14159265358979323846); vf_candidate(2 * phi);
  Vector4d r = qslerp(a, b, t);
  vf_check_eq(dot4(r, r), 1, 1, "unit quaternion");
  vf_check_eq(dot4(r, a), std::cos(phi), 1, "fraction t of the half turn");
}
VF_CHECK(C08, slerp_is_clamped) {
  Vector4d a = unit_quat("a"), b = unit_quat("b"); double t = vf_real("t");
  vf_assume(t <= 0 || t >= 1);
  Vector4d r = qslerp(a, b, t);
  if (t <= 0) same(r, a, 1, "first quaternion"); else same(r, b, 1, "last quaternion");
}
VF_CHECK(C08, slerp_of_equal_rotations) {
  Vector4d a = unit_quat("a"); double t = vf_real("t"); bool neg = vf_bool("neg");
  vf_assume(t > 0); vf_assume(t < 1);
  vf_candidate(1.0);
  same_up_to_sign(qslerp(a, neg ? negate(a) : a, t), a, "constant");
}
VF_CHECK(C08, linear_interpolation) {
  int n = vf_choice("n", 4);
  double p[4], q[4]; vf_vec("p", 4, p); vf_vec("q", 4, q);
  double t = vf_real("t");
  Eigen::VectorXd a(n), b(n);
  for (int i = 0; i < n; ++i) { a[i] = p[i]; b[i] = q[i]; }
  Eigen::VectorXd r = lerp(a, b, t);
  vf_check(r.size() == n, "size");
  for (int i = 0; i < n; ++i) {
    double e = t <= 0 ? p[i] : t >= 1 ? q[i] : p[i] + t * (q[i] - p[i]);
    vf_check_eq(r[i], e, 1e-3 + ab(p[i]) + ab(q[i]), "affine in between, clamped outside");
  }
}
// qslerp by contract (established above): clamped outside (0,1); inside, one fixed unit quaternion per pair and fraction
struct SlerpCall { Vector4d a, b, g; double t; };
static SlerpCall S;
static bool the_call(const Vector4d &a, const Vector4d &b, double t) {
  for (int i = 0; i < 4; ++i) if (a[i] != S.a[i] || b[i] != S.b[i]) return false;
  return t == S.t;
}
static Vector4d s_qslerp(const Vector4d &a, const Vector4d &b, double t) {
  vf_requires(dot4(a, a) == 1, "unit quaternion"); vf_requires(dot4(b, b) == 1, "unit quaternion");
  if (t <= 0) return a;
  if (t >= 1) return b;
  if (the_call(a, b, t)) return S.g;
  return geodesic(a, dot4(a, b) < 0 ? negate(b) : b, t);
}
static void slerp_by_contract(const Vector4d &a, const Vector4d &b, double t) {
  vf_bind(vf_p(&qslerp), vf_p(&s_qslerp));
  S.a = a; S.b = b; S.t = t; S.g = unit_quat("g");
  if (vf_native()) { S.g = geodesic(a, dot4(a, b) < 0 ? negate(b) : b, t); }
}
static void pose_between(const Transformation &T, const Vector4d &a, const Vector3d &s, const Vector4d &b, const Vector3d &u, double t) {
  Vector4d g; Vector3d x;
  if (t <= 0) { g = a; x = s; } else if (t >= 1) { g = b; x = u; } else {
    g = S.g;
    for (int i = 0; i < 3; ++i) x[i] = s[i] + t * (u[i] - s[i]);
  }
  same_up_to_sign(T.q(), g, "rotation at the fraction");
  same(T.t(), x, 1e-3 + mag(s) + mag(u), "translation at the fraction");
}
static void away_from_half_turn(const Vector4d &a, const Vector4d &b) {
  double d = dot4(a, b);
  if (vf_native()) vf_assume(d > 1e-3 || d < -1e-3);
}
VF_CHECK(C08, transformations_by_fraction) {
  Vector4d a = unit_quat("a"), b = unit_quat("b"); Vector3d s = vec3("s"), u = vec3("u"); double t = vf_real("t");
  away_from_half_turn(a, b);
  Transformation A(a, s), B(b, u);
  slerp_by_contract(a, b, t);
  Transformation R = slerpTransformations(A, B, t);
  pose_between(R, a, s, b, u, t);
}
VF_CHECK(C08, timed_transformations) {
  Vector4d a = unit_quat("a"), b = unit_quat("b"); Vector3d s = vec3("s"), u = vec3("u");
  double s0 = vf_real("s0"), s1 = vf_real("s1"), si = vf_real("si");
  bool swap = vf_bool("swapped");
  vf_assume(s1 - s0 > (vf_native() ? 1e-6 : 1e-14));
  away_from_half_turn(a, b);
  Transformation A(a, s), B(b, u);
  slerp_by_contract(a, b, (si - s0) / (s1 - s0));
  Transformation R = swap ? interpolateTransformations(B, s1, A, s0, si) : interpolateTransformations(A, s0, B, s1, si);
  pose_between(R, a, s, b, u, (si - s0) / (s1 - s0));
}
