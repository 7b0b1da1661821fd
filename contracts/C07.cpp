#include "pose_spec.hpp"
using namespace sm::kinematics;
using namespace spec;
static Vector6d vec6(const char *n) { Vector6d d; vf_vec(n, 6, d.data()); return d; }

VF_CHECK(C07, operators_applied_to_points) {
  Vector6d d = vec6("d"); Vector4d v = vec4("v");
  equal(boxPlus(d), twist(d), "4x4 operator");
  Vector4d a = mm<4, 4, 1>(Matrix4d(boxPlus(d)), v), b = mm<4, 6, 1>(Matrix46(boxMinus(v)), d);
  double sc = 1e-3 + mag(d) * mag(v);
  for (int i = 0; i < 4; ++i) vf_check_eq(a[i], -b[i], sc, "4x4 operator on the point = -(4x6 operator on the perturbation)");
}
VF_CHECK(C07, adjoint) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t"); Vector6d d = vec6("d");
  Matrix4d T = pose_matrix(q, t);
  Matrix6d A = boxTimes(T);
  Matrix4d L = mm<4, 4, 4>(mm<4, 4, 4>(T, Matrix4d(boxPlus(d))), pose_inverse(T)), R = boxPlus(mm<6, 6, 1>(A, d));
  same(R, L, 1e-3 + (1 + mag(t)) * mag(d), "boxPlus(boxTimes(T) d) = T boxPlus(d) T^-1");
  same(A, adjoint(T), 1e-3 + mag(t), "6x6 adjoint");
  same(A, adjoint_closed(rot(T), t), 1e-3 + mag(t), "6x6 adjoint, closed form");
}
VF_CHECK(C07, inverse_matrix) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t");
  Matrix4d T = pose_matrix(q, t), I = inverseTransform(T), E = Matrix4d::Identity();
  same(mm<4, 4, 4>(T, I), E, 1 + mag(t), "T inverse(T) = 1"); same(mm<4, 4, 4>(I, T), E, 1 + mag(t), "inverse(T) T = 1");
}
VF_CHECK(C07, point_jacobian_of_the_transformation) {
  Vector4d q = unit_quat("q"), v = vec4("v"); Vector3d t = vec3("t"); Vector6d d = vec6("d");
  Matrix4d T = pose_matrix(q, t);
  Vector4d out; Matrix46 J;
  transformationAndJacobian(T, v, out, J);
  double sc = 1e-3 + (1 + mag(t)) * mag(v) * (1 + mag(d));
  same(out, mm<4, 4, 1>(T, v), sc, "transformed point");
  // (1 - twist(d)) T v = T v + J d
  Vector4d l = mm<4, 4, 1>(twist(d), mm<4, 4, 1>(T, v)), r = mm<4, 6, 1>(J, d);
  for (int i = 0; i < 4; ++i) vf_check_eq(r[i], -l[i], sc, "first order change of T v");
}
VF_CHECK(C07, point_jacobian_of_the_inverse_transformation) {
  Vector4d q = unit_quat("q"), v = vec4("v"); Vector3d t = vec3("t"); Vector6d d = vec6("d");
  Matrix4d T = pose_matrix(q, t), Ti = pose_inverse(T);
  Vector4d out; Matrix46 J;
  inverseTransformationAndJacobian(T, v, out, J);
  double sc = 1e-3 + (1 + mag(t)) * mag(v) * (1 + mag(d));
  same(out, mm<4, 4, 1>(Ti, v), sc, "inversely transformed point");
  // ((1 - twist(d)) T)^-1 v = T^-1 v + T^-1 twist(d) v
  Vector4d l = mm<4, 4, 1>(Ti, mm<4, 4, 1>(twist(d), v)), r = mm<4, 6, 1>(J, d);
  for (int i = 0; i < 4; ++i) vf_check_eq(r[i], l[i], sc, "first order change of T^-1 v");
}
// the operator convention is the one of the Euler parametrisation: d/ds toTEuler(s d) at 0 is -twist(d)
VF_CHECK(C07, euler_parameters_to_matrix) {
  double r = vf_angle("r"), p = vf_angle("p"), h = vf_angle("h"); Vector3d t = vec3("t");
  Vector6d d; d[0] = t[0]; d[1] = t[1]; d[2] = t[2]; d[3] = r; d[4] = p; d[5] = h;
  M3<double> N = axis_rotation<double>(2, -h) * axis_rotation<double>(1, -p) * axis_rotation<double>(0, -r);
  Matrix3d R; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = N(i, j);
  equal(toTEuler(d), pose_matrix(R, t), "six parameters to matrix");
  equal(toTEuler(t[0], t[1], t[2], r, p, h), pose_matrix(R, t), "six scalars to matrix");
}
VF_CHECK(C07, euler_parameters_round_trip) {
  double r = vf_angle("r"), p = vf_angle("p"), h = vf_angle("h"); Vector3d t = vec3("t");
  const double PI = 3.141592653589793;
  vf_assume(r > -PI && r < PI); vf_assume(h > -PI && h < PI); vf_assume(p > -PI / 2 + 0.01 && p < PI / 2 - 0.01);
  Vector6d d; d[0] = t[0]; d[1] = t[1]; d[2] = t[2]; d[3] = r; d[4] = p; d[5] = h;
  vf_candidate(-r); vf_candidate(-p); vf_candidate(-h); vf_candidate(p); vf_candidate(std::cos(p));
  vf_lemma(std::cos(p) > 0, "cosine of the pitch");
  Vector6d e = fromTEuler(toTEuler(d));
  for (int i = 0; i < 6; ++i) vf_check_eq(e[i], d[i], i < 3 ? 1e-3 + mag(t) : 1, "fromTEuler(toTEuler(x)) = x");
}
VF_CHECK(C07, matrix_round_trip_through_euler_parameters) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t");
  Matrix4d T = pose_matrix(q, t);
  vf_assume(T(2, 0) < 0.999 && T(2, 0) > -0.999);
  Matrix4d U = toTEuler(fromTEuler(T));
  same(U, T, 1e-3 + mag(t) + 1, "toTEuler(fromTEuler(T)) = T");
}
VF_CHECK(C07, building_blocks) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t");
  Matrix4d T = pose_matrix(q, t);
  equal(rt2Transform(quat_matrix(q), t), T, "matrix from rotation and translation");
  equal(transform2C(T), rot(T), "rotation part"); equal(transform2rho(T), t, "translation part");
  equal(transform2rhoHomogeneous(T), hom(t), "homogeneous translation");
}
