#include "kin_spec.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
using namespace sm::kinematics;
using namespace spec;

VF_CHECK(C02, matrix_of_unit_quaternion_is_a_rotation) {
  Vector4d q = unit_quat("q");
  vf_body(vf_p(&quat2r));
  Matrix3d R = quat2r(q);
  proper_rotation(R, "the matrix of a unit quaternion is a proper rotation");
  same(R, quat_matrix(q), 1, "it is the matrix of that quaternion");
}
// every proper rotation is the matrix of some unit quaternion u (the classical cover), so u ranges over all rotations
VF_CHECK(C02, quaternion_of_rotation) {
  Vector4d u = unit_quat("u");
  for (int i = 0; i < 4; ++i) vf_candidate(2.0 * u[i]);
  vf_body(vf_p(&r2quat));
  Matrix3d R = quat_matrix(u);
  Vector4d q = r2quat(R);
  vf_check_eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], 1.0, 1, "the extracted quaternion has unit length");
  vf_check_le(0.0, q[3], 0, "its scalar part is not negative");
  same(quat_matrix(q), R, 1, "its matrix is the given matrix");
  if (u[3] > 0) same(q, u, 1, "a quaternion with positive scalar part is recovered exactly");
}
VF_CHECK(C02, round_trip_through_the_library) {
  Vector4d u = unit_quat("u");
  for (int i = 0; i < 4; ++i) vf_candidate(2.0 * u[i]);
  vf_body(vf_p(&r2quat));
  vf_body(vf_p(&quat2r));
  Matrix3d R = quat2r(u);
  same(quat2r(r2quat(R)), R, 1, "matrix to quaternion to matrix is the identity");
}
VF_CHECK(C02, half_turns_about_the_axes) {
  int k = vf_choice("axis", 3);
  Vector4d u(0, 0, 0, 0);
  u[k] = 1;
  vf_body(vf_p(&r2quat));
  Matrix3d R = quat_matrix(u);
  Vector4d q = r2quat(R);
  same(quat_matrix(q), R, 1, "half turn about an axis");
}
