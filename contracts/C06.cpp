#include "pose_spec.hpp"
using namespace sm::kinematics;
using namespace spec;

static Vector4d any_quat(const char *n) {      // non-zero, not necessarily unit
  Vector4d q = vec4(n);
  vf_assume(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3] > (vf_native() ? 1e-6 : 0.0));
  return q;
}
static void unit_length(const Transformation &T, const char *w) {
  const Vector4d &q = T.q();
  vf_check_eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], 1.0, 1, w);
}

VF_CHECK(C06, accessors_and_matrix) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t");
  Transformation T(q, t);
  equal(T.q(), q, "stored quaternion"); equal(T.t(), t, "stored translation");
  Matrix4d M = pose_matrix(q, t);
  equal(T.T(), M, "4x4 matrix"); equal(T.C(), rot(M), "rotation matrix");
  Eigen::Matrix<double, 3, 4> M3 = T.T3x4();
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) vf_check_eq(M3(i, j), M(i, j), 1e-3 + mag(M), "3x4 matrix");
}
VF_CHECK(C06, quaternion_is_normalised_on_entry) {
  Vector4d q = any_quat("q"); Vector3d t = vec3("t");
  Transformation T(q, t);
  unit_length(T, "unit quaternion after construction");
  double n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
  for (int i = 0; i < 4; ++i) {
    vf_check_le(0, T.q()[i] * q[i], 1e-9 * n2, "same direction");
    for (int j = 0; j < 4; ++j) vf_check_eq(T.q()[i] * T.q()[j] * n2, q[i] * q[j], n2, "same direction");
  }
  equal(T.t(), t, "stored translation");
}
VF_CHECK(C06, identity) {
  Transformation I, T(unit_quat("q"), vec3("t"));
  Matrix4d E = pose_matrix(Vector4d(0, 0, 0, 1), Vector3d(0, 0, 0));
  equal(I.T(), E, "default construction is the identity");
  T.setIdentity();
  equal(T.T(), E, "setIdentity"); unit_length(T, "unit quaternion"); unit_length(I, "unit quaternion");
}
VF_CHECK(C06, composition) {
  Vector4d q = unit_quat("q"), p = unit_quat("p"); Vector3d t = vec3("t"), s = vec3("s");
  Transformation A(q, t), B(p, s), AB = A * B;
  equal(AB.T(), mm<4, 4, 4>(pose_matrix(q, t), pose_matrix(p, s)), "T(A B) = T(A) T(B)");
  unit_length(AB, "unit quaternion after composition");
}
VF_CHECK(C06, inverse) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t");
  Transformation A(q, t), Ai = A.inverse();
  unit_length(Ai, "unit quaternion after inversion");
  Matrix4d E = pose_matrix(Vector4d(0, 0, 0, 1), Vector3d(0, 0, 0));
  double sc = 1 + mag(t);
  same((A * Ai).T(), E, sc, "A inverse(A) = 1"); same((Ai * A).T(), E, sc, "inverse(A) A = 1");
  equal(Ai.T(), pose_inverse(pose_matrix(q, t)), "matrix of the inverse");
}
VF_CHECK(C06, action_on_points_and_directions) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t"), v = vec3("v"); Vector4d h = vec4("h");
  Transformation A(q, t);
  Matrix4d M = pose_matrix(q, t);
  Vector4d x = mm<4, 4, 1>(M, hom(v));
  equal(A * v, Vector3d(x[0], x[1], x[2]), "Euclidean point");
  equal(A * h, mm<4, 4, 1>(M, h), "homogeneous vector");
  equal(A.rotate(v), mul(rot(M), v), "direction");
  Vector3d r = mul(rot(M), Vector3d(h[0], h[1], h[2]));
  equal(A.rotate(h), Vector4d(r[0], r[1], r[2], h[3]), "homogeneous direction");
}
VF_CHECK(C06, action_on_homogeneous_point_objects) {
  Vector4d q = unit_quat("q"), h = vec4("h"); Vector3d t = vec3("t");
  vf_assume(h[0] * h[0] + h[1] * h[1] + h[2] * h[2] + h[3] * h[3] > (vf_native() ? 1e-6 : 0.0));
  Transformation A(q, t);
  Vector4d e = mm<4, 4, 1>(pose_matrix(q, t), h);
  // a rigid motion maps non-zero homogeneous vectors to non-zero ones (its inverse maps them back)
  Vector3d w(e[0] - e[3] * t[0], e[1] - e[3] * t[1], e[2] - e[3] * t[2]);
  vf_lemma(w[0] * w[0] + w[1] * w[1] + w[2] * w[2] == h[0] * h[0] + h[1] * h[1] + h[2] * h[2], "rotations preserve length");
  if (h[3] == 0) vf_lemma(e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3] > 0, "image of a direction");
  else { vf_lemma(e[3] * e[3] > 0, "scale"); vf_lemma(e[0] * e[0] + e[1] * e[1] + e[2] * e[2] + e[3] * e[3] > 0, "image of a point"); }
  HomogeneousPoint p = A * HomogeneousPoint(h);
  equal(p.toHomogeneous(), e, "homogeneous point object");
}
VF_CHECK(C06, matrix_round_trip) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t");
  Matrix4d M = pose_matrix(q, t);
  Transformation A(M), B;
  double sc = 1 + mag(t);
  unit_length(A, "unit quaternion after construction from a matrix");
  same(A.T(), M, sc, "construction from a matrix preserves it"); equal(A.t(), t, "translation");
  B.set(M);
  same(B.T(), M, sc, "set preserves the matrix"); unit_length(B, "unit quaternion after set");
}
VF_CHECK(C06, minimal_update) {
  Vector4d q = unit_quat("q"); Vector3d t = vec3("t"), a = vec3("a"), s = vec3("s");
  Transformation A(q, t);
  Vector6d d; for (int i = 0; i < 3; ++i) { d[i] = s[i]; d[3 + i] = a[i]; }
  A.oplus(d);
  unit_length(A, "unit quaternion after an update");
  for (int i = 0; i < 3; ++i) vf_check_eq(A.t()[i], t[i] + s[i], 1e-3 + mag(t) + mag(s), "translation adds");
  same(A.C(), mul(rotation_vector_matrix_d(a), quat_matrix(q)), 1, "rotation: exp(update) applied from the left");
  Transformation B(q, t);
  Matrix6d S = B.S();
  Matrix3d X = cross(t);
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j)
    vf_check_eq(S(i, j), (i == j ? 1.0 : 0.0) + (i < 3 && j >= 3 ? -X(i, j - 3) : 0.0), 1e-3 + mag(t), "S matrix of the update");
}
