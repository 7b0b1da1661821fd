#include "rot_spec.hpp"
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/EulerAnglesZYX.hpp>
#include <sm/kinematics/EulerAnglesZXY.h>
#include <sm/kinematics/RotationVector.hpp>
#include <sm/kinematics/EulerRodriguez.hpp>
using namespace sm::kinematics;
using namespace spec;

static Vector3d angles(const char *n0, const char *n1, const char *n2) { return Vector3d(vf_angle(n0), vf_angle(n1), vf_angle(n2)); }
static void is_rotation(const Matrix3d &R) { proper_rotation(R, "the matrix is a proper rotation"); }

VF_CHECK(C04, elementary_rotations) {
  double a = vf_angle("a");
  same(Rx(a), axis_rotation<double>(0, a), 1, "Rx");
  same(Ry(a), axis_rotation<double>(1, a), 1, "Ry");
  same(Rz(a), axis_rotation<double>(2, a), 1, "Rz");
  same(Cx(a), axis_rotation<double>(0, -a), 1, "Cx");
  same(Cy(a), axis_rotation<double>(1, -a), 1, "Cy");
  same(Cz(a), axis_rotation<double>(2, -a), 1, "Cz");
  is_rotation(Rx(a)); is_rotation(Ry(a)); is_rotation(Rz(a));
}
VF_CHECK(C04, cross_product_matrix) {
  Vector3d v = vec3("v");
  same(crossMx(v[0], v[1], v[2]), cross(v), mag(v), "crossMx(x,y,z)");
  same(crossMx(v), cross(v), mag(v), "crossMx(vector)");
  Eigen::VectorXd d(3);
  d[0] = v[0]; d[1] = v[1]; d[2] = v[2];
  same(crossMx(d), cross(v), mag(v), "crossMx(dynamic vector)");
}
VF_CHECK(C04, roll_pitch_yaw_matrices) {
  Vector3d p = angles("r", "p", "h");
  M3<double> R = axis_rotation<double>(2, p[2]) * axis_rotation<double>(1, p[1]) * axis_rotation<double>(0, p[0]);
  M3<double> C = axis_rotation<double>(2, -p[2]) * axis_rotation<double>(1, -p[1]) * axis_rotation<double>(0, -p[0]);
  same(rph2R(p[0], p[1], p[2]), R, 1, "rph2R(x,y,z)");
  same(rph2R(p), R, 1, "rph2R(vector)");
  is_rotation(rph2R(p));
  same(rph2C(p[0], p[1], p[2]), C, 1, "rph2C(x,y,z)");
  same(rph2C(p), C, 1, "rph2C(vector)");
  is_rotation(rph2C(p));
}
// any rotation other than those at the pitch singularity
static Matrix3d rotation(int i, int j) {
  Vector4d u = unit_quat("u");
  Matrix3d R = quat_matrix(u);
  double s = R(i, j), c2 = 1.0 - s * s;
  vf_assume(c2 > (vf_native() ? 1e-6 : 0.0));
  vf_candidate(std::sqrt(c2));
  return R;
}
VF_CHECK(C04, roll_pitch_yaw_round_trip) {
  Matrix3d R = rotation(2, 0);
  same(rph2R(R2rph(R)), R, 1, "rph2R(R2rph(R)) = R");
}
VF_CHECK(C04, roll_pitch_yaw_round_trip_passive) {
  Matrix3d R = rotation(2, 0);
  same(rph2C(C2rph(R)), R, 1, "rph2C(C2rph(R)) = R");
}
template <class K> static void matrix_of(Param k) {
  Vector3d p = k <= ZXY ? angles("p0", "p1", "p2") : vec3("p");
  K kin;
  if (k == RVEC) vf_assume(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] >= 1e-24);
  Matrix3d R = kin.parametersToRotationMatrix(p), S;
  same(R, documented_matrix<double>(k, p.data()), 1, "matrix of the documented rotation sequence");
  is_rotation(R);
  same(kin.parametersToRotationMatrix(p, &S), R, 1, "the matrix does not depend on whether the rate matrix is requested");
}
VF_CHECK(C04, yaw_pitch_roll_matrix) { matrix_of<EulerAnglesYawPitchRoll>(YPR); }
VF_CHECK(C04, zyx_matrix) { matrix_of<EulerAnglesZYX>(ZYX); }
VF_CHECK(C04, zxy_matrix) { matrix_of<EulerAnglesZXY>(ZXY); }
VF_CHECK(C04, rotation_vector_matrix) { matrix_of<RotationVector>(RVEC); }
VF_CHECK(C04, rodrigues_matrix) { matrix_of<EulerRodriguez>(RODRIGUES); }
VF_CHECK(C04, rotation_vector_matrix_near_zero) {
  Vector3d p = vec3("p");
  double n2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
  vf_assume(n2 <= 1e-24);
  vf_assume(n2 > 0);
  double t = std::sqrt(n2), r = 1.0 / t, s = std::sin(t), d = 1.0 - std::cos(t);
  Vector3d x;
  vf_lemma(t <= 1e-12, "length");
  vf_lemma(s <= t, "sin t <= t");
  vf_lemma(s >= 0.0, "sin t >= 0");
  vf_lemma(d >= 0.0, "cos t <= 1");
  vf_lemma(d <= 0.5 * n2, "1 - cos t <= t^2/2");
  for (int i = 0; i < 3; ++i) {
    x[i] = p[i] * r;
    vf_lemma(p[i] <= t, "components are bounded by the length");
    vf_lemma(p[i] >= -t, "components are bounded by the length");
    vf_lemma(x[i] * t == p[i], "direction");
    vf_lemma(x[i] <= 1.0, "components of the direction are bounded by one");
    vf_lemma(x[i] >= -1.0, "components of the direction are bounded by one");
  }
  for (int i = 0; i < 3; ++i) {
    vf_lemma(s * x[i] <= 1e-12, "sine term");
    vf_lemma(s * x[i] >= -1e-12, "sine term");
    for (int j = 0; j <= i; ++j) {
      double b = x[i] * x[j];
      vf_lemma(b <= 1.0, "product of direction components");
      vf_lemma(b >= -1.0, "product of direction components");
      vf_lemma(d * b <= 1e-13, "cosine term");
      vf_lemma(d * b >= -1e-13, "cosine term");
    }
  }
  RotationVector kin;
  Matrix3d R = kin.parametersToRotationMatrix(p);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) vf_check_near(R(i, j), (i == j ? 1.0 : 0.0), 1.1e-12, "identity in the limit of a vanishing rotation vector");
  R = kin.parametersToRotationMatrix(Vector3d(0, 0, 0));
  same(R, Matrix3d::Identity().eval(), 1, "the zero vector is the identity");
}
template <class K> static void round_trip(int i, int j) {
  Matrix3d R = rotation(i, j);
  K kin;
  Vector3d p = kin.rotationMatrixToParameters(R);
  same(kin.parametersToRotationMatrix(p), R, 1, "parameters extracted from a matrix reproduce it");
}
VF_CHECK(C04, yaw_pitch_roll_round_trip) { round_trip<EulerAnglesYawPitchRoll>(2, 0); }
VF_CHECK(C04, zyx_round_trip) { round_trip<EulerAnglesZYX>(2, 0); }
VF_CHECK(C04, zxy_round_trip) { round_trip<EulerAnglesZXY>(2, 1); }
// rotations that are neither the identity nor half turns; the angle is 2 acos |u3|
template <class K> static void vector_round_trip() {
  Vector4d u = unit_quat("u");
  double e2 = u[0] * u[0] + u[1] * u[1] + u[2] * u[2], n = std::sqrt(e2), h = std::fabs(u[3]);
  vf_assume(n > (vf_native() ? 1e-4 : 1e-7));
  vf_assume(h > (vf_native() ? 1e-4 : 1e-7));
  vf_candidate(n); vf_candidate(h); vf_candidate(n * h); vf_candidate(2.0 * n * h); vf_candidate(4.0 * n * h);
  vf_candidate(2.0 * std::atan2(n, h));
  Matrix3d R = quat_matrix(u);
  K kin;
  Vector3d p = kin.rotationMatrixToParameters(R);
  same(kin.parametersToRotationMatrix(p), R, 1, "parameters extracted from a matrix reproduce it");
}
VF_CHECK(C04, rotation_vector_round_trip) { vector_round_trip<RotationVector>(); }
VF_CHECK(C04, rodrigues_round_trip) { vector_round_trip<EulerRodriguez>(); }
VF_CHECK(C04, identity_round_trip) {
  Matrix3d I = Matrix3d::Identity();
  same(EulerAnglesYawPitchRoll().parametersToRotationMatrix(EulerAnglesYawPitchRoll().rotationMatrixToParameters(I)), I, 1, "yaw-pitch-roll of the identity");
  same(EulerAnglesZYX().parametersToRotationMatrix(EulerAnglesZYX().rotationMatrixToParameters(I)), I, 1, "zyx of the identity");
  same(EulerAnglesZXY().parametersToRotationMatrix(EulerAnglesZXY().rotationMatrixToParameters(I)), I, 1, "zxy of the identity");
  same(RotationVector().parametersToRotationMatrix(RotationVector().rotationMatrixToParameters(I)), I, 1, "rotation vector of the identity");
  same(EulerRodriguez().parametersToRotationMatrix(EulerRodriguez().rotationMatrixToParameters(I)), I, 1, "Euler-Rodrigues parameters of the identity");
}
