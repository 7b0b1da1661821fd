#include "kin_spec.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
using namespace sm::kinematics;
using namespace spec;

VF_CHECK(C01, qplus_is_the_quaternion_product) {
  Vector4d q = vec4("q"), p = vec4("p");
  vf_body(vf_p(&qplus));
  same(qplus(q, p), quat_mul(q, p), mag(q) * mag(p), "qplus(q,p) is the product q p");
}
VF_CHECK(C01, qoplus_is_the_reversed_product) {
  Vector4d q = vec4("q"), p = vec4("p");
  vf_body(vf_p(&qoplus));
  same(qoplus(q, p), quat_mul(p, q), mag(q) * mag(p), "qoplus(q,p) is the product p q");
}
VF_CHECK(C01, multiplication_matrices) {
  Vector4d q = vec4("q"), p = vec4("p");
  vf_body(vf_p(&quatPlus)); vf_body(vf_p(&quatOPlus));
  Matrix4d A = quatPlus(q), B = quatOPlus(q);
  for (int i = 0; i < 4; ++i) {
    vf_check_eq(A(i, 0) * p[0] + A(i, 1) * p[1] + A(i, 2) * p[2] + A(i, 3) * p[3], quat_mul(q, p)[i], mag(q) * mag(p), "quatPlus(q) p = q p");
    vf_check_eq(B(i, 0) * p[0] + B(i, 1) * p[1] + B(i, 2) * p[2] + B(i, 3) * p[3], quat_mul(p, q)[i], mag(q) * mag(p), "quatOPlus(q) p = p q");
  }
}
VF_CHECK(C01, product_of_rotations) {
  Vector4d q = unit_quat("q"), p = unit_quat("p");
  same(quat2r(qplus(q, p)), mul(quat2r(q), quat2r(p)), 1, "matrix of a product is the product of the matrices");
  same(quat2r(qoplus(q, p)), mul(quat2r(p), quat2r(q)), 1, "matrix of a reversed product");
}
VF_CHECK(C01, quat2r_is_the_rotation_matrix) {
  Vector4d q = unit_quat("q");
  vf_body(vf_p(&quat2r));
  same(quat2r(q), quat_matrix(q), 1, "quat2r(q) is the matrix of q");
}
VF_CHECK(C01, inverse) {
  Vector4d q = unit_quat("q");
  vf_body(vf_p(&quatInv)); vf_body(vf_p(&invertQuat));
  Vector4d i = quatInv(q);
  same(quat2r(i), quat2r(q).transpose().eval(), 1, "matrix of the inverse is the transposed matrix");
  same(qplus(q, i), Vector4d(0, 0, 0, 1), 1, "q times its inverse is the identity");
  same(qplus(i, q), Vector4d(0, 0, 0, 1), 1, "inverse times q is the identity");
  Vector4d j = q;
  invertQuat(j);
  same(j, i, 1, "in-place inversion agrees");
}
VF_CHECK(C01, conjugate_of_any_quaternion) {
  Vector4d q = vec4("q");
  vf_body(vf_p(&quatInv)); vf_body(vf_p(&invertQuat));
  same(quatInv(q), quat_conj(q), mag(q), "inverse negates the vector part only");
  Vector4d j = q;
  invertQuat(j);
  same(j, quat_conj(q), mag(q), "in-place inverse negates the vector part only");
}
VF_CHECK(C01, rotate_vector) {
  Vector4d q = unit_quat("q");
  Vector3d v = vec3("v");
  vf_body(vf_p(&quatRotate));
  same(quatRotate(q, v), mul(quat_matrix(q), v), mag(v), "rotating a vector is multiplying by the matrix");
}
VF_CHECK(C01, algebra) {
  Vector4d q = vec4("q"), p = vec4("p"), r = vec4("r");
  double s = mag(q) * mag(p);
  same(qplus(q, qplus(p, r)), qplus(qplus(q, p), r), s * mag(r), "product is associative");
  same(qplus(quatIdentity(), q), q, mag(q), "identity is neutral (left)");
  same(qplus(q, quatIdentity()), q, mag(q), "identity is neutral (right)");
  Vector4d m = qplus(q, p), o = qoplus(q, p);
  vf_check_eq(m.squaredNorm(), q.squaredNorm() * p.squaredNorm(), s * s, "norm of a product is the product of the norms");
  vf_check_eq(o.squaredNorm(), q.squaredNorm() * p.squaredNorm(), s * s, "norm of a reversed product is the product of the norms");
}
VF_CHECK(C01, identity_quaternion) {
  vf_body(vf_p(&quatIdentity));
  same(quatIdentity(), Vector4d(0, 0, 0, 1), 1, "the identity quaternion is (0,0,0,1)");
  same(quat2r(quatIdentity()), Matrix3d::Identity().eval(), 1, "its matrix is the identity");
}
VF_CHECK(C01, parts) {
  Vector4d q = vec4("q");
  same(qeps(q), Vector3d(q[0], q[1], q[2]), 1e-300, "qeps is the vector part");
  vf_check_eq(qeta(q), q[3], 1e-300, "qeta is the scalar part");
}
