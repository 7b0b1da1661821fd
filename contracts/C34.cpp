// C34: binary equality
#include "contract.hpp"
#include <sm/serialization_macros.hpp>
#include <boost/make_shared.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/UncertainTransformation.hpp>
#include <sm/kinematics/HomogeneousPoint.hpp>
#include <sm/kinematics/UncertainHomogeneousPoint.hpp>
using namespace sm::kinematics;

namespace {
struct WithMember {            // own equality: the key alone
  int key, rest;
  bool isBinaryEqual(const WithMember &o) const { return key == o.key; }
};
struct WithOperator {
  int key, rest;
  bool operator==(const WithOperator &o) const { return key == o.key; }
};
template <class T> T value(const char *n);
template <> int value<int>(const char *n) { return int(vf_bits(n, 32)); }
template <> double value<double>(const char *n) { return vf_fp64(n); }
template <> WithMember value<WithMember>(const char *n) { WithMember w; w.key = int(vf_bits(n, 32)); w.rest = int(vf_bits(n, 32)); return w; }
template <> WithOperator value<WithOperator>(const char *n) { WithOperator w; w.key = int(vf_bits(n, 32)); w.rest = int(vf_bits(n, 32)); return w; }
bool own(int a, int b) { return a == b; }
bool own(double a, double b) { return a == b; }
bool own(const WithMember &a, const WithMember &b) { return a.key == b.key; }
bool own(const WithOperator &a, const WithOperator &b) { return a.key == b.key; }

template <class T> struct Holder {
  T v; T *p; boost::shared_ptr<T> s;
  bool sameV(const Holder &o) const { return SM_CHECKMEMBERSSAME(o, v); }
  bool sameP(const Holder &o) const { return SM_CHECKMEMBERSSAME(o, p); }
  bool sameS(const Holder &o) const { return SM_CHECKMEMBERSSAME(o, s); }
  bool sameVv(const Holder &o, bool verbose) const { return SM_CHECKMEMBERSSAME(o, v, verbose); }
  bool sameBoth(const Holder &o) const { return SM_CHECKMEMBERSSAME(o, v) && SM_CHECKMEMBERSSAME(o, p); }
  bool differ(const Holder &o) const { return !SM_CHECKMEMBERSSAME(o, v); }
};
struct Quiet { std::streambuf *b; Quiet() : b(0) { if (vf_native()) b = std::cout.rdbuf(nullptr); } ~Quiet() { if (vf_native()) std::cout.rdbuf(b); } };
template <class T> void comparison() {
  T a = value<T>("a"), b = value<T>("b");
  if (vf_native() && vf_bool("copy")) b = a;
  bool eq = own(a, b);
  vf_check(SM_CHECKSAME(a, b) == eq, "values: their own equality");
  vf_check((!SM_CHECKSAME(a, b)) == !eq, "values: usable in an expression");
  Holder<T> x, y; x.v = a; y.v = b; x.p = y.p = 0;
  vf_check(x.sameV(y) == eq, "members: their own equality");
  vf_check(x.differ(y) == !eq, "members: usable in an expression");
  vf_check(x.sameBoth(y) == eq, "members: usable in a conjunction");
}
template <class T> void verbosity() {
  Quiet q;
  T a = value<T>("a"), b = value<T>("b");
  if (vf_native() && vf_bool("copy")) b = a;
  bool eq = own(a, b), verbose = vf_bool("verbose");
  Holder<T> x, y; x.v = a; y.v = b; x.p = y.p = 0;
  vf_check(x.sameVv(y, verbose) == eq, "members: the result does not depend on the verbosity");
  vf_check((SM_CHECKSAME(a, b, verbose)) == eq, "values: the result does not depend on the verbosity");
}
template <class T> void pointers() {
  T a = value<T>("a"), b = value<T>("b");
  if (vf_native() && vf_bool("copy")) b = a;
  int nulls = vf_choice("nulls", 5);       // neither, first, second, both, the same object
  T *p = nulls == 1 || nulls == 3 ? 0 : &a, *q = nulls == 2 || nulls == 3 ? 0 : nulls == 4 ? &a : &b;
  bool eq = nulls == 3 ? true : nulls == 1 || nulls == 2 ? false : nulls == 4 ? own(a, a) : own(a, b);
  vf_check(SM_CHECKSAME(p, q) == eq, "pointers: null safe, pointed-to objects compared");
  Holder<T> x, y; x.v = a; y.v = b; x.p = p; y.p = q;
  vf_check(x.sameP(y) == eq, "member pointers: null safe, pointed-to objects compared");
  vf_check((!SM_CHECKSAME(p, q)) == !eq, "pointers: usable in an expression");
}
template <class T> void sharedPointers() {
  T a = value<T>("a"), b = value<T>("b");
  if (vf_native() && vf_bool("copy")) b = a;
  int nulls = vf_choice("nulls", 5);
  boost::shared_ptr<T> p, q;
  if (nulls != 1 && nulls != 3) p = boost::make_shared<T>(a);
  if (nulls != 2 && nulls != 3) q = nulls == 4 ? p : boost::make_shared<T>(b);
  bool eq = nulls == 3 ? true : nulls == 1 || nulls == 2 ? false : nulls == 4 ? own(a, a) : own(a, b);
  vf_check(SM_CHECKSAME(p, q) == eq, "shared pointers: null safe, pointed-to objects compared");
  Holder<T> x, y; x.v = a; y.v = b; x.p = y.p = 0; x.s = p; y.s = q;
  vf_check(x.sameS(y) == eq, "member shared pointers: null safe, pointed-to objects compared");
}
}
#define FOR_TYPE(T)                                        \
  VF_CHECK(C34, values_##T) { comparison<T>(); }           \
  VF_CHECK(C34, verbosity_##T) { verbosity<T>(); }         \
  VF_CHECK(C34, pointers_##T) { pointers<T>(); }           \
  VF_CHECK(C34, shared_pointers_##T) { sharedPointers<T>(); }
FOR_TYPE(int) FOR_TYPE(double) FOR_TYPE(WithMember) FOR_TYPE(WithOperator)

static void numbers(const char *n, int k, double *out) { for (int i = 0; i < k; ++i) out[i] = vf_fp64(n); }
// natively the second object is mostly a copy of the first with one component changed
static void other(const char *n, int k, const double *first, double *out) {
  numbers(n, k, out);
  if (!vf_native()) return;
  int c = vf_choice("changed", 2 * k);
  for (int i = 0; i < k; ++i) if (i != c && first[i] == first[i]) out[i] = first[i];
}
static bool all(const double *a, const double *b, int k) {
  unsigned r = 1;
  for (int i = 0; i < k; ++i) r &= unsigned(a[i] == b[i]);
  return r;
}
VF_CHECK(C34, transformations) {
  double a[7], b[7]; numbers("a", 7, a); other("b", 7, a, b);
  Transformation A, B;
  std::memcpy(A.qptr(), a, 32); std::memcpy(A.tptr(), a + 4, 24);
  std::memcpy(B.qptr(), b, 32); std::memcpy(B.tptr(), b + 4, 24);
  bool r = A.isBinaryEqual(B);
  vf_check(r == all(a, b, 7), "equal exactly when all components are equal");
  if (r) vf_reach("equal"); else vf_reach("different");
}
VF_CHECK(C34, uncertain_transformations) {
  double a[7], b[7], u[36], v[36]; numbers("a", 7, a); other("b", 7, a, b);
  numbers("u", 36, u); other("v", 36, u, v);
  UncertainTransformation A, B;
  std::memcpy(A.qptr(), a, 32); std::memcpy(A.tptr(), a + 4, 24);
  std::memcpy(B.qptr(), b, 32); std::memcpy(B.tptr(), b + 4, 24);
  A.setU(Eigen::Map<Eigen::Matrix<double, 6, 6> >(u)); B.setU(Eigen::Map<Eigen::Matrix<double, 6, 6> >(v));
  bool r = A.isBinaryEqual(B);
  vf_check(r == bool(int(all(a, b, 7)) & int(all(u, v, 36))), "equal exactly when all components are equal");
  if (r) vf_reach("equal"); else vf_reach("different");
}
namespace {
struct P : HomogeneousPoint { P(const double *a) { std::memcpy(_ph.data(), a, 32); } };
struct UP : UncertainHomogeneousPoint {
  UP(const double *a, double *u) : UncertainHomogeneousPoint(HomogeneousPoint()) { std::memcpy(_ph.data(), a, 32); setU(Eigen::Map<Eigen::Matrix4d>(u)); }
};
}
VF_CHECK(C34, homogeneous_points) {
  double a[4], b[4]; numbers("a", 4, a); other("b", 4, a, b);
  P A(a), B(b);
  bool r = A.isBinaryEqual(B);
  vf_check(r == all(a, b, 4), "equal exactly when all components are equal");
  if (r) vf_reach("equal"); else vf_reach("different");
}
VF_CHECK(C34, uncertain_homogeneous_points) {
  double a[4], b[4], u[16], v[16]; numbers("a", 4, a); other("b", 4, a, b);
  numbers("u", 16, u); other("v", 16, u, v);
  UP A(a, u), B(b, v);
  bool r = A.isBinaryEqual(B);
  vf_check(r == bool(int(all(a, b, 4)) & int(all(u, v, 16))), "equal exactly when all components are equal");
  if (r) vf_reach("equal"); else vf_reach("different");
}
