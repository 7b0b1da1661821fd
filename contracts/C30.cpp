// C30: small numeric helpers
#include "contract.hpp"
#include <sm/numerical_comparisons.hpp>
#include <sm/maths.hpp>
#include <sm/round.hpp>
#include <cmath>

template <class T> static void comparisons(T a, T b, T e) {
  bool thrown = false, eq = false, gt = false, lt = false;
  try { eq = sm::approximatelyEqual(a, b, e); gt = sm::definitelyGreaterThan(a, b, e); lt = sm::definitelyLessThan(a, b, e); }
  catch (const std::invalid_argument &) { thrown = true; }
  if (e <= 0) { vf_check(thrown, "a tolerance that is not positive is rejected"); return; }
  vf_check(!thrown, "accepted");
  T m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
  T tol = m * e;
  vf_check(eq == (std::fabs(a - b) <= tol), "approximately equal exactly when the difference is within tolerance times magnitude");
  vf_check(gt == (a - b > tol), "definitely greater");
  vf_check(lt == (b - a > tol), "definitely less");
  vf_check(!(int(eq) & int(gt)), "not approximately equal and greater");
  vf_check(!(int(eq) & int(lt)), "not approximately equal and less");
  vf_check(!(int(gt) & int(lt)), "not greater and less");
  vf_reach("compared");
}
VF_CHECK(C30, comparison_of_doubles) {
  double a = vf_fp64("a"), b = vf_fp64("b"), e = vf_fp64("e");
  vf_assume(a == a && b == b && e == e);
  comparisons<double>(a, b, e);
}
VF_CHECK(C30, comparison_of_floats) {
  float a = vf_fp32("a"), b = vf_fp32("b"), e = vf_fp32("e");
  vf_assume(a == a && b == b && e == e);
  comparisons<float>(a, b, e);
}
VF_CHECK(C30, default_tolerance) {
  double a = vf_fp64("a"), b = vf_fp64("b");
  float c = vf_fp32("c"), d = vf_fp32("d");
  vf_check(sm::approximatelyEqual(a, b) == sm::approximatelyEqual(a, b, 2.220446049250313e-16), "machine precision");
  vf_check(sm::definitelyGreaterThan(c, d) == sm::definitelyGreaterThan(c, d, 1.1920928955078125e-07f), "machine precision");
  vf_check(sm::definitelyLessThan(c, d) == sm::definitelyLessThan(c, d, 1.1920928955078125e-07f), "machine precision");
}
VF_CHECK(C30, sign) {
  double a = vf_fp64("a"); vf_assume(a == a);
  vf_check(sm::sgn(a) == (a > 0 ? 1 : a < 0 ? -1 : 0), "sign of a double");
  float f = vf_fp32("f"); vf_assume(f == f);
  vf_check(sm::sgn(f) == (f > 0 ? 1 : f < 0 ? -1 : 0), "sign of a float");
  int64_t i = int64_t(vf_bits("i", 64));
  vf_check(sm::sgn(i) == (i > 0 ? 1 : i < 0 ? -1 : 0), "sign of an integer");
  int j = int(vf_bits("j", 32));
  vf_check(sm::sgn(j) == (j > 0 ? 1 : j < 0 ? -1 : 0), "sign of an int");
  unsigned u = unsigned(vf_bits("u", 32));
  vf_check(sm::sgn(u) == (u > 0 ? 1 : 0), "sign of an unsigned");
}
// r is the integer nearest to x, halves away from zero
template <class T> static bool nearest(T x, T r) {
  if (std::trunc(r) != r) return false;
  T t = std::trunc(x), f = std::fabs(x - t);          // exact
  if (f < T(0.5)) return r == t;
  return r == (x > 0 ? t + 1 : t - 1);
}
VF_CHECK(C30, rounding_doubles) {
  double a = vf_fp64("a");
  vf_assume(std::fabs(a) <= 1.7976931348623157e308);
  double r = sm::round(a);
  vf_check(nearest(a, r), "the nearest integer, halves away from zero");
}
VF_CHECK(C30, rounding_floats) {
  float f = vf_fp32("f");
  vf_assume(std::fabs(f) <= 3.4028234e38f);
  vf_check(nearest(f, sm::round(f)), "the nearest integer, halves away from zero");
}
VF_CHECK(C30, rounding_to_int) {
  double a = vf_fp64("a");
  vf_assume(a < 2147483647.5 && a > -2147483648.5);
  vf_check(nearest(a, double(sm::rint(a))), "int: the nearest integer, halves away from zero");
}
VF_CHECK(C30, rounding_to_long) {
  double a = vf_fp64("a");
  vf_assume(a < 9223372036854775807.0 && a >= -9223372036854775808.0);
  long r = sm::lrint(a);
  vf_check(nearest(a, double(r)), "long: the nearest integer, halves away from zero");
  vf_check(std::fabs(a) >= 9007199254740992.0 || (r < 9007199254740993 && r > -9007199254740993), "long: of that size");
}
VF_CHECK(C30, rounding_floats_to_int) {
  float f = vf_fp32("f");
  vf_assume(f < 2147483647.0f && f >= -2147483648.0f);
  vf_check(nearest<double>(f, double(sm::rint(f))), "int: the nearest integer, halves away from zero");
}
VF_CHECK(C30, rounding_floats_to_long) {
  float f = vf_fp32("f");
  vf_assume(f < 9223372036854775807.0f && f >= -9223372036854775808.0f);
  vf_check(nearest<double>(f, double(sm::lrint(f))), "long: the nearest integer, halves away from zero");
}
VF_CHECK(C30, quadratic) {
  double a = vf_real("a"), b = vf_real("b"), c = vf_real("c");
  vf_assume(a != 0);
  double d = b * b - 4 * a * c, s = b * b + 4 * vf_scale(a * c);
  if (vf_native()) vf_assume(d > 1e-9 * s || d < -1e-9 * s || d == 0);
  bool thrown = false; std::pair<double, double> r;
  try { r = sm::solveQuadratic(a, b, c); } catch (const std::runtime_error &) { thrown = true; }
  vf_check(thrown == (d < 0), "rejected exactly when there is no real root");
  if (thrown) { vf_reach("rejected"); return; }
  vf_check_eq(r.first + r.second, -b / a, vf_scale(r.first) + vf_scale(r.second), "the sum of the roots");
  vf_check_eq(r.first * r.second, c / a, 0, "the product of the roots");
  vf_check_eq((a * r.first + b) * r.first + c, 0, vf_scale(a * r.first * r.first) + vf_scale(b * r.first) + vf_scale(c), "a root");
  vf_check_eq((a * r.second + b) * r.second + c, 0, vf_scale(a * r.second * r.second) + vf_scale(b * r.second) + vf_scale(c), "a root");
  vf_reach("solved");
}
