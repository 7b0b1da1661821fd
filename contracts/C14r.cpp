// C14, conversions to and from seconds: real arithmetic with one relative rounding error of 2^-53 per operation
#include "contract.hpp"
#include <sm/timing/NsecTimeUtilities.hpp>
using namespace sm::timing;
static double mag(double x) { return x < 0 ? -x : x; }

VF_CHECK(C14, seconds_round_trip) {
  vf_body(vf_p(&nsecToSec)); vf_body(vf_p(&secToNsec));
  NsecTime t = vf_integer("t");
  vf_assume(double(t) < 9.22337203685476e18); vf_assume(double(t) > -9.22337203685476e18);
  double back = double(secToNsec(nsecToSec(t)));
  double tol = 1 + 8.9e-16 * mag(double(t));
  vf_check_le(back - double(t), tol, 0, "within the precision of a double plus one nanosecond");
  vf_check_le(double(t) - back, tol, 0, "within the precision of a double plus one nanosecond");
}
VF_CHECK(C14, seconds_are_nanoseconds_over_a_billion) {
  NsecTime t = vf_integer("t");
  double s = nsecToSec(t), m = 9e-16 * mag(double(t));
  vf_check_le(s * 1e9 - double(t), m, 0, "seconds");
  vf_check_le(double(t) - s * 1e9, m, 0, "seconds");
}
