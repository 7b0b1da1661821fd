// C13: angle utilities
#include "contract.hpp"
#include <sm/kinematics/rotations.hpp>
#include <cmath>
using namespace sm::kinematics;

static const double PI = 3.14159265358979323846;
static double size(double x) { return vf_scale(x); }

VF_CHECK(C13, reduction) {
  vf_body(vf_p(&angleMod));
  double a = vf_angle("a");
  double r = angleMod(a);
  double slack = 4e-16 * size(a) + 1e-15;
  vf_check_le(r, PI, slack, "not more than half a turn");
  vf_check_le(-PI, r, slack, "not less than minus half a turn");
  double turns = (a - r) / (2 * PI);
  if (vf_native()) vf_check_near(turns, std::floor(turns + 0.5), 1e-15 * (1 + size(turns)), "differs by a whole number of turns");
  else vf_check(std::floor(turns) == turns, "differs by a whole number of turns");
}
VF_CHECK(C13, reduced_angles_stay) {
  double a = vf_angle("a");
  vf_assume(a < PI); vf_assume(a > -PI);
  if (vf_native()) vf_assume(a < PI - 1e-15 && a > -PI + 1e-15);
  vf_check_eq(angleMod(a), a, 0, "an angle strictly within half a turn is returned unchanged");
}
VF_CHECK(C13, whole_turns_do_not_matter) {
  double a = vf_angle("a"); int k = vf_choice("turns", 9) - 4;
  vf_assume(a < PI); vf_assume(a > -PI);
  if (vf_native()) vf_assume(a < PI - 1e-12 && a > -PI + 1e-12);
  vf_check_near(angleMod(a + k * (2 * PI)), a, vf_native() ? 1e-14 : 0.0, "the reduced angle of a plus whole turns is a");
}
VF_CHECK(C13, degrees_and_radians) {
  vf_body(vf_p(&deg2rad)); vf_body(vf_p(&rad2deg));
  double a = vf_real("a"), b = vf_real("b"), s = vf_real("s");
  double tiny = vf_native() ? 4e-16 : 0.0;
  vf_check_near(deg2rad(180.0), PI, 5e-16, "half a turn is pi");
  vf_check_near(rad2deg(PI), 180.0, 5e-14, "pi is half a turn");
  vf_check_near(deg2rad(a + b), deg2rad(a) + deg2rad(b), tiny * (size(a) + size(b)), "deg2rad is additive");
  vf_check_near(rad2deg(a + b), rad2deg(a) + rad2deg(b), 100 * tiny * (size(a) + size(b)), "rad2deg is additive");
  vf_check_near(deg2rad(s * a), s * deg2rad(a), tiny * size(s) * size(a), "deg2rad is linear");
  vf_check_near(rad2deg(s * a), s * rad2deg(a), 100 * tiny * size(s) * size(a), "rad2deg is linear");
  double m = a < 0 ? -a : a;
  vf_check_le(rad2deg(deg2rad(a)) - a, 5e-16 * m, 5e-16 * m, "inverse up to rounding");
  vf_check_le(a - rad2deg(deg2rad(a)), 5e-16 * m, 5e-16 * m, "inverse up to rounding");
  vf_check_le(deg2rad(rad2deg(a)) - a, 5e-16 * m, 5e-16 * m, "inverse up to rounding");
  vf_check_le(a - deg2rad(rad2deg(a)), 5e-16 * m, 5e-16 * m, "inverse up to rounding");
}
