// C14: nanosecond time
#include "contract.hpp"
#include <sm/timing/NsecTimeUtilities.hpp>
#include <limits>
using namespace sm::timing;
typedef std::chrono::system_clock::time_point TP;

VF_CHECK(C14, chrono_round_trip) {
  vf_body(vf_p(&nsecToChrono)); vf_body(vf_p(&chronoToNsec));
  NsecTime t = NsecTime(vf_bits("t", 64));
  TP tp = nsecToChrono(t);
  vf_check(chronoToNsec(tp) == t, "nanoseconds to time point and back is the identity");
  vf_check(std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count() == t, "the time point is that many nanoseconds after the epoch");
}
VF_CHECK(C14, time_point_round_trip) {
  TP tp{TP::duration(int64_t(vf_bits("t", 64)))};
  vf_check(nsecToChrono(chronoToNsec(tp)) == tp, "time point to nanoseconds and back is the identity");
}
VF_CHECK(C14, validity) {
  vf_body(vf_p(&isValid));
  NsecTime t = NsecTime(vf_bits("t", 64));
  vf_check(isValid(t) == (t != std::numeric_limits<NsecTime>::min()), "invalid exactly at the documented value");
  vf_check(getInvalidTime() == std::numeric_limits<NsecTime>::min(), "the documented invalid time stamp");
  vf_check(!isValid(getInvalidTime()), "the invalid time stamp is invalid");
}
