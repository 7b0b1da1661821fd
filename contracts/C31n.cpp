// C31: with NDEBUG the debug variants do nothing
#define NDEBUG
#include "contract.hpp"
#include <cmath>
#include <stdexcept>
using std::isfinite; using std::isnan;
#include <sm/assert_macros.hpp>
VF_CHECK(C31, debug_variants_in_a_release_build) {
  double a = vf_fp64("a"), b = vf_fp64("b"), c = vf_fp64("c");
  bool thrown = false; int *p = nullptr;
  try {
    SM_ASSERT_TRUE_DBG(std::runtime_error, false, "m");
    SM_ASSERT_FALSE_DBG(std::runtime_error, true, "m");
    SM_ASSERT_LT_DBG(std::runtime_error, a, b, "m"); SM_ASSERT_LE_DBG(std::runtime_error, a, b, "m");
    SM_ASSERT_GT_DBG(std::runtime_error, a, b, "m"); SM_ASSERT_GE_DBG(std::runtime_error, a, b, "m");
    SM_ASSERT_EQ_DBG(std::runtime_error, a, b, "m"); SM_ASSERT_NE_DBG(std::runtime_error, a, b, "m");
    SM_ASSERT_GE_LT_DBG(std::runtime_error, a, b, c, "m"); SM_ASSERT_GT_LE_DBG(std::runtime_error, a, b, c, "m"); SM_ASSERT_GE_LE_DBG(std::runtime_error, a, b, c, "m");
    SM_ASSERT_POSITIVE_DBG(std::runtime_error, a, "m"); SM_ASSERT_NONNEGATIVE_DBG(std::runtime_error, a, "m");
    SM_ASSERT_NEGATIVE_DBG(std::runtime_error, a, "m"); SM_ASSERT_NONPOSITIVE_DBG(std::runtime_error, a, "m"); SM_ASSERT_ZERO_DBG(std::runtime_error, a, "m");
    SM_ASSERT_NOTNULL_DBG(std::runtime_error, p, "m"); SM_ASSERT_NEAR_DBG(std::runtime_error, a, b, c, "m");
    SM_THROW_DBG(std::runtime_error, "m");
  } catch (...) { thrown = true; }
  vf_check(!thrown, "a debug assertion never throws in a release build");
}
VF_CHECK(C31, other_variants_in_a_release_build) {
  double a = vf_fp64("a"), b = vf_fp64("b");
  vf_assume(a == a); vf_assume(b == b);
  bool thrown = false;
  try { SM_ASSERT_LT(std::runtime_error, a, b, "m"); } catch (const std::runtime_error &) { thrown = true; }
  vf_check(thrown == !(a < b), "the other assertions stay");
}
