// C31: runtime assertion macros
#include "contract.hpp"
#include <cmath>
#include <stdexcept>
using std::isfinite; using std::isnan;
#include <sm/assert_macros.hpp>

SM_DEFINE_EXCEPTION(Requested, std::runtime_error);
SM_DEFINE_EXCEPTION(Sibling, std::runtime_error);

static int evals;
template <class T> __attribute__((noinline)) static T ev(T x) { ++evals; return x; }
static bool contains(const std::string &s, const char *t) { return s.find(t) != std::string::npos; }
static void thrownText(const char *what, int line, const char *function) {
  std::string s(what);
  vf_check(contains(s, (std::string(__FILE__) + ":" + std::to_string(line) + ":").c_str()), "the exception carries file and line");
  vf_check(contains(s, "text 7 end"), "the exception carries the message");
  vf_check(contains(s, "[Requested]"), "the exception names its type");
  vf_check(contains(s, (std::string(" ") + function + "()").c_str()), "the exception carries the function");
  vf_reach("thrown");
}

// the statement STMT: throws exactly when COND is false
#define OUTCOME(COND, ...)                                                              \
  {                                                                                     \
    bool passed = false, other = false, thrown = false;                                 \
    evals = 0;                                                                          \
    try { __VA_ARGS__; passed = true; }                                                 \
    catch (const Requested &e) { thrown = true; thrownText(e.what(), __LINE__, __FUNCTION__); } \
    catch (...) { other = true; }                                                       \
    bool c = (COND);                                                                    \
    vf_check(!other, "no other exception type");                                        \
    vf_check(passed == c, "execution continues exactly when the condition holds");      \
    vf_check(thrown == !c, "throws the requested type exactly when the condition fails"); \
    if (passed) vf_reach("passed");                                                     \
  }
#define MSG "text " << 7 << " end"

static double input(double, const char *n) { double a = vf_fp64(n); vf_assume(a == a); return a; }
static float input(float, const char *n) { float a = vf_fp32(n); vf_assume(a == a); return a; }
static int input(int, const char *n) { return int(vf_bits(n, 32)); }
static int64_t input(int64_t, const char *n) { return int64_t(vf_bits(n, 64)); }
static unsigned input(unsigned, const char *n) { return unsigned(vf_bits(n, 32)); }

// two operands, evaluated once when the assertion passes
#define COMPARE1(MACRO, NAME, T, OP)                                                     \
  VF_CHECK(C31, NAME##_##T) {                                                            \
    T a = input(T(), "a"), b = input(T(), "b");                                          \
    if (vf_native() && vf_bool("same")) b = a;                                           \
    OUTCOME(a OP b, MACRO(Requested, ev(a), ev(b), MSG))                                 \
    if (a OP b) vf_check(evals == 2, "each operand is evaluated once in the passing case"); \
  }
#define COMPARE(MACRO, OP)                                                               \
  COMPARE1(MACRO, MACRO, double, OP) COMPARE1(MACRO, MACRO, int, OP) COMPARE1(MACRO, MACRO, unsigned, OP) \
  COMPARE1(MACRO##_DBG, MACRO##_DBG, double, OP) COMPARE1(MACRO##_DBG, MACRO##_DBG, int64_t, OP)
COMPARE(SM_ASSERT_LT, <)
COMPARE(SM_ASSERT_LE, <=)
COMPARE(SM_ASSERT_GT, >)
COMPARE(SM_ASSERT_GE, >=)
COMPARE(SM_ASSERT_EQ, ==)
COMPARE(SM_ASSERT_NE, !=)

// a value and two bounds
#define RANGE1(MACRO, NAME, T, LO, HI)                                                   \
  VF_CHECK(C31, NAME##_##T) {                                                            \
    T v = input(T(), "v"), l = input(T(), "l"), u = input(T(), "u");                     \
    if (vf_native()) { int w = vf_choice("same", 4); if (w == 1) v = l; if (w == 2) v = u; if (w == 3) { u = l; v = l; } } \
    OUTCOME(bool(int(l LO v) & int(v HI u)), MACRO(Requested, v, l, u, MSG))             \
  }
#define RANGE(MACRO, LO, HI)                                                             \
  RANGE1(MACRO, MACRO, double, LO, HI) RANGE1(MACRO, MACRO, int, LO, HI) RANGE1(MACRO, MACRO, unsigned, LO, HI)   \
  RANGE1(MACRO##_DBG, MACRO##_DBG, double, LO, HI) RANGE1(MACRO##_DBG, MACRO##_DBG, int64_t, LO, HI)
RANGE(SM_ASSERT_GE_LT, <=, <)
RANGE(SM_ASSERT_GT_LE, <, <=)
RANGE(SM_ASSERT_GE_LE, <=, <=)

// the sign of a value
#define SIGN1(MACRO, NAME, T, OP)                                                        \
  VF_CHECK(C31, NAME##_##T) {                                                            \
    T v = input(T(), "v");                                                               \
    OUTCOME(v OP 0, MACRO(Requested, ev(v), MSG))                                        \
    if (v OP 0) vf_check(evals == 1, "the operand is evaluated once in the passing case"); \
  }
#define SIGN(MACRO, OP) SIGN1(MACRO, MACRO, double, OP) SIGN1(MACRO, MACRO, int, OP) SIGN1(MACRO##_DBG, MACRO##_DBG, double, OP) SIGN1(MACRO##_DBG, MACRO##_DBG, float, OP)
SIGN(SM_ASSERT_POSITIVE, >)
SIGN(SM_ASSERT_NONNEGATIVE, >=)
SIGN(SM_ASSERT_NEGATIVE, <)
SIGN(SM_ASSERT_NONPOSITIVE, <=)
SIGN(SM_ASSERT_ZERO, ==)

#define NEAR(MACRO)                                                                      \
  VF_CHECK(C31, MACRO) {                                                                 \
    double a = input(double(), "a"), b = input(double(), "b"), e = input(double(), "e"); \
    vf_assume(std::fabs(a) <= 1e308); vf_assume(std::fabs(b) <= 1e308); \
    if (vf_native() && vf_bool("edge")) { b = a + e; }                                   \
    double d = a > b ? a - b : b - a, t = e < 0 ? -e : e;                                \
    OUTCOME(d <= t, MACRO(Requested, ev(a), ev(b), ev(e), MSG))                          \
    if (d <= t) vf_check(evals == 3, "each operand is evaluated once in the passing case"); \
  }
NEAR(SM_ASSERT_NEAR)
NEAR(SM_ASSERT_NEAR_DBG)

#define CONDITION(SUFFIX)                                                                \
  VF_CHECK(C31, SM_ASSERT_TRUE##SUFFIX) {                                                \
    int v = input(int(), "v"); if (vf_native() && vf_bool("zero")) v = 0;                \
    OUTCOME(v != 0, SM_ASSERT_TRUE##SUFFIX(Requested, ev(v), MSG))                       \
    vf_check(evals == 1, "the condition is evaluated once");                             \
  }                                                                                      \
  VF_CHECK(C31, SM_ASSERT_FALSE##SUFFIX) {                                               \
    int v = input(int(), "v"); if (vf_native() && vf_bool("zero")) v = 0;                \
    OUTCOME(v == 0, SM_ASSERT_FALSE##SUFFIX(Requested, ev(v), MSG))                      \
    vf_check(evals == 1, "the condition is evaluated once");                             \
  }                                                                                      \
  VF_CHECK(C31, compound_condition##SUFFIX) {                                            \
    int v = input(int(), "v"), u = input(int(), "u");                                    \
    OUTCOME(v > u || v == 3, SM_ASSERT_TRUE##SUFFIX(Requested, v > u || v == 3, MSG))    \
    OUTCOME(!(v > u || v == 3), SM_ASSERT_FALSE##SUFFIX(Requested, v > u || v == 3, MSG)) \
  }                                                                                      \
  VF_CHECK(C31, SM_ASSERT_NOTNULL##SUFFIX) {                                             \
    int x = 0; int *p = vf_bool("null") ? nullptr : &x;                                  \
    OUTCOME(p != nullptr, SM_ASSERT_NOTNULL##SUFFIX(Requested, p, MSG))                  \
  }
CONDITION()
CONDITION(_DBG)
VF_CHECK(C31, SM_ASSERT_NULL) {
  int x = 0; int *p = vf_bool("null") ? nullptr : &x;
  OUTCOME(p == nullptr, SM_ASSERT_NULL(Requested, p, MSG))
}
VF_CHECK(C31, SM_ASSERT_FINITE) {
  double a = vf_fp64("a");
  OUTCOME(a - a == 0, SM_ASSERT_FINITE(Requested, ev(a), MSG))
  if (a - a == 0) vf_check(evals == 1, "the operand is evaluated once in the passing case");
}
VF_CHECK(C31, SM_ASSERT_NOTNAN) {
  double a = vf_fp64("a");
  OUTCOME(a == a, SM_ASSERT_NOTNAN(Requested, ev(a), MSG))
  if (a == a) vf_check(evals == 1, "the operand is evaluated once in the passing case");
}
VF_CHECK(C31, throwing) {
  int k = vf_choice("which", 2);
  if (k == 0) OUTCOME(false, SM_THROW(Requested, MSG))
  if (k == 1) OUTCOME(false, SM_THROW_DBG(Requested, MSG))
}
VF_CHECK(C31, throwing_at_a_position) {
  bool thrown = false;
  int line = 1 + vf_choice("line", 20);
  try { SM_THROW_SFP(Requested, sm::source_file_pos("fn", "file.cpp", line), MSG); }
  catch (const Requested &e) {
    thrown = true;
    vf_check(contains(e.what(), ("file.cpp:" + std::to_string(line) + ": fn()").c_str()), "the exception carries the given position");
    vf_check(contains(e.what(), "text 7 end"), "the exception carries the message");
  }
  vf_check(thrown, "throws");
  vf_check(sm::source_file_pos("fn", "file.cpp", line).toString() == "file.cpp:" + std::to_string(line) + ": fn()", "text of a position");
}
VF_CHECK(C31, assertion_function) {
  bool c = vf_bool("c"), thrown = false;
  try { sm::sm_assert_throw<Requested>(c, "message", sm::source_file_pos("fn", "file.cpp", 12)); }
  catch (const Requested &e) {
    thrown = true;
    vf_check(contains(e.what(), "file.cpp:12: fn()") && contains(e.what(), "message"), "the exception carries position and message");
  }
  vf_check(thrown == !c, "throws exactly when the condition is false");
}
