// C16: timers record exactly the intervals that were run
#include <cmath>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include "contract.hpp"
#include <boost/thread/mutex.hpp>
#define private public
#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics.hpp>
#include <boost/accumulators/statistics/rolling_mean.hpp>
#undef private
#include <boost/date_time/posix_time/posix_time.hpp>
#define private public
#include "sm_timing/src/Timer.cpp"
#undef private
using namespace sm::timing;

// the clock is under control of the contract
#ifndef VF_NATIVE
extern "C" void vf_set_clock(int64_t microseconds);
#else
#include <sys/time.h>
#include <time.h>
static int64_t fake_us = 0;
static int time_zone = (setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1), tzset(), 0);
static void vf_set_clock(int64_t us) { fake_us = us; }
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept { tv->tv_sec = fake_us / 1000000; tv->tv_usec = fake_us % 1000000; return 0; }
#endif
static int64_t instant(const char *n, int64_t after) {
  int64_t t = vf_integer(n);
#ifdef VF_NATIVE
  if (!after && t % 3 == 0) return 1792889999000000ll;
  t = after + int64_t(uint64_t(t) % 100000000000ull);
#endif
  vf_assume(t >= after);
  vf_assume(t <= 4000000000000000ll);
  return t;
}
static const char *const TAG[3] = {"a", "b", "a long tag that does not fit into the string"};
// statistics of the samples
struct Samples {
  double v[4];
  int n;
  Samples() : n(0) {}
  void add(double x) { v[n++] = x; }
  void check(const std::string &tag) {
    vf_check(int(Timing::getNumSamples(tag)) == n, "the number of samples");
    double sum = 0, sq = 0, mx = 1;
    for (int i = 0; i < n; ++i) { sum += v[i]; sq += v[i] * v[i]; mx += std::fabs(v[i]); }
    vf_check_eq(Timing::getTotalSeconds(tag), sum, vf_scale(mx), "the total");
    if (!n) return;
    vf_check_eq(Timing::getMeanSeconds(tag), sum / n, vf_scale(mx), "the mean");
    vf_check_eq(Timing::getVarianceSeconds(tag), sq / n - (sum / n) * (sum / n), vf_scale(mx * mx), "the variance");
    if (sum != 0) vf_check_eq(Timing::getHz(tag) * sum, n, vf_scale(mx * 1e6), "the frequency");
    double lo = Timing::getMinSeconds(tag), hi = Timing::getMaxSeconds(tag);
    bool a = false, b = false;
    for (int i = 0; i < n; ++i) { a = bool(int(a) | int(lo == v[i])); b = bool(int(b) | int(hi == v[i])); vf_check(lo <= v[i], "the minimum"); vf_check(v[i] <= hi, "the maximum"); }
    vf_check(a, "the minimum is a sample");
    vf_check(b, "the maximum is a sample");
  }
};
static double interval(const char *n) {
  double x = vf_real(n);
  vf_assume(x < 1e15);
  vf_assume(x > -1e15);
  return x;
}
VF_CHECK(C16, statistics) {
  Samples s, t;
  std::string a("tag"), b("other");
  size_t h = Timing::getHandle(a), g = Timing::getHandle(b);
  Timing::reset(a); Timing::reset(b);
  for (int k = vf_choice("samples", 4); k > 0; --k) {
    double x = interval("interval");
    if (vf_bool("other")) { Timing::instance().addTime(g, x); t.add(x); }
    else { Timing::instance().addTime(h, x); s.add(x); }
  }
  s.check(a);
  t.check(b);
  Timing::reset(h);
  Samples().check(a);
  t.check(b);
}
// The statistics of any number of samples: the accumulated state is the number, sum, sum of squares, minimum and maximum of the
// samples. It is so initially, every further sample keeps it so, and the queries answer from it.
struct State {
  int64_t n; double sum, sq, lo, hi;
  template <typename A> static State of(const A &a) {
    using namespace boost::accumulators;
    State s;
    s.n = int64_t(find_accumulator<tag::count>(a).cnt);
    s.sum = find_accumulator<tag::sum>(a).sum;
    s.sq = find_accumulator<tag::moment<2>>(a).sum;
    s.lo = find_accumulator<tag::min>(a).min_;
    s.hi = find_accumulator<tag::max>(a).max_;
    return s;
  }
  template <typename A> void to(A &a) const {
    using namespace boost::accumulators;
    find_accumulator<tag::count>(a).cnt = std::size_t(n);
    find_accumulator<tag::sum>(a).sum = sum;
    find_accumulator<tag::moment<2>>(a).sum = sq;
    find_accumulator<tag::min>(a).min_ = lo;
    find_accumulator<tag::max>(a).max_ = hi;
  }
};
static State arbitrary_state() {
  State s;
#ifdef VF_NATIVE
  s.n = 0; s.sum = s.sq = 0; s.lo = 1e300; s.hi = -1e300;
  for (int k = vf_choice("samples", 70) + 1; k > 0; --k) {
    double x = interval("sample"); ++s.n; s.sum += x; s.sq += x * x; s.lo = std::min(s.lo, x); s.hi = std::max(s.hi, x);
  }
#else
  s.n = vf_integer("samples");
  vf_assume(s.n >= 1); vf_assume(s.n <= 1000000000000ll);
  s.sum = interval("sum"); s.sq = vf_real("sum of squares"); s.lo = interval("minimum"); s.hi = interval("maximum");
  vf_assume(s.sq >= 0); vf_assume(s.lo <= s.hi);
#endif
  return s;
}
VF_CHECK(C16, one_more_sample) {
  std::string a("tag"), b("other");
  size_t h = Timing::getHandle(a), g = Timing::getHandle(b);
  Timing::reset(h); Timing::reset(g);
  State s0 = arbitrary_state(), o0 = arbitrary_state();
  for (int k = vf_choice("window", 2); k > 0; --k) Timing::instance().addTime(h, interval("last sample"));
  s0.to(Timing::instance().m_timers[h].m_acc);
  o0.to(Timing::instance().m_timers[g].m_acc);
  double x = interval("interval"), m = 1 + std::fabs(x) + std::fabs(s0.sum);
  Timing::instance().addTime(h, x);
  State s = State::of(Timing::instance().m_timers[h].m_acc), o = State::of(Timing::instance().m_timers[g].m_acc);
  vf_check(s.n == s0.n + 1, "one more sample");
  vf_check_eq(s.sum, s0.sum + x, vf_scale(m), "the sum");
  vf_check_eq(s.sq, s0.sq + x * x, vf_scale(m * m + s0.sq), "the sum of the squares");
  vf_check(s.lo == (x < s0.lo ? x : s0.lo), "the minimum");
  vf_check(s.hi == (x > s0.hi ? x : s0.hi), "the maximum");
  vf_check(o.n == o0.n && o.sum == o0.sum && o.sq == o0.sq && o.lo == o0.lo && o.hi == o0.hi, "other tags keep their samples");
}
VF_CHECK(C16, first_sample) {
  std::string a("a tag that was used or not");
  size_t h = Timing::getHandle(a);
#ifdef VF_NATIVE
  Timing::reset(h);
#endif
  if (vf_bool("used")) { Timing::instance().addTime(h, interval("before")); Timing::reset(h); }
  State s0 = State::of(Timing::instance().m_timers[h].m_acc);
  vf_check(s0.n == 0 && s0.sum == 0 && s0.sq == 0, "no samples");
  vf_check(Timing::getNumSamples(h) == 0 && Timing::getNumSamples(a) == 0 && Timing::getTotalSeconds(h) == 0, "none counted");
  double x = interval("interval");
  Timing::instance().addTime(h, x);
  State s = State::of(Timing::instance().m_timers[h].m_acc);
  vf_check(s.n == 1 && s.sum == x && s.lo == x && s.hi == x, "the sample");
  vf_check_eq(s.sq, x * x, vf_scale(x * x), "its square");
}
VF_CHECK(C16, answers) {
  std::string a("tag");
  size_t h = Timing::getHandle(a);
  Timing::reset(h);
  for (int k = vf_choice("window", 2); k > 0; --k) Timing::instance().addTime(h, interval("last sample"));
  State s = arbitrary_state();
  s.to(Timing::instance().m_timers[h].m_acc);
  bool t = vf_bool("by tag");
  double m = vf_scale(1 + std::fabs(s.sum) + s.sq);
  vf_check(int64_t(t ? Timing::getNumSamples(a) : Timing::getNumSamples(h)) == s.n, "the number of samples");
  vf_check((t ? Timing::getTotalSeconds(a) : Timing::getTotalSeconds(h)) == s.sum, "the total");
  vf_check_eq((t ? Timing::getMeanSeconds(a) : Timing::getMeanSeconds(h)) * double(s.n), s.sum, m * vf_scale(double(s.n)), "the mean");
  vf_check_eq((t ? Timing::getVarianceSeconds(a) : Timing::getVarianceSeconds(h)) * double(s.n) * double(s.n), s.sq * double(s.n) - s.sum * s.sum, m * m * vf_scale(double(s.n)), "the variance");
  vf_check((t ? Timing::getMinSeconds(a) : Timing::getMinSeconds(h)) == s.lo, "the minimum");
  vf_check((t ? Timing::getMaxSeconds(a) : Timing::getMaxSeconds(h)) == s.hi, "the maximum");
}
VF_CHECK(C16, handles) {
  std::string t[3];
  size_t h[3];
  for (int i = 0; i < 3; ++i) {
    t[i] = TAG[vf_choice("tag", 3)];
    t[i] += char(vf_bits("character", 8));
    h[i] = Timing::getHandle(t[i]);
  }
  for (int i = 0; i < 3; ++i) {
    vf_check(Timing::getHandle(t[i]) == h[i], "the same handle");
    vf_check(Timing::getTag(h[i]) == t[i], "the tag of the handle");
    for (int j = 0; j < i; ++j) vf_check((h[i] == h[j]) == (t[i] == t[j]), "distinct tags have distinct handles");
  }
  size_t n = 1000000;
  int k = 0;
  try { Timing::getTag(n); } catch (const TimerException &) { ++k; }
  try { Timer x(n); } catch (const TimerException &) { ++k; }
  try { Timer x(n, true); } catch (const TimerException &) { ++k; }
  try { Timing::getTotalSeconds(n); } catch (const TimerException &) { ++k; }
  try { Timing::getNumSamples(n + 1); } catch (const TimerException &) { ++k; }
  try { Timing::getMeanSeconds(n); } catch (const TimerException &) { ++k; }
  try { Timing::getVarianceSeconds(n); } catch (const TimerException &) { ++k; }
  try { Timing::getMinSeconds(n); } catch (const TimerException &) { ++k; }
  try { Timing::getMaxSeconds(n); } catch (const TimerException &) { ++k; }
  try { Timing::getHz(n); } catch (const TimerException &) { ++k; }
  try { Timing::reset(n); } catch (const TimerException &) { ++k; }
  vf_check(k == 11, "invalid handles are rejected");
}
// one operation on a timer in an arbitrary state
VF_CHECK(C16, one_operation) {
  std::string a("tag"), b("other");
  size_t h = Timing::getHandle(a), g = Timing::getHandle(b);
  Timing::reset(h); Timing::reset(g);
  bool running = vf_bool("running");
  int64_t t0 = instant("start", 0), t1 = instant("now", t0), t2 = instant("later", t1);
  double recorded = 0;
  int n = 0;
  {
    bool by_tag = vf_bool("by tag"), stopped = vf_bool("constructed stopped");
    vf_set_clock(t0);
    Timer t = by_tag ? Timer(a, stopped) : Timer(h, stopped);
    vf_check(t.isTiming() == !stopped, "started unless asked not to");
    if (running) { if (!t.isTiming()) t.start(); }
    else if (t.isTiming()) t.m_timing = false;
    vf_set_clock(t1);
    bool thrown = false, rejected = false;
    switch (vf_choice("operation", 3)) {
    case 0: rejected = running; try { t.start(); } catch (const TimerException &) { thrown = true; } if (!running) { running = true; t0 = t1; } break;
    case 1: rejected = !running; try { t.stop(); } catch (const TimerException &) { thrown = true; } if (running) { running = false; ++n; recorded += double(t1 - t0) * 1e-6; } break;
    case 2: Timing::reset(h); break;
    }
    vf_check(thrown == rejected, "rejected exactly when it has to be");
    vf_check(t.isTiming() == running, "running after start until stop");
    vf_check(int(Timing::getNumSamples(h)) == n, "one sample for each start and stop");
    vf_set_clock(t2);
  }
  if (running) { ++n; recorded += double(t2 - t0) * 1e-6; }
  vf_check(int(Timing::getNumSamples(h)) == n, "a sample is recorded when a running timer is destroyed");
  vf_check_near(Timing::getTotalSeconds(h), recorded, recorded * 1e-9, "the intervals that were run");
  vf_check(Timing::getNumSamples(b) == 0, "nothing for other tags");
}
#ifdef VF_NATIVE
VF_CHECK(C16, long_histories) {
  std::string a("a tag with many samples");
  size_t h = Timing::getHandle(a);
  Timing::reset(a);
  int64_t now = 1000000;
  int n = 1 + vf_choice("samples", 200);
  double sum = 0, sq = 0, lo = 1e300, hi = -1e300, roll = 0;
  for (int i = 0; i < n; ++i) {
    int64_t d = 1000 * (1 + vf_choice("milliseconds", 1000));
    vf_set_clock(now);
    Timer t(h);
    vf_set_clock(now += d);
    t.stop();
    double x = double(d) * 1e-6;
    sum += x; sq += x * x; lo = std::min(lo, x); hi = std::max(hi, x);
    if (i + 50 >= n) roll += x;
  }
  vf_check(int(Timing::getNumSamples(h)) == n, "one sample for each start and stop");
  vf_check(std::fabs(Timing::getTotalSeconds(h) - sum) <= 1e-9 * (1 + sum), "the total");
  vf_check(std::fabs(Timing::getMeanSeconds(a) - sum / n) <= 1e-9 * (1 + sum), "the mean");
  vf_check(std::fabs(Timing::getVarianceSeconds(h) - (sq / n - sum / n * (sum / n))) <= 1e-9 * (1 + sum * sum), "the variance");
  vf_check(std::fabs(Timing::getMinSeconds(a) - lo) <= 1e-9 && std::fabs(Timing::getMaxSeconds(h) - hi) <= 1e-9, "the extrema");
  vf_check(std::fabs(Timing::getHz(a) * roll / std::min(n, 50) - 1) <= 1e-9, "the frequency of the last samples");
}
VF_CHECK(C16, histories) {
  std::vector<double> s[3];
  Timer *t[4] = {0, 0, 0, 0};
  int tag[4];
  int64_t since[4];
  bool run[4] = {false, false, false, false};
  std::string T[3] = {"t0", "t1", std::string("tag") + char('a' + vf_choice("which", 26)) + char('a' + vf_choice("which", 26))};
  for (int i = 0; i < 3; ++i) Timing::reset(T[i]);
  int64_t now = vf_bool("summer time ends") ? 1792889990000000ll : 1000000;
  for (int n = vf_choice("operations", 120); n > 0; --n) {
    now += vf_choice("advance", 5) * vf_choice("unit", 3) * 250000;
    vf_set_clock(now);
    int k = vf_choice("timer", 4), x = vf_choice("tag", 3);
    bool thrown = false, rejected = false;
    auto stop = [&](int k) { if (run[k]) s[tag[k]].push_back(double(now - since[k]) * 1e-6); run[k] = false; };
    switch (vf_choice("operation", 6)) {
    case 0: { bool st = vf_bool("stopped"); if (t[k]) { stop(k); delete t[k]; } tag[k] = x; t[k] = vf_bool("by tag") ? new Timer(T[x], st) : new Timer(Timing::getHandle(T[x]), st); run[k] = !st; since[k] = now; break; }
    case 1: if (t[k]) { rejected = run[k]; try { t[k]->start(); run[k] = true; since[k] = now; } catch (const TimerException &) { thrown = true; } } break;
    case 2: case 3: if (t[k]) { rejected = !run[k]; try { t[k]->stop(); stop(k); } catch (const TimerException &) { thrown = true; } } break;
    case 4: if (t[k]) { stop(k); delete t[k]; t[k] = 0; } break;
    case 5: if (vf_choice("rarely", 4) == 0) { if (vf_bool("by tag")) Timing::reset(T[x]); else Timing::reset(Timing::getHandle(T[x])); s[x].clear(); } break;
    }
    vf_check(thrown == rejected, "rejected exactly when it has to be");
    for (int i = 0; i < 4; ++i) vf_check(!t[i] || t[i]->isTiming() == run[i], "running after start until stop");
  }
  for (int i = 0; i < 4; ++i) { vf_set_clock(now); if (t[i]) { if (run[i]) s[tag[i]].push_back(double(now - since[i]) * 1e-6); delete t[i]; } }
  for (int i = 0; i < 3; ++i) {
    size_t h = Timing::getHandle(T[i]), n = s[i].size();
    vf_check(Timing::getTag(h) == T[i], "the tag of the handle");
    vf_check(Timing::getNumSamples(h) == n && Timing::getNumSamples(T[i]) == n, "one sample for each start and stop");
    double sum = 0, sq = 0, lo = 1e300, hi = -1e300, roll = 0;
    for (size_t j = 0; j < n; ++j) { double v = s[i][j]; sum += v; lo = std::min(lo, v); hi = std::max(hi, v); if (j + 50 >= n) roll += v; }
    vf_check(std::fabs(Timing::getTotalSeconds(T[i]) - sum) <= 1e-9 * (1 + sum), "the total");
    if (!n) continue;
    for (double v : s[i]) sq += (v - sum / n) * (v - sum / n);
    vf_check(std::fabs(Timing::getMeanSeconds(h) - sum / n) <= 1e-9 * (1 + sum), "the mean");
    vf_check(std::fabs(Timing::getVarianceSeconds(T[i]) - sq / n) <= 1e-9 * (1 + sum * sum), "the variance");
    vf_check(std::fabs(Timing::getMinSeconds(T[i]) - lo) <= 1e-9 && std::fabs(Timing::getMaxSeconds(h) - hi) <= 1e-9, "the extrema");
    if (roll > 0) vf_check(std::fabs(Timing::getHz(T[i]) * roll / std::min<size_t>(n, 50) - 1) <= 1e-9, "the frequency of the last samples");
  }
}
#endif
