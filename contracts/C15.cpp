// C15: the corrected time stamps are a causal lower envelope
#include <algorithm>
#include <iostream>
#include <memory>
#include <cmath>
#include <sstream>
#include <vector>
#include "contract.hpp"
#define private public
#include <sm/timing/TimestampCorrector.hpp>
#undef private
typedef sm::timing::TimestampCorrector<double> Corrector;
typedef Corrector::Point Point;
#define EQ(a, b, name) vf_check_eq(a, b, vf_scale(scale), name)
#define LE(a, b, name) vf_check_le(a, b, 1e-9 * vf_scale(scale), name)
#define GE0(c, name) vf_check_le(0, c, 1e-9 * vf_scale(scale * scale), name)
static double scale = 1;       // magnitude of the numbers, for the native build only
static void magnitude(double x) {
#ifdef VF_NATIVE
  if (std::fabs(x) > scale) scale = std::fabs(x);
#endif
}
static int size(const Corrector &c) { return int(c._convexHull.size()); }

static double positive(const char *n) {
  double d = vf_real(n);
#ifdef VF_NATIVE
  return std::fabs(d) + 1e-3;
#endif
  vf_assume(d > 0);
  return d;
}
// An arbitrary state after the samples seen so far: a lower envelope of them of n points (by distances and rising slopes),
// and one arbitrary sample of them
struct State {
  Corrector c;
  int n;
  double sx, sy;
  State(int n) : n(n) {
    scale = 1;
    double x = vf_real("x"), y = vf_real("y"), k = vf_real("slope"), dx = 0;
    for (int i = 0; i < n; ++i) {
      c._convexHull.push_back(Point(x, y));
      magnitude(x); magnitude(y);
      dx = positive("distance");
      double dk = vf_real("bend");
#ifdef VF_NATIVE
      dk = std::fabs(dk);
#endif
      vf_assume(dk >= 0);
      x += dx;
      y += k * dx;
      k += dk;
    }
    sx = sy = 0;
    if (n > 1) {
      // the sample lies above a segment
      int j = vf_choice("segment of the sample", n - 1);
      double t = vf_real("position"), e = vf_real("above");
      const Point &a = c._convexHull[j], &b = c._convexHull[j + 1];
#ifdef VF_NATIVE
      t = std::fabs(std::sin(t)), e = std::fabs(e);
#endif
      vf_assume(t >= 0 && t <= 1 && e >= 0);
      sx = a.x + t * (b.x - a.x);
      sy = a.y + t * (b.y - a.y) + e;
    } else if (n == 1) { sx = c._convexHull[0].x; sy = c._convexHull[0].y; }
    if (n >= 3) {
      double mid = (c._convexHull[0].x + c._convexHull[n - 1].x) / 2;
#ifdef VF_NATIVE
      int m = n - 2;
      while (m > 0 && !(c._convexHull[m].x < mid)) --m;
#else
      int m = vf_choice("segment of the middle", n - 1);
#endif
      vf_assume(c._convexHull[m].x < mid && mid <= c._convexHull[m + 1].x);
      c._midpointSegmentIndex = m;
    } else c._midpointSegmentIndex = 0;
  }
};
static double cross(const Point &a, const Point &b, double x, double y) { return (b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x); }

static void step(int n) {
  State s(n);
  Point first = n ? s.c._convexHull[0] : Point(0, 0), last = n ? s.c._convexHull[n - 1] : Point(0, 0);
  double x = vf_real("remote"), y = vf_real("local");
#ifdef VF_NATIVE
  if (n) x = last.x + std::fabs(x) + 1e-3;
#endif
  magnitude(x); magnitude(y);
  if (n) vf_assume(x > last.x);
  double r = s.c.correctTimestamp(x, y);
  const std::vector<Point> &h = s.c._convexHull;
  int m = size(s.c);
  vf_check(m >= 1 && m <= n + 1, "points");
  EQ(h[m - 1].x, x, "the last sample is a point of the envelope");
  EQ(h[m - 1].y, y, "the last sample is a point of the envelope");
  if (n) { EQ(h[0].x, first.x, "the first sample is a point of the envelope"); EQ(h[0].y, first.y, "the first sample is a point of the envelope"); }
  for (int i = 0; i + 1 < m; ++i) LE(h[i].x, h[i + 1].x, "points in the order of time");
  for (int i = 0; i + 2 < m; ++i) GE0(cross(h[i], h[i + 1], h[i + 2].x, h[i + 2].y), "the envelope is convex");
  if (n > 1) {
    for (int i = 0; i + 1 < m; ++i)
      if (h[i].x <= s.sx && s.sx <= h[i + 1].x) GE0(cross(h[i], h[i + 1], s.sx, s.sy), "all samples lie above the envelope");
  }
  if (m < 3) vf_check(s.c._midpointSegmentIndex == 0, "the segment used");
  else {
    int k = int(s.c._midpointSegmentIndex);
    vf_check(k >= 0 && k + 1 < m, "the segment used is one of the envelope");
    double mid = (h[0].x + x) / 2;
    LE(h[k].x, mid, "the segment used contains the middle");
    LE(mid, h[k + 1].x, "the segment used contains the middle");
    LE(r, y, "the corrected time is not later than the arrival");
  }
  if (m < 3) EQ(r, y, "too few points: the arrival");
}
VF_CHECK(C15, first_sample) { step(0); }
VF_CHECK(C15, second_sample) { step(1); }
VF_CHECK(C15, third_sample) { step(2); }
VF_CHECK(C15, more_samples) { step(3 + vf_choice("points", 2)); }

// the mapping
VF_CHECK(C15, mapping) {
  State s(2 + vf_choice("points", 3));
  double x = vf_real("remote");
  double t = s.c.getLocalTime(x), k = s.c.getSlope(), o = s.c.getOffset();
  EQ(t, o + k * x, "slope, offset and mapped time describe the same line");
  const Point &a = s.c._convexHull[s.c._midpointSegmentIndex], &b = s.c._convexHull[s.c._midpointSegmentIndex + 1];
  EQ(s.c.getLocalTime(a.x), a.y, "the line through the segment used");
  EQ(s.c.getLocalTime(b.x), b.y, "the line through the segment used");
  LE(s.c.getLocalTime(s.sx), s.sy, "no sample is mapped to a time later than its arrival");
}
VF_CHECK(C15, time_went_backwards) {
  int n = 1 + vf_choice("points", 4);
  State s(n);
  std::vector<Point> before = s.c._convexHull;
  size_t index = s.c._midpointSegmentIndex;
  double x = vf_real("remote"), y = vf_real("local");
  vf_assume(x <= before[n - 1].x);
  bool thrown = false;
  try {
    if (vf_bool("switching")) s.c.correctTimestamp(x, y, vf_real("period"));
    else s.c.correctTimestamp(x, y);
  } catch (const Corrector::TimeWentBackwardsException &) { thrown = true; }
  vf_check(thrown, "rejected");
  vf_check(size(s.c) == n && s.c._midpointSegmentIndex == index && !s.c._pendingCorrector, "unchanged");
  for (int i = 0; i < n; ++i) { EQ(s.c._convexHull[i].x, before[i].x, "unchanged"); EQ(s.c._convexHull[i].y, before[i].y, "unchanged"); }
}
VF_CHECK(C15, too_few_points) {
  int n = vf_choice("points", 2);
  State s(n);
  int k = 0;
  try { s.c.getSlope(); } catch (const Corrector::NotInitializedException &) { ++k; }
  try { s.c.getOffset(); } catch (const Corrector::NotInitializedException &) { ++k; }
  try { s.c.getLocalTime(vf_real("remote")); } catch (const Corrector::NotInitializedException &) { ++k; }
  vf_check(k == 3, "rejected");
}
// two correctors that take turns
static bool same(const Corrector &a, const Corrector &b) {
  bool r = size(a) == size(b) && a._midpointSegmentIndex == b._midpointSegmentIndex;
  for (int i = 0; r && i < size(a); ++i) { EQ(a._convexHull[i].x, b._convexHull[i].x, "the same samples"); EQ(a._convexHull[i].y, b._convexHull[i].y, "the same samples"); }
  return r;
}
VF_CHECK(C15, switching) {
  State s(vf_choice("points", 4));
  bool pending = vf_bool("pending");
  if (pending) vf_assume(s.n >= 2);
  State q(pending ? vf_choice("pending points", 3) : 0);
  if (pending && q.n) vf_assume(q.c._convexHull[q.n - 1].x <= s.c._convexHull[s.n - 1].x);
  if (pending) s.c._pendingCorrector.reset(new Corrector(q.c));
  Corrector a(s.c), b(q.c);
  a._pendingCorrector.reset();
  double x = vf_real("remote"), y = vf_real("local"), period = vf_real("period");
#ifdef VF_NATIVE
  if (s.n) x = s.c._convexHull[s.n - 1].x + std::fabs(x) + 1e-3;
  if (q.n && x <= q.c._convexHull[q.n - 1].x) return;
  period = std::fabs(period);
#endif
  if (s.n) vf_assume(x > s.c._convexHull[s.n - 1].x);
  vf_assume(period >= 0);
  double r = s.c.correctTimestamp(x, y, period), ra = a.correctTimestamp(x, y);
  EQ(r, ra, "the time of the corrector in use");
  double span = size(a) > 2 ? a._convexHull[size(a) - 1].y - a._convexHull[0].y : 0;
  EQ(a.span(), span, "the time spanned");
  bool half = span > period / 2, full = span > period;
  if (pending || half) b.correctTimestamp(x, y);
  if (full) {
    vf_check(same(s.c, b), "the other corrector takes over");
    vf_check(bool(s.c._pendingCorrector) && size(*s.c._pendingCorrector) == 0 && !s.c._pendingCorrector->_pendingCorrector, "and a new one is begun");
  } else {
    vf_check(same(s.c, a), "the corrector stays");
    vf_check(bool(s.c._pendingCorrector) == (pending || half), "a second corrector is begun at half time");
    if (pending || half) vf_check(same(*s.c._pendingCorrector, b), "the second corrector sees the sample");
  }
}
#ifdef VF_NATIVE
#include <type_traits>
// histories against a hull computed from all samples
template <class T> static void history(T t0, T l0, int unit) {
  sm::timing::TimestampCorrector<T> c;
  typedef __int128 I;
  std::vector<std::pair<int64_t, int64_t>> all;            // in units of `unit`, relative to (t0, l0): exact
  int64_t x = 0;
  for (int n = vf_count("samples", 30, 400); n > 0; --n) {
    int k = vf_choice("advance", 12);
    int64_t y = x + vf_choice("delay", 9) * (vf_bool("large") ? 50 : 1) - 4;
    if (k == 11) {                                         // does not advance
      if (all.empty()) continue;
      auto h = c._convexHull; size_t i = c._midpointSegmentIndex;
      bool thrown = false;
      try { c.correctTimestamp(T(t0 + T(all.back().first - vf_choice("back", 3)) * unit), T(l0 + y * unit)); } catch (const typename sm::timing::TimestampCorrector<T>::TimeWentBackwardsException &) { thrown = true; }
      vf_check(thrown && h.size() == c._convexHull.size() && i == c._midpointSegmentIndex, "rejected and unchanged");
      for (size_t j = 0; j < h.size(); ++j) vf_check(h[j].x == c._convexHull[j].x && h[j].y == c._convexHull[j].y, "rejected and unchanged");
      continue;
    }
    x += k < 8 ? 1 : 1 + k * 7;
    all.push_back(std::make_pair(x, y));
    T r = c.correctTimestamp(T(t0 + T(x) * unit), T(l0 + T(y) * unit));
    // the hull
    auto &h = c._convexHull;
    std::vector<std::pair<int64_t, int64_t>> p;
    for (auto &q : h) p.push_back(std::make_pair(int64_t(T(q.x - t0) / unit), int64_t(T(q.y - l0) / unit)));
    for (size_t i = 0; i < p.size(); ++i) vf_check(T(t0 + T(p[i].first) * unit) == h[i].x && T(l0 + T(p[i].second) * unit) == h[i].y && std::find(all.begin(), all.end(), p[i]) != all.end(), "a sample");
    vf_check(p.front() == all.front() && p.back() == all.back(), "the first and the last sample");
    auto cr = [](const std::pair<int64_t, int64_t> &a, const std::pair<int64_t, int64_t> &b, const std::pair<int64_t, int64_t> &q) { return I(b.first - a.first) * (q.second - a.second) - I(b.second - a.second) * (q.first - a.first); };
    for (size_t i = 0; i + 1 < p.size(); ++i) {
      vf_check(p[i].first < p[i + 1].first, "in the order of time");
      if (i + 2 < p.size()) vf_check(cr(p[i], p[i + 1], p[i + 2]) >= 0, "convex");
      for (auto &s : all) if (s.first >= p[i].first && s.first <= p[i + 1].first) vf_check(cr(p[i], p[i + 1], s) >= 0, "all samples lie above");
    }
    double tol = std::is_integral<T>::value ? 2 : 1e-6 * unit;
    vf_check(double(r - T(l0 + T(y) * unit)) <= tol, "not later than the arrival");
    if (p.size() < 3) vf_check(r == T(l0 + T(y) * unit), "too few points");
    if (p.size() < 2) continue;
    size_t m = c._midpointSegmentIndex;
    vf_check(m + 1 < h.size(), "the segment used");
    if (p.size() >= 3) vf_check(2 * p[m].first <= p.front().first + x && p.front().first + x <= 2 * p[m + 1].first + (std::is_integral<T>::value ? 1 : 0), "contains the middle");
    for (auto &s : all) {
      T t = T(t0 + T(s.first) * unit), g = c.getLocalTime(t);
      vf_check(double(g - T(l0 + T(s.second) * unit)) <= tol, "no sample is mapped to a time later than its arrival");
      double line = double(l0) + (double(p[m].second) + double(s.first - p[m].first) * double(p[m + 1].second - p[m].second) / double(p[m + 1].first - p[m].first)) * unit;
      vf_check(std::fabs(double(g) - line) <= tol + 1e-6 * std::fabs(line) * (std::is_integral<T>::value ? 1e-9 : 1e-6), "the line");
      double so = c.getOffset() + c.getSlope() * double(t);
      vf_check(std::fabs(so - double(g)) <= tol + 1e-12 * (std::fabs(c.getOffset()) + std::fabs(c.getSlope() * double(t))), "slope, offset and mapped time describe the same line");
    }
  }
}
VF_CHECK(C15, history_of_seconds) { history<double>(vf_choice("start", 3) * 1024., vf_choice("local start", 3) * 512., 1); }
VF_CHECK(C15, history_of_nanoseconds) {
  static const int64_t S[3] = {0, 1700000000123456789ll, -5000000001ll};
  static const int U[4] = {1, 1000, 20000000, 1000000000};
  history<int64_t>(S[vf_choice("start", 3)], S[vf_choice("local start", 3)], U[vf_choice("unit", 4)]);
}
#endif
