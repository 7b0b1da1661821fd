// C25: log statements are enabled exactly by level and stream
#include "contract.hpp"
#include <sm/logging.hpp>
#include <sm/logging/LoggingGlobals.hpp>
#include <sm/logging/StdOutLogger.hpp>
using namespace sm::logging;

#ifndef VF_NATIVE
// the logger that receives the lines plays no part in what is enabled (its constructor reads the environment and parses a format)
namespace sm { namespace logging {
Formatter::Formatter() : doColor_(false) {}
Formatter::~Formatter() {}
StdOutLogger::StdOutLogger() {}
StdOutLogger::~StdOutLogger() {}
void StdOutLogger::logImplementation(const LoggingEvent &) {}
} }
#endif

static Level level(const char *n) { return Level(vf_choice(n, 11)); }
struct State {
  LoggingGlobals g;
  LogLocation loc[3];
  int n;
  // any state in which every registered location is up to date
  explicit State(int max) {
    g._namedStreamsEnabled.clear();
    vf_any(g._namedStreamsEnabled, "enabled streams", "sm.a");
    g._level = Level(int(vf_bits("level", 4)));
    vf_assume(g._level <= levels::Fatal);
    n = vf_choice("locations", max + 1);
    for (int i = 0; i < n; ++i) {
      std::string name = vf_bool("named") ? vf_str("stream", "sm.a") : std::string();
      int l = int(vf_bits("location level", 4));
      vf_assume(l <= levels::Fatal);
      loc[i]._initialized = true;
      loc[i]._level = Level(l);
      loc[i]._streamName = name;
      loc[i]._loggerEnabled = wanted(loc[i]);
      g._log_locations.push_back(&loc[i]);
    }
  }
  bool has(const std::string &s) const { return g._namedStreamsEnabled.count(s) != 0; }
  bool wanted(const LogLocation &l) const { return (l._level >= g._level) & (l._streamName.empty() || has(l._streamName)); }
  void uptodate() const { for (int i = 0; i < n; ++i) vf_check(loc[i]._loggerEnabled == wanted(loc[i]), "a location is enabled exactly by its level and stream"); }
};

VF_CHECK(C25, initially) {
  LoggingGlobals g;
  vf_check(g.getLevel() == levels::Info, "information level");
  std::string s = vf_str("stream", "sm.a");
  vf_check(g.isNamedStreamEnabled(s) == (s == "sm"), "only the default stream is enabled");
}
VF_CHECK(C25, a_level_change) {
  State s(2);
  int l = int(vf_bits("new level", 4));
  vf_assume(l <= levels::Fatal);
  s.g.setLevel(Level(l));
  vf_check(s.g.getLevel() == Level(l), "the level");
  s.uptodate();
}
VF_CHECK(C25, a_stream_enabled) {
  State s(2);
  std::string n = vf_str("name", "sm.a"), other = vf_str("other", "sm.a");
  bool was = s.has(other);
  s.g.enableNamedStream(n);
  vf_check(s.g.isNamedStreamEnabled(n), "the stream is enabled");
  vf_check(s.g.isNamedStreamEnabled(other) == (was || other == n), "the others stay as they were");
  s.uptodate();
}
VF_CHECK(C25, a_stream_disabled) {
  State s(2);
  std::string n = vf_str("name", "sm.a"), other = vf_str("other", "sm.a");
  bool was = s.has(other);
  s.g.disableNamedStream(n);
  vf_check(!s.g.isNamedStreamEnabled(n), "the stream is disabled");
  vf_check(s.g.isNamedStreamEnabled(other) == (was && other != n), "the others stay as they were");
  s.uptodate();
}
VF_CHECK(C25, a_new_location) {
  State s(1);
  LogLocation l;
  std::string n = vf_bool("named") ? vf_str("name", "sm.a") : std::string();
  int lv = int(vf_bits("its level", 4));
  vf_assume(lv <= levels::Fatal);
  s.g.initializeLogLocation(&l, n, Level(lv));
  vf_check(l._initialized && l._level == Level(lv) && l._streamName == n, "its level and stream");
  vf_check(l._loggerEnabled == s.wanted(l), "enabled exactly by its level and stream");
  vf_check(s.g._log_locations.size() == size_t(s.n) + 1 && s.g._log_locations.back() == &l, "registered");
  s.uptodate();
  // once only
  int l2 = int(vf_bits("another level", 4));
  s.g.initializeLogLocation(&l, "other", Level(l2));
  vf_check(l._level == Level(lv) && l._streamName == n, "a location keeps its level and stream");
  vf_check(s.g._log_locations.size() == size_t(s.n) + 1, "registered once");
  // and it follows later changes
  int nl = int(vf_bits("new level", 4));
  vf_assume(nl <= levels::Fatal);
  s.g.setLevel(Level(nl));
  vf_check(l._loggerEnabled == s.wanted(l), "it follows a level change");
  s.g.disableNamedStream("x");
  vf_check(l._loggerEnabled == s.wanted(l), "it follows a stream change");
}
VF_CHECK(C25, a_location_changed) {
  State s(1);
  vf_assume(s.n == 1);
  int l = int(vf_bits("new level", 4));
  vf_assume(l <= levels::Fatal);
  s.g.setLogLocationLevel(&s.loc[0], Level(l));
  s.g.checkLogLocationEnabled(&s.loc[0]);
  vf_check(s.loc[0]._level == Level(l), "the level");
  s.uptodate();
}
VF_CHECK(C25, a_registered_location) {
  State s(1);
  LogLocation l;
  int lv = int(vf_bits("its level", 4));
  vf_assume(lv <= levels::Fatal);
  l._level = Level(lv); l._streamName = vf_str("name", "sm.a"); l._initialized = true;
  s.g.registerLogLocation(&l);
  s.g.notifyLoggerLevelsChanged();
  vf_check(l._loggerEnabled == s.wanted(l), "enabled exactly by its level and stream");
  s.uptodate();
}

#ifdef VF_NATIVE
// histories of any number of changes with any number of locations
VF_CHECK(C25, histories) {
  LoggingGlobals g;
  static const char *const N[7] = {"", "sm", "sm.a", "sm.b", "sm.a.b", "x", "sm.a"};
  std::vector<LogLocation> loc(200);
  size_t n = 0;
  std::set<std::string> on;
  on.insert("sm");
  int level = levels::Info;
  for (int k = vf_count("operations", 20, 400); k > 0; --k) {
    std::string s = N[vf_choice("stream", 7)];
    int l = vf_choice("level", 11);
    switch (vf_choice("operation", 5)) {
    case 0: if (n < loc.size()) { g.initializeLogLocation(&loc[n], s, Level(l)); ++n; } break;
    case 1: g.setLevel(Level(l)); level = l; break;
    case 2: g.enableNamedStream(s); on.insert(s); break;
    case 3: g.disableNamedStream(s); on.erase(s); break;
    default: if (n) { size_t i = size_t(vf_choice("location", int(n))); g.setLogLocationLevel(&loc[i], Level(l)); g.checkLogLocationEnabled(&loc[i]); }
    }
    vf_check(int(g.getLevel()) == level, "the level");
    for (size_t i = 0; i < n; ++i) vf_check(loc[i]._loggerEnabled == (loc[i]._level >= level && (loc[i]._streamName.empty() || on.count(loc[i]._streamName))), "enabled exactly by its level and stream");
    for (const char *m : N) vf_check(g.isNamedStreamEnabled(m) == (on.count(m) != 0), "the enabled streams");
  }
}
#endif

// ---- names
static std::string lower(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32); return s; }
static const char *const NAMES[11] = {"all", "finest", "verbose", "finer", "trace", "fine", "debug", "info", "warn", "error", "fatal"};
static void quiet() { g_logging_globals._level = levels::Count; g_logging_globals._log_locations.clear(); }
VF_CHECK(C25, names_of_levels) {
  quiet();
  int k = vf_choice("level", 11);
  std::string s = NAMES[k];
  for (size_t i = 0; i < s.size(); ++i) if (vf_bits("upper case", 1)) s[i] = char(s[i] - 32);
  vf_check(levels::fromString(s) == Level(k), "recognised in any letter case");
}
VF_CHECK(C25, other_names) {
  quiet();
  int n = vf_choice("length", 8);
  std::string s(n, ' ');
  for (int i = 0; i < n; ++i) { s[i] = char(vf_bits("byte", 8)); }
  std::string l = lower(s);
  bool known = false;
  for (int i = 0; i < 11; ++i) known = known | (l == NAMES[i]);
  vf_assume(!known);
  vf_check(levels::fromString(s) == levels::Info, "an unknown name selects the information level");
}
VF_CHECK(C25, longer_names) {
  quiet();
  std::string s = vf_str("name", "infoerrINFO");
  vf_assume(s.size() >= 8);
  vf_check(levels::fromString(s) == levels::Info, "an unknown name selects the information level");
}
// ---- stream names without the default prefix
static std::string prefixed(const std::string &n) { return n == "sm" || (n.size() >= 3 && n.compare(0, 3, "sm.") == 0) ? n : "sm." + n; }
VF_CHECK(C25, stream_names) {
  LoggingGlobals &g = g_logging_globals;
  g._log_locations.clear();
  g._namedStreamsEnabled.clear();
  vf_any(g._namedStreamsEnabled, "enabled streams", "sm.a");
  std::string n = vf_str("name", "sm.a"), other = vf_str("other", "sm.a");
  bool was = g._namedStreamsEnabled.count(prefixed(other)) != 0;
  vf_check(isNamedStreamEnabled(other) == was, "a name means the stream with the prefix");
  int op = vf_choice("operation", 2);
  if (op == 0) { enableNamedStream(n); vf_check(g._namedStreamsEnabled.count(prefixed(n)) == 1, "enabled under the name with the prefix"); }
  else { disableNamedStream(n); vf_check(g._namedStreamsEnabled.count(prefixed(n)) == 0, "disabled under the name with the prefix"); }
  bool same = prefixed(n) == prefixed(other);
  vf_check(isNamedStreamEnabled(other) == (same ? op == 0 : was), "only that stream changes");
  vf_check(isNamedStreamEnabled(n) == isNamedStreamEnabled(prefixed(n)), "the same stream with and without the prefix");
}
VF_CHECK(C25, the_level) {
  LoggingGlobals &g = g_logging_globals;
  int l = int(vf_bits("level", 4));
  vf_assume(l <= levels::Fatal);
  g._log_locations.clear();
  setLevel(Level(l));
  vf_check(getLevel() == Level(l) && g.getLevel() == Level(l), "the global level");
}
