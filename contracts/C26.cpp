// C26: log formatting
#include "contract.hpp"
#include <sm/logging.hpp>
#include <sm/logging/Formatter.hpp>
#include <sm/logging/LoggingEvent.hpp>
#include <sstream>
using namespace sm::logging;

static const char *const ATTR[8] = {"severity", "message", "time", "thread", "file", "line", "function", "streamname"};
enum { SEVERITY, MESSAGE, TIME, THREAD, FILE_, LINE, FUNCTION, STREAM };

// a text that can be passed on as a C string
static std::string no_zero(const char *n, const char *al) { std::string s = vf_str(n, al); vf_assume(s.find('\0') == s.npos); return s; }
struct Ev {
  std::string stream, file, function, message, time;
  int line, level;
  explicit Ev(int lv = -1) : stream(no_zero("stream", "ab$")), file(no_zero("file", "ab/")), function(no_zero("function", "ab(")), message(no_zero("message", "ab${}")), time(vf_str("time", "01.")), line(int(vf_bits("line", 32))), level(lv < 0 ? vf_choice("level", 11) : lv) {
    // C strings end at the first zero byte
#ifdef VF_NATIVE
    for (std::string *s : {&stream, &file, &function, &message}) for (char &c : *s) if (!c) c = 'x';
#endif
  }
  LoggingEvent event() const { return LoggingEvent(stream.c_str(), Level(level), file.c_str(), line, function.c_str(), message.c_str(), time); }
};
static std::string attribute(int k, const Ev &e, const LoggingEvent &v) {
  switch (k) {
  case SEVERITY: return SeverityToken().getString(v);
  case MESSAGE: return e.message;
  case TIME: return e.time;
  case FILE_: return e.file;
  case LINE: return std::to_string(e.line);
#ifdef VF_NATIVE
  case THREAD: { std::stringstream ss; ss << boost::this_thread::get_id(); return ss.str(); }
#endif
  case FUNCTION: return e.function;
  default: return e.stream;
  }
}
// the token made for a placeholder gives the attribute of the event
VF_CHECK(C26, placeholders) {
  Formatter f;
  Ev e; LoggingEvent v = e.event();
  int k = vf_choice("placeholder", 8);
#ifndef VF_NATIVE
  if (k == THREAD) return;                                  // the text of a thread is the environment's (native evaluation only)
#endif
  TokenPtr t = f.createTokenFromType(ATTR[k]);
  vf_check(t->getString(v) == attribute(k, e, v), "the attribute of the event");
}
VF_CHECK(C26, other_placeholders) {
  Formatter f;
  std::string name = no_zero("name", "abtime");
  bool known = false;
  for (int k = 0; k < 8; ++k) if (name == ATTR[k]) known = true;
  vf_assume(!known);
#ifdef VF_NATIVE
  for (char &c : name) if (!c) c = 'x';
#endif
  vf_any(f.extra_fixed_tokens_, "user-defined", "abtime");
  Ev e; LoggingEvent v = e.event();
  TokenPtr t = f.createTokenFromType(name);
  auto it = f.extra_fixed_tokens_.find(name);
  std::string want = it == f.extra_fixed_tokens_.end() ? "${" + name + "}" : std::string(it->second.c_str());
  vf_check(t->getString(v) == want.c_str(), "the configured text, or the placeholder itself");
  // configured later
  std::string text = no_zero("configured", "xy");
  f.extra_fixed_tokens_[name] = text;
  vf_check(t->getString(v) == text.c_str(), "the text configured last");
}
VF_CHECK(C26, severities_differ) {
  Ev e(0); LoggingEvent a = e.event(), b = e.event();
  int x = vf_choice("level a", 11), y = vf_choice("level b", 11);
  a.level = Level(x); b.level = Level(y);
  vf_check((SeverityToken().getString(a) == SeverityToken().getString(b)) == (x == y), "one text per level");
}
VF_CHECK(C26, severity_names) {
  static const char *const NAME[11] = {"  ALL", "FINES", "VERBO", "FINER", "TRACE", " FINE", "DEBUG", " INFO", " WARN", "ERROR", "FATAL"};
  Ev e; LoggingEvent v = e.event();
  vf_check(SeverityToken().getString(v) == NAME[e.level], "the name of the level");
}
VF_CHECK(C26, fixed_text) {
  std::string s = no_zero("text", "ab$");
  Ev e; LoggingEvent v = e.event();
  vf_check(FixedToken(s).getString(v) == s.c_str(), "the text");
}
// the line is the texts of the tokens in order
struct SpecToken : Token { std::string s; explicit SpecToken(const std::string &s) : s(s) {} std::string getString(const LoggingEvent &) override { return s; } };
VF_CHECK(C26, the_line) {
  Formatter f;
  f.tokens_.clear();
  int n = vf_choice("tokens", 4);
  std::string want;
  for (int i = 0; i < n; ++i) { std::string s = no_zero("token", "ab"); want += s; f.tokens_.push_back(TokenPtr(new SpecToken(s))); }
  Ev e; LoggingEvent v = e.event();
  f.doColor_ = false;
  std::stringstream ss;
  f.print(v, ss);
  vf_check(ss.str() == want + "\n", "the tokens in order");
}
// text with colours: the same line between a colour and the normal colour
VF_CHECK(C26, the_line_in_colour) {
  Formatter f;
  f.tokens_.clear();
  std::string s = no_zero("token", "ab");
  f.tokens_.push_back(TokenPtr(new SpecToken(s)));
  Ev e; LoggingEvent v = e.event();
  f.doColor_ = true;
  std::stringstream ss;
  f.print(v, ss);
  static const char *const COLOR[6] = {"\033[0m", "\033[31m", "\033[91m", "\033[92m", "\033[32m", "\033[33m"};
  bool found = false;
  std::string line = ss.str();
  for (int i = 0; i < 6; ++i) if (line == COLOR[i] + s + "\033[0m\n") found = true;
  vf_check(found, "the line in colour");
}
VF_CHECK(C26, default_format) {
  Formatter f;
  f.doColor_ = false;
  Ev e; LoggingEvent v = e.event();
  std::stringstream ss;
  f.print(v, ss);
  vf_check(ss.str() == "[" + SeverityToken().getString(v) + "] [" + e.time + "]: " + e.message + "\n", "severity, time and message");
}

// ---- formats
static bool letter(char c) { return bool(int((c >= 'a') & (c <= 'z')) | int((c >= 'A') & (c <= 'Z'))); }
// the format with its placeholders replaced: the definition
static std::string expand(const std::string &fmt, Formatter &f, const Ev &e, const LoggingEvent &v) {
  std::string out;
  size_t i = 0, n = fmt.size();
  while (i < n) {
    if (fmt[i] == '$' && i + 1 < n && fmt[i + 1] == '{') {
      size_t j = i + 2;
      while (j < n && letter(fmt[j])) ++j;
      if (j > i + 2 && j < n && fmt[j] == '}') {
        std::string name = fmt.substr(i + 2, j - i - 2);
        int k = 0;
        while (k < 8 && name != ATTR[k]) ++k;
        auto it = f.extra_fixed_tokens_.find(name);
        if (k < 8) out += attribute(k, e, v);
        else out += it == f.extra_fixed_tokens_.end() ? "${" + name + "}" : std::string(it->second.c_str());
        i = j + 1;
        continue;
      }
    }
    out += fmt[i++];
  }
  return out;
}
static void formatted(const std::string &fmt) {
  Formatter f;
  f.doColor_ = false;
  vf_any(f.extra_fixed_tokens_, "user-defined", "abt");
  Ev e(levels::Warn); LoggingEvent v = e.event();
  f.init(fmt.c_str());
  std::stringstream ss;
  f.print(v, ss);
  vf_check(ss.str() == expand(fmt, f, e, v) + "\n", "every placeholder replaced and the rest kept");
}
// every format of up to n characters
static std::string text(int n) {
  std::string s(n, ' ');
  for (int i = 0; i < n; ++i) { s[i] = char(vf_bits("character", 8)); vf_assume(s[i] != 0); }
  return s;
}
VF_CHECK(C26, short_formats) { formatted(text(vf_choice("length", 7))); }
// placeholders between texts
VF_CHECK(C26, placeholders_between_texts) {
  int a = vf_choice("first", 9), b = vf_choice("second", 9);
  vf_assume(a != THREAD && b != THREAD);
  std::string x = text(1), y = text(vf_choice("length between", 2)), z = text(1);
  vf_assume(x[0] != '$'); vf_assume(y.empty() || y[0] != '$');
  formatted(x + "${" + (a < 8 ? ATTR[a] : "ab") + "}" + y + "${" + (b < 8 ? ATTR[b] : "x") + "}" + z);
}
#ifdef VF_NATIVE
VF_CHECK(C26, formats) {
  std::string fmt;
  static const char *const PIECE[12] = {"$", "{", "}", "${", "a", "b", "|", "${ab}", "${}", " ", "$${", "A"};
  for (int n = vf_count("pieces", 9, 200); n > 0; --n) {
    int k = vf_choice("piece", 20);
    if (k < 12) fmt += PIECE[k];
    else fmt += std::string("${") + ATTR[k - 12] + "}";
  }
  formatted(fmt);
}
VF_CHECK(C26, reused_formatter) {
  Formatter f;
  f.doColor_ = false;
  Ev e; LoggingEvent v = e.event();
  static const char *const FMT[4] = {"${message}", "x${line}", "", "a"};
  for (int i = 0; i < 3; ++i) {
    std::string fmt = FMT[vf_choice("format", 4)];
    f.init(fmt.c_str());
    std::stringstream ss;
    f.print(v, ss);
    vf_check(ss.str() == expand(fmt, f, e, v) + "\n", "the format set last");
  }
}
#endif
