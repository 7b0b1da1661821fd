// C29: string utilities
#include "contract.hpp"
#include <cmath>
#include <limits>
#include <list>
#include <vector>
#include <sm/string_routines.hpp>

// ---- replacement of single characters
static std::string text(int n) {
  std::string s(n, ' ');
  for (int i = 0; i < n; ++i) s[i] = char(vf_bits("character", 8));
  return s;
}
static void replaced(bool backwards, const std::string &s, char target, char replacement, unsigned skip) {
  std::string r = backwards ? sm::replace_reverse(s, target, replacement, skip) : sm::replace(s, target, replacement, skip);
  vf_check(r.size() == s.size(), "the length is kept");
  if (r.size() != s.size()) return;
  unsigned seen = 0;
  bool ok = true;
  for (size_t k = 0; k < s.size(); ++k) {
    size_t i = backwards ? s.size() - 1 - k : k;
    bool hit = s[i] == target;
    char want = hit ? (seen >= skip ? replacement : target) : s[i];
    ok = bool(int(ok) & int(r[i] == want));
    seen += unsigned(hit);
  }
  vf_check(ok, "every occurrence after the skipped ones is replaced, all else is kept");
}
VF_CHECK(C29, replace) {
  char t = char(vf_bits("target", 8)), c = char(vf_bits("replacement", 8));
  replaced(false, text(vf_choice("length", 6)), t, c, unsigned(vf_choice("skip", 7)));
}
VF_CHECK(C29, replace_reverse) {
  char t = char(vf_bits("target", 8)), c = char(vf_bits("replacement", 8));
  replaced(true, text(vf_choice("length", 6)), t, c, unsigned(vf_choice("skip", 7)));
}
VF_CHECK(C29, replace_by_itself) {
  char t = char(vf_bits("target", 8));
  std::string s = text(vf_choice("length", 6));
  vf_check(sm::replace(s, t, t) == s, "forward: nothing changes");
  vf_check(sm::replace_reverse(s, t, t) == s, "backward: nothing changes");
}

// ---- padding
VF_CHECK(C29, leading_pad) {
  std::string s = vf_str("text", "ab");
  unsigned n = unsigned(vf_bits("width", 32));
  char c = char(vf_bits("fill", 8));
#ifdef VF_NATIVE
  n %= 20;
#endif
  std::string r = sm::leading_pad(s, n, c);
  vf_check(r == (s.size() < n ? std::string(n - s.size(), c) + s : s), "the text after the fill characters");
  vf_check(r.size() == (s.size() < n ? size_t(n) : s.size()), "the width asked for, unless the text is longer");
}
template <typename T> static void padded(const T &v, const std::string &tx) {
  unsigned n = unsigned(vf_bits("width", 31));
  char c = char(vf_bits("fill", 8));
#ifdef VF_NATIVE
  n %= 20;
#endif
  std::string r = sm::padded(v, n, c);
  vf_check(r == (tx.size() < n ? std::string(n - tx.size(), c) + tx : tx), "the text after the fill characters");
}
VF_CHECK(C29, padded_int) { int v = int(vf_bits("value", 32)); padded(v, std::to_string(v)); }
VF_CHECK(C29, padded_unsigned) { unsigned v = unsigned(vf_bits("value", 32)); padded(v, std::to_string(v)); }
VF_CHECK(C29, padded_long) { long v = long(vf_bits("value", 64)); padded(v, std::to_string(v)); }
VF_CHECK(C29, padded_unsigned_long) { unsigned long v = vf_bits("value", 64); padded(v, std::to_string(v)); }
VF_CHECK(C29, padded_text) { std::string s = vf_str("text", "ab"); padded(s, s); }
VF_CHECK(C29, padded_zero_by_default) {
  int v = int(vf_bits("value", 32));
  std::string tx = std::to_string(v);
  vf_check(sm::padded(v, 6u) == (tx.size() < 6 ? std::string(6 - tx.size(), '0') + tx : tx), "padded with zeros");
}

// ---- trailing separator
VF_CHECK(C29, trailing_separator) {
  std::string s = vf_str("text", "/ab");
  std::string r = sm::ensureTrailingBackslash(s);
  bool has = !s.empty() && s[s.size() - 1] == '/';
  vf_check(r == (has ? s : s + "/"), "completed by one separator when there is none");
  vf_check(sm::ensureTrailingBackslash(r) == r, "idempotent");
}

// ---- values as texts
VF_CHECK(C29, to_text) {
  int i = int(vf_bits("int", 32)); long l = long(vf_bits("long", 64));
  std::string s = vf_str("text", "ab");
  vf_check(sm::ts(i) == std::to_string(i), "an int");
  vf_check(sm::ts(l) == std::to_string(l), "a long");
  vf_check(sm::ts(s) == s, "a text");
  vf_check(sm::s_tuple(s) == s, "a tuple of one");
}
VF_CHECK(C29, tuples) {
  std::string a[7];
  for (int i = 0; i < 7; ++i) a[i] = vf_str("element", "ab,");
  int n = int(vf_bits("number", 32));
  std::string t = std::to_string(n);
  std::string w = "[" + a[0] + ",";
  vf_check(sm::s_tuple(a[0], n) == w + t + "]", "2");
  w += a[1] + ",";
  vf_check(sm::s_tuple(a[0], a[1], n) == w + t + "]", "3");
  w += a[2] + ",";
  vf_check(sm::s_tuple(a[0], a[1], a[2], n) == w + t + "]", "4");
  w += a[3] + ",";
  vf_check(sm::s_tuple(a[0], a[1], a[2], a[3], n) == w + t + "]", "5");
  w += a[4] + ",";
  vf_check(sm::s_tuple(a[0], a[1], a[2], a[3], a[4], n) == w + t + "]", "6");
  w += a[5] + ",";
  vf_check(sm::s_tuple(a[0], a[1], a[2], a[3], a[4], a[5], n) == w + t + "]", "7");
}
VF_CHECK(C29, lists) {
  std::string a[3];
  int n = vf_choice("length", 4);
  std::string w, d = vf_str("delimiter", "ab,"), pre = vf_str("prefix", "[("), post = vf_str("postfix", ")]"), comma;
  for (int i = 0; i < n; ++i) {
    a[i] = vf_str("element", "ab,");
    w += (i ? d : std::string()) + a[i];
    comma += (i ? "," : "") + a[i];
  }
  vf_check(sm::arrToString(a, unsigned(n)) == "[" + comma + "]", "an array");
  vf_check(sm::arrToString(a, a + n) == "[" + comma + "]", "a range");
  std::ostringstream s;
  sm::toStream(s, a, a + n, d, pre, post);
  vf_check(s.str() == pre + w + post, "a range with its delimiter, prefix and postfix");
}

// ---- the environment
static std::string substituted(const std::string &s) {
  std::string out;
  size_t i = 0;
  while (i < s.size()) {
    if (s[i] == '$' && i + 1 < s.size() && s[i + 1] == '(') {
      size_t e = i + 2;
      while (e < s.size() && s[e] != ')') ++e;
      if (e == s.size()) { while (i < s.size()) out += s[i++]; break; }
      const char *v = getenv(s.substr(i + 2, e - i - 2).c_str());
      if (v) out += v;
      else out += s.substr(i, e + 1 - i);
      i = e + 1;
    } else
      out += s[i++];
  }
  return out;
}
static void environment() {
#ifdef VF_NATIVE
  static const char *const NAME[4] = {"a", "ab", "$(a", "A B"};
  for (int i = 0; i < 4; ++i) {
    int k = vf_choice("defined", 3);
    if (k == 0) unsetenv(NAME[i]);
    else setenv(NAME[i], k == 1 ? "" : vf_str("value", "xy$()a").c_str(), 1);
  }
#else
  vf_arbitrary_environment("the environment");
#endif
}
VF_CHECK(C29, environment_short) {
  environment();
  std::string s = text(vf_choice("length", 6));
  for (size_t i = 0; i < s.size(); ++i) vf_assume(s[i] != 0);
  vf_check(sm::substituteEnvVars(s) == substituted(s), "exactly the defined variables are replaced");
}
// two variables between texts of every length
VF_CHECK(C29, environment_of_a_text) {
  environment();
  std::string a = vf_str("before", "ab("), n = vf_str("name", "ab("), b = vf_str("between", "ab()"), m = vf_str("second name", "ab("), c = vf_str("after", "ab()");
#ifdef VF_NATIVE
  for (std::string *x : {&a, &n, &b, &m, &c}) for (char &d : *x) if (!d) d = 'x';
#endif
  vf_assume(a.find('$') == std::string::npos);
  vf_assume(b.find('$') == std::string::npos);
  vf_assume(c.find('$') == std::string::npos);
  vf_assume(n.find(')') == std::string::npos);
  vf_assume(m.find(')') == std::string::npos);
  const char *v = getenv(n.c_str()), *w = getenv(m.c_str());
  std::string vn = v ? std::string(v) : "$(" + n + ")", vm = w ? std::string(w) : "$(" + m + ")";
  vf_check(sm::substituteEnvVars(a + "$(" + n + ")" + b + "$(" + m + ")" + c) == a + vn + b + vm + c, "each variable is replaced by its value if it is defined");
}
VF_CHECK(C29, environment_unclosed) {
  environment();
  std::string a = vf_str("before", "ab("), n = vf_str("name", "ab("), b = vf_str("between", "ab()"), m = vf_str("unclosed", "ab($");
#ifdef VF_NATIVE
  for (std::string *x : {&a, &n, &b, &m}) for (char &d : *x) if (!d) d = 'x';
#endif
  vf_assume(a.find('$') == std::string::npos);
  vf_assume(b.find('$') == std::string::npos);
  vf_assume(n.find(')') == std::string::npos);
  vf_assume(m.find(')') == std::string::npos);
  const char *v = getenv(n.c_str());
  vf_check(sm::substituteEnvVars(a + "$(" + n + ")" + b + "$(" + m) == a + (v ? std::string(v) : "$(" + n + ")") + b + "$(" + m, "what is not closed is kept");
}
VF_CHECK(C29, no_variable) {
  environment();
  std::string a = vf_str("text", "ab(");
  vf_assume(a.find("$(") == std::string::npos);
  vf_check(sm::substituteEnvVars(a) == a, "a text without variables is kept");
}
#ifdef VF_NATIVE
VF_CHECK(C29, environment_long) {
  environment();
  std::string s;
  static const char *const PIECE[9] = {"$", "(", ")", "$(", "a", "$(a)", "$(ab)", "b", "$(A B)"};
  for (int n = vf_count("pieces", 9, 200); n > 0; --n) s += PIECE[vf_choice("piece", 9)];
  vf_check(sm::substituteEnvVars(s) == substituted(s), "exactly the defined variables are replaced");
}
VF_CHECK(C29, long_replacements) {
  std::string s;
  for (int n = vf_count("length", 40, 1500); n > 0; --n) s += "ab/c"[vf_choice("character", 4)];
  char t = "ab/c"[vf_choice("target", 4)], c = "ab/x"[vf_choice("replacement", 4)];
  unsigned skip = unsigned(vf_count("skip", 12, 300));
  replaced(false, s, t, c, skip);
  replaced(true, s, t, c, skip);
}
// ---- texts of numbers and back
template <typename T> static T back(const std::string &s) { std::istringstream i(s); T v; i >> v; vf_check(!i.fail(), "the text is a number"); std::string rest; i >> rest; vf_check(rest.empty(), "and nothing else"); return v; }
VF_CHECK(C29, numbers_and_back) {
  int i = int(vf_bits("int", 32)); unsigned u = unsigned(vf_bits("unsigned", 32)); long l = long(vf_bits("long", 64)); uint64_t ul = vf_bits("unsigned long", 64);
  vf_check(back<int>(sm::ts(i)) == i, "int"); vf_check(back<unsigned>(sm::ts(u)) == u, "unsigned"); vf_check(back<long>(sm::ts(l)) == l, "long"); vf_check(back<uint64_t>(sm::ts(ul)) == ul, "unsigned long");
  unsigned w = unsigned(vf_choice("width", 30));
  vf_check(back<int>(sm::padded(i, w, ' ')) == i, "padded int"); vf_check(back<unsigned>(sm::padded(u, w)) == u, "padded unsigned");
}
VF_CHECK(C29, reals_and_back) {
  double d = vf_real("value");
  unsigned w = unsigned(vf_choice("width", 30)), p = unsigned(vf_choice("precision", 12));
  double half = 0.5000001 * std::pow(10.0, -double(p));
  std::string s = sm::padded(d, w, p);
  vf_check(s.size() >= w, "the width asked for");
  vf_check(std::fabs(back<double>(s) - d) <= half + 1e-15 * std::fabs(d), "padded: the value up to the precision");
  vf_check(std::fabs(back<double>(sm::fixedFloat(d, p)) - d) <= half + 1e-15 * std::fabs(d), "fixed: the value up to the precision");
  std::string e = sm::scientific(d, w, p);
  vf_check(e.size() >= w && e.size() >= p + 7, "scientific: the width asked for");
  vf_check(std::fabs(back<double>(e) - d) <= half * 10 * std::fabs(d), "scientific: the value up to the relative precision");
  vf_check(back<double>(sm::scientific(d, w, 16)) == d, "seventeen digits: exactly the value");
  vf_check(sm::fixedFloat(d, p).size() <= s.size() && s.substr(s.size() - sm::fixedFloat(d, p).size()) == sm::fixedFloat(d, p), "the same digits");
  std::vector<double> v; for (int n = vf_count("elements", 4, 80); n > 0; --n) v.push_back(vf_real("element"));
  std::string want = "<";
  for (size_t k = 0; k < v.size(); ++k) want += (k ? ";" : "") + sm::padded(v[k], w, p);
  vf_check(sm::paddedToString(int(w), int(p), v.begin(), v.end(), ";", "<", ">") == want + ">", "a padded range");
  std::list<int> l; std::string wl = "[";
  for (int n = vf_count("numbers", 5, 80); n > 0; --n) { l.push_back(int(vf_bits("number", 32))); wl += (l.size() > 1 ? "," : "") + std::to_string(l.back()); }
  vf_check(sm::arrToString(l.begin(), l.end()) == wl + "]", "a range");
}
#endif
