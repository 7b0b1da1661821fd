// C24: a verbose value store is transparent
#include "store_spec.hpp"
#include <sm/value_store/VerboseValueStore.hpp>

struct Log {
  std::vector<std::string> lines;
  std::function<void(const std::string &)> sink() { return [this](const std::string &t) { lines.push_back(t); }; }
};
static const char *const GET[4] = {"getDouble", "getInt", "getBool", "getString"};
static const char *const ADD[4] = {"addDouble", "addInt", "addBool", "addString"};
// the text of a value in a log line
static std::string text(int ty, double d, int i, bool b, const std::string &s) {
  switch (ty) { case D: return std::to_string(d); case I: return std::to_string(i); case B: return std::to_string(b); default: return "\"" + s + "\""; }
}

template <typename V, typename St> static void reading(St &st, const V &v, Log &log, const std::string &where) {
  std::string key = vf_str("key");
  Outcome o = access(v, key);
  bool has = st.has(key);
  vf_check(st.gets == 1 && st.key == key && st.ty == o.ty && st.def == o.def, "one read of the wrapped store with the same key, type and default");
  vf_check(o.thrown == (!has && !o.def) && !o.rejected, "rejected exactly when the wrapped store rejects");
  vf_check(st.children == 0, "no other request");
  if (o.thrown) { vf_check(log.lines.empty(), "nothing logged for a rejected request"); return; }
  vf_check(o.handle == st.handle, "the handle of the wrapped store");
  switch (o.ty) {
  case D: vf_check(vf_bits_equal(o.d, has ? st.d : st.dd), "the value"); break;
  case I: vf_check(o.i == (has ? st.i : st.di), "the value"); break;
  case B: vf_check(o.b == (has ? st.b : st.db), "the value"); break;
  default: vf_check(o.s == (has ? st.s : st.ds), "the value");
  }
  vf_check(log.lines.size() == 1, "one line");
  vf_check(log.lines[0] == where + GET[o.ty] + "(\"" + key + "\")->" + (has ? "" : "DEFAULT:") + text(o.ty, o.d, o.i, o.b, o.s), "names the key and the value, marked when it is the default");
}
VF_CHECK(C24, reads) {
  auto st = std::make_shared<SpecStore>("has");
  Log log;
  VerboseValueStore v(st, log.sink());
  reading(*st, v, log, "");
}
VF_CHECK(C24, reads_of_an_extendible_store) {
  auto st = std::make_shared<SpecExtendible>("has");
  Log log;
  VerboseExtendibleValueStore v(st, log.sink());
  reading(*st, v, log, "");
}
// the default reaches the wrapped store unchanged
VF_CHECK(C24, default_unchanged) {
  auto st = std::make_shared<SpecStore>("has");
  Log log;
  std::string k = vf_str("key");
  VerboseValueStore v(st, log.sink());
  double d = vf_fp64("d"); int i = int(vf_bits("i", 32)); bool b = vf_bits("b", 1) != 0; std::string s = vf_str("s", "xy /");
  switch (vf_choice("type", 4)) {
  case D: v.getDouble(k, d); vf_check(st->def && vf_bits_equal(st->dd, d), "the default"); break;
  case I: v.getInt(k, i); vf_check(st->def && st->di == i, "the default"); break;
  case B: v.getBool(k, b); vf_check(st->def && st->db == b, "the default"); break;
  default: v.getString(k, s); vf_check(st->def && st->ds == s, "the default");
  }
}
VF_CHECK(C24, key_existence) {
  auto st = std::make_shared<SpecStore>("has");
  Log log;
  std::string k = vf_str("key");
  VerboseValueStore v(st, log.sink());
  bool h = v.hasKey(k);
  vf_check(h == st->has(k), "the answer of the wrapped store");
  vf_check(st->gets == 0 && st->children == 0, "no other request");
  vf_check(log.lines.size() == 1, "one line");
  vf_check(log.lines[0] == "hasKey(\"" + k + "\")->" + (h ? "1" : "0"), "names the key and the answer");
}
VF_CHECK(C24, additions) {
  auto st = std::make_shared<SpecExtendible>("has");
  Log log;
  std::string k = vf_str("key");
  VerboseExtendibleValueStore v(st, log.sink());
  double d = vf_fp64("d"); int i = int(vf_bits("i", 32)); bool b = vf_bits("b", 1) != 0; std::string s = vf_str("s", "xy /");
  int ty = vf_choice("type", 4);
  switch (ty) {
  case D: { auto h = v.addDouble(k, d); vf_check(&h.getImplementation() == st->handle, "the handle of the wrapped store"); vf_check(vf_bits_equal(st->d, d), "the value reaches the store"); break; }
  case I: { auto h = v.addInt(k, i); vf_check(&h.getImplementation() == st->handle, "the handle of the wrapped store"); vf_check(st->i == i, "the value reaches the store"); break; }
  case B: { auto h = v.addBool(k, b); vf_check(&h.getImplementation() == st->handle, "the handle of the wrapped store"); vf_check(st->b == b, "the value reaches the store"); break; }
  default: { auto h = v.addString(k, s); vf_check(&h.getImplementation() == st->handle, "the handle of the wrapped store"); vf_check(st->s == s, "the value reaches the store"); }
  }
  vf_check(st->adds == 1 && st->key == k && st->ty == ty && st->gets == 0, "one addition to the wrapped store under the same key");
  vf_check(log.lines.size() == 1, "one line");
  vf_check(log.lines[0] == std::string(ADD[ty]) + "(\"" + k + "\")->INITIAL:" + text(ty, d, i, b, s), "names the key and the value");
}
// a child of a verbose store is the child of the wrapped store, verbose again
VF_CHECK(C24, children) {
  auto st = std::make_shared<SpecStore>("has");
  Log log;
  std::string c = vf_str("child");
  VerboseValueStore v(st, log.sink());
  vf_check(v.isChildSupported() == st->isChildSupported(), "children are available when the wrapped store has them");
  KeyValueStorePair ch = v.getChild(c);
  vf_check(st->children == 1 && st->key == c, "the child of the wrapped store");
  vf_check(ch.getKey() == c, "its name");
  vf_check(log.lines.size() == 1 && log.lines[0] == "getChild(" + c + ")", "one line");
  log.lines.clear();
  st->children = 0;
  reading(*st, ch, log, "child(" + c + "):");
}
VF_CHECK(C24, extendible_children) {
  auto st = std::make_shared<SpecExtendible>("has");
  Log log;
  std::string c = vf_str("child"), k = vf_str("key");
  VerboseExtendibleValueStore v(st, log.sink());
  ExtendibleKeyValueStorePair ch = v.getExtendibleChild(c);
  vf_check(st->children == 1 && st->key == c && ch.getKey() == c, "the child of the wrapped store");
  vf_check(log.lines.size() == 1 && log.lines[0] == "getExtendibleChild(" + c + ")", "one line");
  log.lines.clear();
  st->children = 0;
  reading(*st, ch, log, "EC(" + c + "):");
  log.lines.clear();
  int i = int(vf_bits("i", 32));
  ch.addInt(k, i);
  vf_check(st->adds == 1 && st->key == k && st->ty == I && st->i == i, "an addition to a child reaches the wrapped store");
  vf_check(log.lines.size() == 1 && log.lines[0] == "EC(" + c + "):addInt(\"" + k + "\")->INITIAL:" + std::to_string(i), "one line");
}
