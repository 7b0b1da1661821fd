// C23: prefixed, layered and alternative lookups
#include "store_spec.hpp"
#include <sm/value_store/PrefixedValueStore.hpp>
#include <sm/value_store/LayeredValueStore.hpp>
using Mode = PrefixedValueStore::PrefixMode;

// the access o went to st once, for this key, with the same type and default, and its answer came back
static void forwarded(const Outcome &o, const SpecStore &st, const std::string &key) {
  vf_check(st.gets == 1, "one read of the store");
  vf_check(st.key == key, "the key");
  vf_check(st.ty == o.ty, "the type");
  bool has = st.has(key);
  vf_check(o.thrown == (!has && !o.def), "rejected exactly when there is neither a value nor a default");
  vf_check(!o.rejected, "not rejected otherwise");
  if (!o.thrown) {
    vf_check(o.handle == st.handle, "the handle of the store");
    if (o.ty == D) vf_check(vf_bits_equal(o.d, has ? st.d : st.dd), "the value or the default");
    if (o.ty == I) vf_check(o.i == (has ? st.i : st.di), "the value or the default");
    if (o.ty == B) vf_check(o.b == (has ? st.b : st.db), "the value or the default");
    if (o.ty == S) vf_check(o.s == (has ? st.s : st.ds), "the value or the default");
  }
}
static bool sameDefault(const Outcome &o, const SpecStore &st, double d, int i, bool b, const std::string &s) {
  if (st.def != o.def) return false;
  if (!o.def) return true;
  switch (o.ty) { case D: return vf_bits_equal(st.dd, d); case I: return st.di == i; case B: return st.db == b; default: return st.ds == s; }
}
// a prefix names a level of the hierarchy
static std::string level(const std::string &p) { return p + "/"; }
static bool hasPrefix(const std::string &k, const std::string &p) { return k.size() >= p.size() && k.compare(0, p.size(), p) == 0; }

VF_CHECK(C23, prefix_added) {
  auto st = std::make_shared<SpecStore>("has");
  std::string prefix = vf_str("prefix"), key = vf_str("key");
  PrefixedValueStore v(st, Mode::ADD, prefix);
  Outcome o = access(v, key);
  forwarded(o, *st, level(prefix) + key);
  vf_check(v.hasKey(key) == st->has(level(prefix) + key), "a key exists exactly when the prefixed key exists");
}
VF_CHECK(C23, prefix_removed) {
  auto st = std::make_shared<SpecStore>("has");
  std::string prefix = vf_str("prefix"), key = vf_str("key");
  PrefixedValueStore v(st, Mode::REMOVE, prefix);
  Outcome o = access(v, level(prefix) + key);
  forwarded(o, *st, key);
  vf_check(v.hasKey(level(prefix) + key) == st->has(key), "a key exists exactly when the key without the prefix exists");
}
VF_CHECK(C23, keys_without_the_prefix) {
  auto st = std::make_shared<SpecStore>("has");
  std::string prefix = vf_str("prefix"), key = vf_str("key");
  vf_assume(!hasPrefix(key, level(prefix)));
  PrefixedValueStore v(st, Mode::REMOVE, prefix);
  Outcome o = access(v, key);
  vf_check(o.rejected, "a key without the prefix is rejected");
  vf_check(st->gets == 0, "without asking the store");
  if (key != prefix) vf_check(!v.hasKey(key), "a key without the prefix does not exist");
}
// the default reaches the store unchanged
VF_CHECK(C23, default_unchanged) {
  auto st = std::make_shared<SpecStore>("has");
  std::string prefix = vf_str("prefix"), key = vf_str("key");
  bool add = vf_bool("add");
  PrefixedValueStore v(st, add ? Mode::ADD : Mode::REMOVE, prefix);
  std::string k = add ? key : level(prefix) + key;
  double d = vf_fp64("d"); int i = int(vf_bits("i", 32)); bool b = vf_bits("b", 1) != 0; std::string s = vf_str("s", "xy /");
  switch (vf_choice("type", 4)) {
  case D: v.getDouble(k, d); vf_check(st->def && vf_bits_equal(st->dd, d), "the default"); break;
  case I: v.getInt(k, i); vf_check(st->def && st->di == i, "the default"); break;
  case B: v.getBool(k, b); vf_check(st->def && st->db == b, "the default"); break;
  default: v.getString(k, s); vf_check(st->def && st->ds == s, "the default");
  }
}

VF_CHECK(C23, child_of_a_prefix) {
  auto st = std::make_shared<SpecStore>("has");
  std::string prefix = vf_str("prefix"), child = vf_str("child"), key = vf_str("key");
  PrefixedValueStore v(st, Mode::ADD, prefix);
  vf_check(v.isChildSupported(), "children are available");
  KeyValueStorePair c = v.getChild(child);
  vf_check(c.getKey() == child, "the name of the child");
  c.getInt(key, 1);
  vf_check(st->gets == 1 && st->key == level(prefix) + level(child) + key, "the prefix of the child is added to the prefix");
}

// ---- layers
static void layered(int n) {
  std::shared_ptr<SpecStore> st[5];
  LayeredValueStore v;
  for (int i = 0; i < n; ++i) { st[i] = std::make_shared<SpecStore>("has"); v.add(st[i]); }
  std::string key = vf_str("key");
  Outcome o = access(v, key);
  int first = n - 1;
  bool any = false;
  for (int i = 0; i < n; ++i) if (st[i]->has(key)) { first = i; any = true; break; }
  for (int i = 0; i < n; ++i) if (i != first) vf_check(st[i]->gets == 0, "no other layer answers");
  forwarded(o, *st[first], key);
  vf_check(v.hasKey(key) == any, "a key exists exactly when it exists in some layer");
}
VF_CHECK(C23, one_layer) { layered(1); }
VF_CHECK(C23, two_layers) { layered(2); }
VF_CHECK(C23, three_layers) { layered(3); }
VF_CHECK(C23, no_layers) {
  LayeredValueStore v;
  vf_check(!v.hasKey(vf_str("key")), "no key exists without layers");
}
VF_CHECK(C23, layers_added) {
  auto a = std::make_shared<SpecStore>("has a"), b = std::make_shared<SpecStore>("has b");
  LayeredValueStore v(a, std::shared_ptr<SpecStore>(), b);
  std::string key = vf_str("key");
  vf_check(v.hasKey(key) == (a->has(key) || b->has(key)), "a key exists exactly when it exists in some layer");
  v.getInt(key, 7);
  vf_check((a->gets == 1) == a->has(key) && (b->gets == 1) == !a->has(key), "the first layer that has the key");
}
VF_CHECK(C23, children_of_layers) {
  auto a = std::make_shared<SpecStore>("has a"), b = std::make_shared<SpecStore>("has b");
  LayeredValueStore v;
  v.add(a); v.add(b);
  a->childSupported = vf_bool("child a"); b->childSupported = vf_bool("child b");
  vf_check(v.isChildSupported() == (a->childSupported && b->childSupported), "children are available when all layers have them");
  std::string child = vf_str("child"), key = vf_str("key");
  KeyValueStorePair c = v.getChild(child);
  vf_check(c.getKey() == child, "the name of the child");
  vf_check(a->children == 1 && b->children == 1 && a->key == child && b->key == child, "the child of each layer");
  vf_check(c.hasKey(key) == (a->has(key) || b->has(key)), "the layers of the child are the children of the layers");
  c.getInt(key, 7);
  vf_check((a->gets == 1) == a->has(key) && (b->gets == 1) == !a->has(key), "in the same order");
}

// ---- alternatives
struct Alerts { int n = 0; std::string path, message; };
static bool deprecated(const std::string &p) { return !p.empty() && p[0] == '!'; }
template <typename T> static void alternatives(int n) {
  SpecStore st("has");
  ValueStoreRef r(static_cast<ValueStore &>(st));
  std::vector<std::string> list(n);
  for (int i = 0; i < n; ++i) list[i] = vf_str("path", "!abab");
  // specification: the first alternative that exists, deprecated paths take the next entry as their message
  int used = -1; bool alert = false; std::string path = list[0], message;
  for (int i = 0; i < n && used < 0; ++i) {
    bool dep = deprecated(list[i]);
    std::string p = dep ? list[i].substr(1) : list[i];
    if (st.has(p)) {
      used = i; path = p; alert = dep;
      if (dep) message = i + 1 < n ? list[i + 1] : "Property name '" + p + "' is deprecated! Use " + list[0] + " instead.";
    }
    if (dep) ++i;
  }
  Alerts al;
  int value = -1;
  try {
    value = r.get<int>(list, 7, [&](std::string p, std::string m) { ++al.n; al.path = p; al.message = m; });
  } catch (const std::out_of_range &) { vf_check(false, "the default is used"); }
  vf_check(st.gets == 1, "one read of the store"); vf_check(st.key == path, "the first existing alternative, or the first path");
  vf_check(st.def && st.di == 7, "the default");
  vf_check(value == (st.has(path) ? st.i : 7), "the value or the default");
  vf_check(al.n == int(alert), "a deprecated path is reported exactly when it is used");
  if (alert) { vf_check(al.path == path, "the deprecated path"); vf_check(al.message == message, "its message"); }
}
VF_CHECK(C23, one_path) { alternatives<int>(1); }
VF_CHECK(C23, two_paths) { alternatives<int>(2); }
VF_CHECK(C23, three_paths) { alternatives<int>(3); }
#ifdef VF_NATIVE
VF_CHECK(C23, more_paths) { alternatives<int>(4 + vf_count("n", 3, 40)); }
VF_CHECK(C23, more_layers) { layered(4); }
#endif
VF_CHECK(C23, without_a_handler) {
  SpecStore st("has");
  ValueStoreRef r(static_cast<ValueStore &>(st));
  std::vector<std::string> list;
  list.push_back(vf_str("path")); list.push_back("!" + vf_str("old")); list.push_back(vf_str("message"));
  vf_assume(!deprecated(list[0]));
  bool first = st.has(list[0]), second = st.has(list[1].substr(1));
  int v = r.get<int>(list, 7);
  vf_check(st.key == (!first && second ? list[1].substr(1) : list[0]), "the first existing alternative");
  vf_check(v == (first || second ? st.i : 7), "the value or the default");
}
// ---- references to stores
VF_CHECK(C23, child_of_a_reference) {
  SpecStore st("has");
  st.childSupported = vf_bool("child supported");
  ValueStoreRef r(static_cast<ValueStore &>(st));
  std::string child = vf_str("child"), key = vf_str("key");
  ValueStoreRef c = r.getChild(child);
  c.getInt(key, 7);
  vf_check(st.gets == 1 && st.children == int(st.childSupported), "the child of the store, or a prefix");
  vf_check(st.key == (st.childSupported ? key : level(child) + key), "the key");
}
