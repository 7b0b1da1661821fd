// C22: value stores over a property tree
#include "store_spec.hpp"
#include <sm/value_store/PropertyTreeValueStore.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/PropertyTreeImplementation.hpp>
#include <boost/make_shared.hpp>

// contract of the tree implementation (C19): a map from qualified keys to values; which keys it has and what they hold is
// decided when first asked
struct MapTree : sm::PropertyTreeImplementation {
  struct Entry { std::string key; bool has; double d; int i; bool b; std::string s; };
  mutable std::vector<Entry> known;
  mutable int writes = 0;
  std::vector<std::string> names;                // children
  Entry &at(const std::string &k) const {
    for (Entry &x : known) if (x.key == k) return x;
    known.push_back(Entry{k, vf_bool("has"), vf_fp64("tree d"), int(vf_bits("tree i", 32)), vf_bits("tree b", 1) != 0, vf_str("tree s", "xy /")});
    return known.back();
  }
  Entry &held(const std::string &k) const { Entry &e = at(k); if (!e.has) throw std::out_of_range("no such key"); return e; }
  template <typename T> T def(T Entry::*m, const std::string &k, T v) { Entry &e = at(k); if (!e.has) { e.has = true; e.*m = v; } return e.*m; }
  template <typename T> T cdef(T Entry::*m, const std::string &k, T v) const { const Entry &e = at(k); return e.has ? e.*m : v; }
  template <typename T> void put(T Entry::*m, const std::string &k, T v) { Entry &e = at(k); e.has = true; e.*m = v; ++writes; }
  double getDouble(const std::string &k) const override { return held(k).d; }
  double getDouble(const std::string &k, double v) const override { return cdef(&Entry::d, k, v); }
  double getDouble(const std::string &k, double v) override { return def(&Entry::d, k, v); }
  int getInt(const std::string &k) const override { return held(k).i; }
  int getInt(const std::string &k, int v) const override { return cdef(&Entry::i, k, v); }
  int getInt(const std::string &k, int v) override { return def(&Entry::i, k, v); }
  bool getBool(const std::string &k) const override { return held(k).b; }
  bool getBool(const std::string &k, bool v) const override { return cdef(&Entry::b, k, v); }
  bool getBool(const std::string &k, bool v) override { return def(&Entry::b, k, v); }
  std::string getString(const std::string &k) const override { return held(k).s; }
  std::string getString(const std::string &k, const std::string &v) const override { return cdef(&Entry::s, k, v); }
  std::string getString(const std::string &k, const std::string &v) override { return def(&Entry::s, k, v); }
  void setDouble(const std::string &k, double v) override { put(&Entry::d, k, v); }
  void setInt(const std::string &k, int v) override { put(&Entry::i, k, v); }
  void setBool(const std::string &k, bool v) override { put(&Entry::b, k, v); }
  void setString(const std::string &k, const std::string &v) override { put(&Entry::s, k, v); }
  bool doesKeyExist(const std::string &k) const override { return at(k).has; }
  std::vector<sm::KeyPropertyTreePair> getChildren(const std::string &k) const override;
  mutable std::string askedChildren;
};
std::vector<sm::KeyPropertyTreePair> MapTree::getChildren(const std::string &k) const {
  askedChildren = k;
  std::vector<sm::KeyPropertyTreePair> r;
  for (const std::string &n : names) r.push_back(sm::KeyPropertyTreePair{n, sm::PropertyTree(boost::shared_ptr<sm::PropertyTreeImplementation>(const_cast<MapTree *>(this), [](sm::PropertyTreeImplementation *) {}), k + n)});
  return r;
}
static boost::shared_ptr<MapTree> tree() { return boost::shared_ptr<MapTree>(new MapTree); }
static bool front(const std::string &s) { return !s.empty() && s[0] == '/'; }
static bool back(const std::string &s) { return !s.empty() && s.back() == '/'; }
// a key of the store, not ending in a separator, and the entry of the tree it names
static std::string key(const char *n) { std::string k = vf_str(n); vf_assume(!back(k)); vf_assume(!k.empty()); return k; }
static std::string entry(const std::string &k) { return front(k) ? k : "/" + k; }

VF_CHECK(C22, reads) {
  auto t = tree();
  PropertyTreeValueStore v{sm::PropertyTree(t)};
  std::string k = key("key");
  MapTree::Entry e = t->at(entry(k));
  double d = vf_fp64("d"); int i = int(vf_bits("i", 32)); bool b = vf_bits("b", 1) != 0; std::string s = vf_str("s", "xy /");
  bool def = vf_bool("default given"), thrown = false;
  try {
    switch (vf_choice("type", 4)) {
    case D: { auto h = v.getDouble(k, def ? boost::optional<double>(d) : boost::optional<double>()); vf_check(vf_bits_equal(h.get(), e.has ? e.d : d), "value or default"); if (!def) vf_check(h.isUpdateable(), "updatable"); break; }
    case I: { auto h = v.getInt(k, def ? boost::optional<int>(i) : boost::optional<int>()); vf_check(h.get() == (e.has ? e.i : i), "value or default"); if (!def) vf_check(h.isUpdateable(), "updatable"); break; }
    case B: { auto h = v.getBool(k, def ? boost::optional<bool>(b) : boost::optional<bool>()); vf_check(h.get() == (e.has ? e.b : b), "value or default"); if (!def) vf_check(h.isUpdateable(), "updatable"); break; }
    default: { auto h = v.getString(k, def ? boost::optional<std::string>(s) : boost::optional<std::string>()); vf_check(h.get() == (e.has ? e.s : s), "value or default"); if (!def) vf_check(h.isUpdateable(), "updatable"); }
    }
  } catch (const std::out_of_range &) { thrown = true; }
  vf_check(thrown == (!e.has && !def), "rejected exactly when there is neither a value nor a default");
  vf_check(t->writes == 0, "nothing overwritten");
  vf_check(v.hasKey(k) == t->at(entry(k)).has, "a key exists exactly when the tree has it");
  std::string k2 = key("other");
  vf_assume(entry(k2) != entry(k));
  vf_check(v.hasKey(k2) == t->at(entry(k2)).has, "existence of the other keys");
}
// an update through a handle is what the handle, the store and the tree hold afterwards
VF_CHECK(C22, updates) {
  auto t = tree();
  PropertyTreeValueStore v{sm::PropertyTree(t)};
  std::string k = key("key");
  vf_assume(t->at(entry(k)).has);
  double d = vf_fp64("d"), d2 = vf_fp64("d2"); int i = int(vf_bits("i", 32)), i2 = int(vf_bits("i2", 32)); bool b = vf_bits("b", 1) != 0, b2 = vf_bits("b2", 1) != 0; std::string s = vf_str("s", "xy /"), s2 = vf_str("s2", "xy /");
  switch (vf_choice("type", 4)) {
  case D: { auto h = v.getDouble(k), o = v.getDouble(k); h.update(d); vf_check(vf_bits_equal(t->at(entry(k)).d, d), "tree"); vf_check(vf_bits_equal(h.get(), d) && vf_bits_equal(o.get(), d), "handles");
    vf_check(vf_bits_equal(v.getDouble(k).get(), d) && vf_bits_equal(v.getDouble(k, d2).get(), d), "later reads"); o.update(d2); vf_check(vf_bits_equal(h.get(), d2) && vf_bits_equal(v.getDouble(k).get(), d2), "second update"); break; }
  case I: { auto h = v.getInt(k), o = v.getInt(k); h.update(i); vf_check(t->at(entry(k)).i == i, "tree"); vf_check(h.get() == i && o.get() == i, "handles");
    vf_check(v.getInt(k).get() == i && v.getInt(k, i2).get() == i, "later reads"); o.update(i2); vf_check(h.get() == i2 && v.getInt(k).get() == i2, "second update"); break; }
  case B: { auto h = v.getBool(k), o = v.getBool(k); h.update(b); vf_check(t->at(entry(k)).b == b, "tree"); vf_check(h.get() == b && o.get() == b, "handles");
    vf_check(v.getBool(k).get() == b && v.getBool(k, b2).get() == b, "later reads"); o.update(b2); vf_check(h.get() == b2 && v.getBool(k).get() == b2, "second update"); break; }
  default: { auto h = v.getString(k), o = v.getString(k); h.update(s); vf_check(t->at(entry(k)).s == s, "tree"); vf_check(h.get() == s && o.get() == s, "handles");
    vf_check(v.getString(k).get() == s && v.getString(k, s2).get() == s, "later reads"); o.update(s2); vf_check(h.get() == s2 && v.getString(k).get() == s2, "second update"); }
  }
  vf_check(t->writes == 2, "two writes");
}
// an update touches its own key only, and a handle keeps its key when the store is gone
VF_CHECK(C22, handles) {
  auto t = tree();
  std::string k = key("key"), k2 = key("other");
  vf_assume(entry(k) != entry(k2));
  MapTree::Entry e2 = t->at(entry(k2));
  vf_assume(t->at(entry(k)).has);
  int i = int(vf_bits("i", 32));
  PropertyTreeValueStore *v = new PropertyTreeValueStore{sm::PropertyTree(t)};
  auto h = v->getInt(k);
  delete v;
  h.update(i);
  vf_check(h.get() == i && t->at(entry(k)).i == i, "the update");
  vf_check(t->at(entry(k2)).has == e2.has && t->at(entry(k2)).i == e2.i, "the other entry");
}
VF_CHECK(C22, additions) {
  auto t = tree();
  PropertyTreeValueStore v{sm::PropertyTree(t)};
  std::string k = key("key");
  double d = vf_fp64("d"); int i = int(vf_bits("i", 32)); bool b = vf_bits("b", 1) != 0; std::string s = vf_str("s", "xy /");
  switch (vf_choice("type", 4)) {
  case D: { auto h = v.addDouble(k, d); vf_check(vf_bits_equal(h.get(), d), "returned"); vf_check(vf_bits_equal(t->at(entry(k)).d, d), "tree"); vf_check(vf_bits_equal(v.getDouble(k).get(), d), "readable"); break; }
  case I: { auto h = v.addInt(k, i); vf_check(h.get() == i, "returned"); vf_check(t->at(entry(k)).i == i, "tree"); vf_check(v.getInt(k).get() == i, "readable"); break; }
  case B: { auto h = v.addBool(k, b); vf_check(h.get() == b, "returned"); vf_check(t->at(entry(k)).b == b, "tree"); vf_check(v.getBool(k).get() == b, "readable"); break; }
  default: { auto h = v.addString(k, s); vf_check(h.get() == s, "returned"); vf_check(t->at(entry(k)).s == s, "tree"); vf_check(v.getString(k).get() == s, "readable"); }
  }
  vf_check(t->writes == 1, "one write");
  vf_check(v.hasKey(k), "the key exists");
  vf_check(v.isExtendible(), "extendible");
}
VF_CHECK(C22, children_are_views) {
  auto t = tree();
  PropertyTreeValueStore v{sm::PropertyTree(t)};
  std::string c = key("child"), k = vf_str("key", "ab.");
  vf_assume(!front(k)); vf_assume(!k.empty()); vf_assume(!back(k));
  std::string full = entry(c) + "/" + k;
  KeyValueStorePair ch = static_cast<ValueStore &>(v).getChild(c);
  ExtendibleKeyValueStorePair ec = v.getExtendibleChild(c);
  vf_check(ch.getKey() == c && ec.getKey() == c, "its name");
  vf_check(ch.hasKey(k) == t->at(full).has && ec.hasKey(k) == t->at(full).has, "existence");
  int i = int(vf_bits("i", 32));
  bool viaChild = vf_bool("added through the child");
  if (viaChild) ec.addInt(k, i); else v.addInt(c + "/" + k, i);
  vf_check(t->at(full).i == i, "tree");
  vf_check(ch.getInt(k).get() == i && ec.getInt(k).get() == i && v.getInt(c + "/" + k).get() == i, "the same entry everywhere");
  auto h = ch.getInt(k);
  int i2 = int(vf_bits("i2", 32));
  h.update(i2);
  vf_check(ec.getInt(k).get() == i2 && v.getInt(c + "/" + k).get() == i2, "an update through a child");
}
VF_CHECK(C22, list_of_children) {
  auto t = tree();
  int n = vf_choice("children", 3);
  for (int j = 0; j < n; ++j) { t->names.push_back(vf_str("name", "ab.")); vf_assume(!t->names[j].empty()); vf_assume(!front(t->names[j])); vf_assume(!back(t->names[j])); }
  PropertyTreeValueStore v{sm::PropertyTree(t)};
  std::vector<KeyValueStorePair> l = static_cast<ValueStore &>(v).getChildren();
  std::vector<ExtendibleKeyValueStorePair> e = v.getExtendibleChildren();
  vf_check(t->askedChildren == "/", "the children of this level");
  vf_check(int(l.size()) == n && int(e.size()) == n, "as many as the tree has");
  for (int j = 0; j < n; ++j) {
    vf_check(l[j].getKey() == t->names[j] && e[j].getKey() == t->names[j], "names");
    vf_check(l[j].hasKey("x") == t->at("/" + t->names[j] + "/x").has && e[j].hasKey("x") == t->at("/" + t->names[j] + "/x").has, "views of the same tree");
  }
}
// a store viewed as a property tree answers like the store
VF_CHECK(C22, as_property_tree) {
  auto st = std::make_shared<SpecStore>("has");
  std::string k = key("key");
  std::string want = front(k) ? k.substr(1) : k;
  sm::ConstPropertyTree p = ValueStoreRef(std::shared_ptr<ValueStore>(st)).asPropertyTree();
  double d = vf_fp64("d"); int i = int(vf_bits("i", 32)); bool b = vf_bits("b", 1) != 0; std::string s = vf_str("s", "xy /");
  bool has = st->has(want), thrown = false;
  int c = vf_choice("access", 9);
  try {
    switch (c) {
    case 0: vf_check(vf_bits_equal(p.getDouble(k), st->d), "double"); break;
    case 1: vf_check(vf_bits_equal(p.getDouble(k, d), has ? st->d : d), "double or default"); break;
    case 2: vf_check(p.getInt(k) == st->i, "integer"); break;
    case 3: vf_check(p.getInt(k, i) == (has ? st->i : i), "integer or default"); break;
    case 4: vf_check(p.getBool(k) == st->b, "boolean"); break;
    case 5: vf_check(p.getBool(k, b) == (has ? st->b : b), "boolean or default"); break;
    case 6: vf_check(p.getString(k) == st->s, "string"); break;
    case 7: vf_check(p.getString(k, s) == (has ? st->s : s), "string or default"); break;
    default: vf_check(p.doesKeyExist(k) == has, "existence");
    }
  } catch (const std::out_of_range &) { thrown = true; }
  vf_check(thrown == (c < 8 && c % 2 == 0 && !has), "rejected exactly when the store rejects");
  if (c < 8) { vf_check(st->key == want && st->gets == 1, "the key without the separator in front"); vf_check(st->ty == c / 2, "the type"); vf_check(st->def == (c % 2 == 1), "a default when one was given"); }
}
VF_CHECK(C22, as_extendible) {
  std::string k = vf_str("key");
  int i = int(vf_bits("i", 32));
  if (vf_bool("extendible")) {
    auto st = std::make_shared<SpecExtendible>("has");
    ValueStoreRef r{std::shared_ptr<ValueStore>(st)};
    vf_check(r.isExtendible(), "extendible");
    auto h = r.asExtendible().addInt(k, i);
    vf_check(&h.getImplementation() == st->handle && st->adds == 1 && st->key == k && st->ty == I && st->i == i, "an addition to the same store");
  } else {
    ValueStoreRef r{std::shared_ptr<ValueStore>(std::make_shared<SpecStore>("has"))};
    vf_check(!r.isExtendible(), "not extendible");
    bool rejected = false;
    try { r.asExtendible(); } catch (const std::runtime_error &) { rejected = true; }
    vf_check(rejected, "rejected");
  }
}
