// C20: namespaced views of a property tree, for every namespace and key (texts of arbitrary length)
#include "ptree_spec.hpp"
using sm::PropertyTree; using sm::ConstPropertyTree;

// ---- specification
static bool starts(const std::string &s) { return !s.empty() && s[0] == '/'; }
static bool ends(const std::string &s) { return !s.empty() && s.back() == '/'; }
// namespace of a view: one separator in front and behind
static std::string space(const std::string &ns) {
  std::string r = ns;
  if (!ends(r)) r = r + "/";
  if (!starts(r)) r = "/" + r;
  return r;
}
// the entry addressed, without the separator at its end
static std::string entry(const std::string &qualified) {
  if (qualified.size() > 1 && ends(qualified)) return qualified.substr(0, qualified.size() - 1);
  return qualified;
}
static std::string address(const std::string &space, const std::string &key) { return entry(starts(key) ? key : space + key); }

static boost::shared_ptr<SpecTree> tree() {
  boost::shared_ptr<SpecTree> t(new SpecTree);
  t->rd = vf_fp64("answer d"); t->ri = int(vf_bits("answer i", 32)); t->rb = vf_bits("answer b", 1) != 0; t->rs = vf_str("answer s", "xy /");
  return t;
}
static bool bits(double a, double b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }

// every access of a constant view
static void readsConst(const ConstPropertyTree &v, SpecTree &t, const std::string &key, const std::string &want) {
  double d = vf_fp64("d"); int i = int(vf_bits("i", 32)); bool b = vf_bits("b", 1) != 0; std::string s = vf_str("s", "xy /");
  switch (vf_choice("access", 9)) {
  case 0: vf_check(bits(v.getDouble(key), t.rd), "double read"); vf_check(t.c.op == GET && t.c.ty == D, "a read of a double without default"); break;
  case 1: vf_check(bits(v.getDouble(key, d), t.rd), "double read"); vf_check(t.c.op == GETDEF_CONST && t.c.ty == D && bits(t.c.d, d), "a read of a double with this default that cannot write"); break;
  case 2: vf_check(v.getInt(key) == t.ri, "integer read"); vf_check(t.c.op == GET && t.c.ty == I, "a read of an integer without default"); break;
  case 3: vf_check(v.getInt(key, i) == t.ri, "integer read"); vf_check(t.c.op == GETDEF_CONST && t.c.ty == I && t.c.i == i, "a read of an integer with this default that cannot write"); break;
  case 4: vf_check(v.getBool(key) == t.rb, "boolean read"); vf_check(t.c.op == GET && t.c.ty == B, "a read of a boolean without default"); break;
  case 5: vf_check(v.getBool(key, b) == t.rb, "boolean read"); vf_check(t.c.op == GETDEF_CONST && t.c.ty == B && t.c.b == b, "a read of a boolean with this default that cannot write"); break;
  case 6: vf_check(v.getString(key) == t.rs, "string read"); vf_check(t.c.op == GET && t.c.ty == S, "a read of a string without default"); break;
  case 7: vf_check(v.getString(key, s) == t.rs, "string read"); vf_check(t.c.op == GETDEF_CONST && t.c.ty == S && t.c.s == s, "a read of a string with this default that cannot write"); break;
  default: vf_check(v.doesKeyExist(key) == t.rb, "existence"); vf_check(t.c.op == EXISTS, "a test for existence");
  }
  vf_check(t.c.n == 1, "one access of the store"); vf_check(t.c.key == want, "the fully qualified key");
}
// the accesses of a modifiable view
static void accesses(PropertyTree &v, SpecTree &t, const std::string &key, const std::string &want) {
  double d = vf_fp64("d"); int i = int(vf_bits("i", 32)); bool b = vf_bits("b", 1) != 0; std::string s = vf_str("s", "xy /");
  switch (vf_choice("access", 13)) {
  case 0: vf_check(bits(v.getDouble(key, d), t.rd), "double read"); vf_check(t.c.op == GETDEF && t.c.ty == D && bits(t.c.d, d), "a read of a double that records this default"); break;
  case 1: vf_check(v.getInt(key, i) == t.ri, "integer read"); vf_check(t.c.op == GETDEF && t.c.ty == I && t.c.i == i, "a read of an integer that records this default"); break;
  case 2: vf_check(v.getBool(key, b) == t.rb, "boolean read"); vf_check(t.c.op == GETDEF && t.c.ty == B && t.c.b == b, "a read of a boolean that records this default"); break;
  case 3: vf_check(v.getString(key, s) == t.rs, "string read"); vf_check(t.c.op == GETDEF && t.c.ty == S && t.c.s == s, "a read of a string that records this default"); break;
  case 4: v.setDouble(key, d); vf_check(t.c.op == SET && t.c.ty == D && bits(t.c.d, d), "this double written"); break;
  case 5: v.setInt(key, i); vf_check(t.c.op == SET && t.c.ty == I && t.c.i == i, "this integer written"); break;
  case 6: v.setBool(key, b); vf_check(t.c.op == SET && t.c.ty == B && t.c.b == b, "this boolean written"); break;
  case 7: v.setString(key, s); vf_check(t.c.op == SET && t.c.ty == S && t.c.s == s, "this string written"); break;
  case 8: vf_check(bits(v.getDouble(key), t.rd), "double read"); vf_check(t.c.op == GET && t.c.ty == D, "a read of a double without default"); break;
  case 9: vf_check(v.getInt(key) == t.ri, "integer read"); vf_check(t.c.op == GET && t.c.ty == I, "a read of an integer without default"); break;
  case 10: vf_check(v.getBool(key) == t.rb, "boolean read"); vf_check(t.c.op == GET && t.c.ty == B, "a read of a boolean without default"); break;
  case 11: vf_check(v.getString(key) == t.rs, "string read"); vf_check(t.c.op == GET && t.c.ty == S, "a read of a string without default"); break;
  default: vf_check(v.doesKeyExist(key) == t.rb, "existence"); vf_check(t.c.op == EXISTS, "a test for existence");
  }
  vf_check(t.c.n == 1, "one access of the store"); vf_check(t.c.key == want, "the fully qualified key");
}

VF_CHECK(C20, constant_view) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string ns = vf_str("ns"), key = vf_str("key");
  ConstPropertyTree v(t, ns);
  readsConst(v, *t, key, address(space(ns), key));
}
VF_CHECK(C20, modifiable_view) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string ns = vf_str("ns"), key = vf_str("key");
  PropertyTree v(t, ns);
  accesses(v, *t, key, address(space(ns), key));
}
VF_CHECK(C20, view_as_constant) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string ns = vf_str("ns"), key = vf_str("key");
  const PropertyTree v(t, ns);
  readsConst(v, *t, key, address(space(ns), key));
}
// the access through the view is the access of the qualified key through the root
VF_CHECK(C20, same_as_through_the_root) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string ns = vf_str("ns"), key = vf_str("key");
  PropertyTree root(t), v(root, ns);
  vf_assume(!starts(key));
  v.setInt(key, 1);
  std::string k = t->c.key;
  root.setInt(space(ns) + key, 1);
  vf_check(t->c.key == k, "the same entry");
  if (!ends(k)) {
    root.setInt(k, 1);
    vf_check(t->c.key == k, "the qualified key addresses the same entry");
  }
}
VF_CHECK(C20, absolute_keys) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string ns = vf_str("ns"), key = "/" + vf_str("key");
  PropertyTree v(t, ns);
  v.setInt(key, 1);
  vf_check(t->c.key == entry(key), "absolute keys are taken from the root");
}
// views of views
template <typename T>
static void nested(int child) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string a = vf_str("outer"), b = vf_str("inner"), key = vf_str("key");
  T outer(t, a);
  std::string want = address(starts(b) ? space(b) : space(space(a) + b), key);
  std::string got;
  if (child) { auto inner = outer.getChild(b); inner.getInt(key); }
  else { T inner(outer, b); inner.getInt(key); }
  vf_check(t->c.key == want, "namespaces of nested views concatenate");
  vf_check(t->c.n == 1, "one access of the store");
}
VF_CHECK(C20, nested_views) { nested<PropertyTree>(0); }
VF_CHECK(C20, nested_constant_views) { nested<ConstPropertyTree>(0); }
VF_CHECK(C20, children) { nested<PropertyTree>(1); }
VF_CHECK(C20, constant_children) { nested<ConstPropertyTree>(1); }
VF_CHECK(C20, three_levels) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string a = vf_str("a"), b = vf_str("b"), c = vf_str("c"), key = vf_str("key");
  vf_assume(!starts(b)); vf_assume(!starts(c)); vf_assume(!starts(key)); vf_assume(starts(a)); vf_assume(ends(a)); vf_assume(!b.empty()); vf_assume(!ends(b)); vf_assume(!ends(key));
  PropertyTree v(PropertyTree(PropertyTree(t, a), b), c), w(PropertyTree(t, a), space(b).substr(1) + c);
  v.setInt(key, 1); std::string k = t->c.key;
  w.setInt(key, 1);
  vf_check(t->c.key == k, "nesting is associative");
}
// separators at the ends of the namespace do not matter
VF_CHECK(C20, separators_of_the_namespace) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string ns = vf_str("ns"), key = vf_str("key");
  vf_assume(!starts(ns)); vf_assume(!ends(ns)); vf_assume(!ns.empty());
  PropertyTree v(t, ns), w(t, "/" + ns), x(t, ns + "/"), y(t, "/" + ns + "/");
  v.setInt(key, 1); std::string k = t->c.key;
  w.setInt(key, 1); vf_check(t->c.key == k, "a leading separator");
  x.setInt(key, 1); vf_check(t->c.key == k, "a trailing separator");
  y.setInt(key, 1); vf_check(t->c.key == k, "separators at both ends");
}
// views of one store
VF_CHECK(C20, views_share_the_store) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string ns = vf_str("ns"), key = vf_str("key");
  PropertyTree v(t, ns), w(v), x(v, ""), y = v.getChild("");
  const ConstPropertyTree c(v);
  v.setInt(key, 5); vf_check(t->c.n == 1, "the store"); std::string k = t->c.key;
  w.getInt(key); vf_check(t->c.n == 2 && t->c.key == k, "a copy");
  x.getInt(key); vf_check(t->c.n == 3 && t->c.key == k, "an empty child namespace");
  y.getInt(key); vf_check(t->c.n == 4 && t->c.key == k, "an empty child namespace");
  c.getInt(key); vf_check(t->c.n == 5 && t->c.key == k, "a constant copy");
}
VF_CHECK(C20, children_of_the_namespace) {
  boost::shared_ptr<SpecTree> t = tree();
  std::string ns = vf_str("ns");
  PropertyTree v(t, ns);
  vf_check(v.getChildren().empty(), "the children the store lists");
  vf_check(t->c.op == CHILDREN && t->c.key == space(ns), "the children of the namespace");
  const ConstPropertyTree c(t, ns);
  vf_check(c.getChildren().empty(), "the children the store lists");
  vf_check(t->c.op == CHILDREN && t->c.key == space(ns) && t->c.n == 2, "the children of the namespace");
}
// without a store every access is rejected
template <typename F>
static bool rejected(F f) { try { f(); } catch (const ConstPropertyTree::Exception &) { return true; } return false; }
VF_CHECK(C20, no_store) {
  std::string ns = vf_str("ns"), key = vf_str("key");
  PropertyTree v(boost::shared_ptr<SpecTree>(), ns);
  const PropertyTree &c = v;
  bool r = false;
  switch (vf_choice("access", 17)) {
  case 0: r = rejected([&] { v.getDouble(key); }); break;
  case 1: r = rejected([&] { v.getDouble(key, 1.0); }); break;
  case 2: r = rejected([&] { c.getDouble(key, 1.0); }); break;
  case 3: r = rejected([&] { v.getInt(key); }); break;
  case 4: r = rejected([&] { v.getInt(key, 1); }); break;
  case 5: r = rejected([&] { c.getInt(key, 1); }); break;
  case 6: r = rejected([&] { v.getBool(key); }); break;
  case 7: r = rejected([&] { v.getBool(key, true); }); break;
  case 8: r = rejected([&] { c.getBool(key, true); }); break;
  case 9: r = rejected([&] { v.getString(key); }); break;
  case 10: r = rejected([&] { v.getString(key, ns); }); break;
  case 11: r = rejected([&] { c.getString(key, ns); }); break;
  case 12: r = rejected([&] { v.doesKeyExist(key); }); break;
  case 13: r = rejected([&] { v.setDouble(key, 1); }); break;
  case 14: r = rejected([&] { v.setInt(key, 1); }); break;
  case 15: r = rejected([&] { v.setBool(key, true); }); break;
  default: r = rejected([&] { v.setString(key, ns); });
  }
  vf_check(r, "an access without a store is rejected");
}
