// C19: property trees return what was stored, or the default, or an error
#include "boost_tree_spec.hpp"
#ifndef VF_NATIVE
extern "C" void vf_bindings() { VF_BIND_TREE }
#endif
struct Val { int ty; double d; int i; bool b; std::string s; };
static Val value(int ty, const char *n) {
  Val v{ty, 0, 0, false, std::string()};
  switch (ty) {
  case D: v.d = vf_fp64(n); vf_assume(is_finite(v.d)); break;
  case I: v.i = int(vf_bits(n, 32)); break;
  case B: v.b = vf_bits(n, 1) != 0; break;
  default: v.s = vf_str(n, "12 xé");
  }
  return v;
}
static bool same(const Val &a, const Val &b) {
  switch (a.ty) {
  case D: return same(a.d, b.d);
  case I: return a.i == b.i;
  case B: return a.b == b.b;
  default: return a.s == b.s;
  }
}
enum Result { FOUND, NO_KEY, NO_VALUE };
struct Got { Result r; Val v; };
static Got get(const Impl &t, const std::string &k, int ty) {
  Got g{FOUND, Val{ty, 0, 0, false, std::string()}};
  try {
    switch (ty) {
    case D: g.v.d = t.getDouble(k); break;
    case I: g.v.i = t.getInt(k); break;
    case B: g.v.b = t.getBool(k); break;
    default: g.v.s = t.getString(k);
    }
  } catch (const sm::PropertyTree::InvalidValueException &) { g.r = NO_VALUE; }
  catch (const sm::PropertyTree::InvalidKeyException &) { g.r = NO_KEY; }
  return g;
}
static Val get(const Impl &t, const std::string &k, const Val &d) {
  Val v = d;
  switch (d.ty) {
  case D: v.d = t.getDouble(k, d.d); break;
  case I: v.i = t.getInt(k, d.i); break;
  case B: v.b = t.getBool(k, d.b); break;
  default: v.s = t.getString(k, d.s);
  }
  return v;
}
static Val get_nc(Impl &t, const std::string &k, const Val &d) {
  Val v = d;
  switch (d.ty) {
  case D: v.d = t.getDouble(k, d.d); break;
  case I: v.i = t.getInt(k, d.i); break;
  case B: v.b = t.getBool(k, d.b); break;
  default: v.s = t.getString(k, d.s);
  }
  return v;
}
static void set(Impl &t, const std::string &k, const Val &v) {
  switch (v.ty) {
  case D: t.setDouble(k, v.d); break;
  case I: t.setInt(k, v.i); break;
  case B: t.setBool(k, v.b); break;
  default: t.setString(k, v.s);
  }
}
static std::string path() {
  std::string p = vf_str("path", "ab/.");
  vf_assume(!p.empty());
#ifdef VF_NATIVE
  vf_assume(levels(p));
#endif
  return p;
}

VF_CHECK(C19, read_after_write) {
  AnyTree a; std::string p = path(), k = "/" + p;
  Val v = value(vf_choice("type", 4), "value"), d = value(v.ty, "default");
  set(a.t, k, v);
  vf_check(a.t.doesKeyExist(k), "the key exists");
  Got g = get(a.t, k, v.ty);
  vf_check(g.r == FOUND, "found");
  vf_check(same(g.v, v), "the value written");
  vf_check(same(get(a.t, k, d), v), "not the default of a read through a constant tree");
  vf_check(same(get_nc(a.t, k, d), v), "not the default of a read");
  vf_check(same(get(a.t, k, v.ty).v, v), "which changes nothing");
}
// other keys keep their values; only levels above the new key can come into being
VF_CHECK(C19, writes_elsewhere) {
  AnyTree a; std::string p = path(), o = path(), k = "/" + p;
  vf_assume(!(p == o));
  bool had = a.has(o), above = below(o, p);
  std::string text = had ? a.text(o) : std::string();
  Val v = value(vf_choice("type", 4), "value");
  vf_assume(!(a.has(p) && above && !had));
  switch (vf_choice("write", 2)) {
  case 0: set(a.t, k, v); break;
  default: get_nc(a.t, k, v);
  }
  if (had) { vf_check(a.has(o), "the other key still exists"); vf_check(a.text(o) == text, "with the same value"); }
  else vf_check(!a.has(o) || above, "no key comes into being");
}
VF_CHECK(C19, missing_key) {
  AnyTree a; std::string p = path(), k = "/" + p;
  vf_assume(!a.has(p));
  Val d = value(vf_choice("type", 4), "default");
  vf_check(!a.t.doesKeyExist(k), "the key does not exist");
  vf_check(get(a.t, k, d.ty).r == NO_KEY, "a read without default is rejected");
  vf_check(same(get(a.t, k, d), d), "the default is returned");
  vf_check(!a.has(p) && !a.t.doesKeyExist(k), "reads of a constant tree do not create the key");
  vf_check(same(get_nc(a.t, k, d), d), "the default is returned for a modifiable tree");
  vf_check(a.t.doesKeyExist(k), "which records it");
  Got g = get(a.t, k, d.ty);
  vf_check(g.r == FOUND && same(g.v, d), "under the key");
}
// a present key: the default is of no importance, constant reads and reads of a value change nothing
VF_CHECK(C19, present_key) {
  AnyTree a; std::string p = path(), k = "/" + p;
  vf_assume(a.has(p));
  std::string text = a.text(p);
  Val d = value(vf_choice("type", 4), "default");
  vf_check(a.t.doesKeyExist(k), "the key exists");
  Got g = get(a.t, k, d.ty);
  vf_check(g.r != NO_KEY, "the key is found");
  if (d.ty == S) vf_check(g.r == FOUND && g.v.s == text, "the text as it is");
  Val v = get(a.t, k, d);
  if (g.r == FOUND) vf_check(same(v, g.v), "the same value when a default is given");
  vf_check(a.has(p) && a.text(p) == text, "reads of a constant tree change nothing");
  if (g.r == FOUND) { vf_check(same(get_nc(a.t, k, d), g.v), "the same value from a modifiable tree"); vf_check(a.text(p) == text, "which is kept"); }
}
// a text without value of the type is rejected as such
VF_CHECK(C19, existence) {
  AnyTree a; std::string p = path();
  bool has = a.has(p);
  vf_check(a.t.doesKeyExist("/" + p) == has, "the key exists or not");
  vf_check(p[0] == '/' || a.t.doesKeyExist(p) == has, "also without the slash in front");
  vf_check(a.has(p) == has, "asking changes nothing");
}
#ifdef VF_NATIVE
#include <limits>
#include <sm/BoostPropertyTree.hpp>
// histories of reads and writes against a map from keys to values
VF_CHECK(C19, histories) {
  sm::BoostPropertyTree t;
  std::map<std::string, Val> m;
  static const char *const K[8] = {"a", "b", "c/d", "c/e", "f.g", "h/i/j", "l m", "\xc3\xa9"};
  static const double DV[8] = {0.1, 1e-310, -1.7976931348623157e308, 3.0, 1.0 / 3, 5e-324, 123456789.123456789, -0.0};
  for (int n = 1 + vf_count("operations", 30, 200); n > 0; --n) {
    std::string k = K[vf_choice("key", 8)], key = vf_bool("slash") ? "/" + k : k;
    Val v = value(vf_choice("type", 4), "value");
    if (v.ty == D && vf_bool("special")) v.d = DV[vf_choice("special", 8)];
    auto i = m.find(k);
    sm::ConstPropertyTree c(t);
    vf_check(t.doesKeyExist(key) == (i != m.end()), "existence");
    switch (vf_choice("operation", 4)) {
    case 0:
      switch (v.ty) { case D: t.setDouble(key, v.d); break; case I: t.setInt(key, v.i); break; case B: t.setBool(key, v.b); break; default: t.setString(key, v.s); }
      m[k] = v; break;
    case 1: {
      bool thrown = false;
      Val w{i == m.end() ? v.ty : i->second.ty, 0, 0, false, ""};
      try { switch (w.ty) { case D: w.d = c.getDouble(key); break; case I: w.i = c.getInt(key); break; case B: w.b = c.getBool(key); break; default: w.s = c.getString(key); } }
      catch (const sm::PropertyTree::InvalidKeyException &) { thrown = true; }
      vf_check(thrown == (i == m.end()), "a missing key is rejected");
      if (!thrown) vf_check(same(w, i->second), "the value written last");
      break; }
    default: {
      bool con = vf_bool("constant");
      Val w = v; w.ty = i == m.end() ? v.ty : i->second.ty;
      switch (w.ty) {
      case D: w.d = con ? c.getDouble(key, v.d) : t.getDouble(key, v.d); break;
      case I: w.i = con ? c.getInt(key, v.i) : t.getInt(key, v.i); break;
      case B: w.b = con ? c.getBool(key, v.b) : t.getBool(key, v.b); break;
      default: w.s = con ? c.getString(key, v.s) : t.getString(key, v.s);
      }
      vf_check(same(w, i == m.end() ? v : i->second), "the value or the default");
      if (i == m.end() && !con) m[k] = v;
      vf_check(t.doesKeyExist(key) == (m.count(k) != 0), "recorded or not");
    } }
  }
}
#endif
VF_CHECK(C19, children) {
  AnyTree a; std::string p = path();
  Tree *n;
#ifdef VF_NATIVE
  n = &a.t._ptree.put_child(Path(p, '/'), Tree());
#else
  vf_assume(p[0] != '/'); vf_assume(p[p.size() - 1] != '/');
  vf_assume(a.has(p));
  n = at(p).node;
#endif
  std::string c[2] = {vf_str("name", "ab."), vf_str("name", "ab.")}, t[2] = {vf_str("text", "12"), vf_str("text", "12")};
  int k = vf_choice("children", 3);
  for (int i = 0; i < k; ++i) n->push_back(Tree::value_type(c[i], Tree(t[i])));
  std::vector<sm::KeyPropertyTreePair> l = a.t.getChildren(vf_bool("slash") ? "/" + p : p);
  vf_check(int(l.size()) == k, "as many as were stored");
  for (int i = 0; i < k; ++i) {
    vf_check(l[i].key == c[i], "the names");
    vf_check(static_cast<Impl &>(*static_cast<const sm::ConstPropertyTree &>(l[i].pt)._imp)._ptree.m_data == t[i], "the values");
  }
}
