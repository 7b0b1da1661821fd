// Contract of boost::property_tree::ptree used at call sites: a tree is an arbitrary partial map from paths to texts. Which
// paths it has is decided when first asked and kept. A path lies below another one in an arbitrary way that is decided likewise.
#pragma once
#include <algorithm>
#include <any>
#include <functional>
#include <iostream>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <boost/any.hpp>
#include <boost/filesystem/path.hpp>
#include <boost/optional.hpp>
#include <boost/make_shared.hpp>
#define private public
#define protected public
#include <boost/property_tree/ptree.hpp>
#include <sm/BoostPropertyTreeImplementation.hpp>
#undef private
#undef protected
#include "contract.hpp"
typedef boost::property_tree::ptree Tree;
typedef Tree::path_type Path;
typedef sm::BoostPropertyTreeImplementation Impl;
enum Ty { D, I, B, S };

#ifndef VF_NATIVE
struct Node { std::string path; bool has; Tree *node; std::string before; bool had; };
struct Below { std::string top, sub; bool is; };
struct Ghost {
  const Tree *root = nullptr;
  std::vector<Node> nodes;
  std::vector<Below> order;
  int writes = 0;
};
static Ghost &ghost() { static Ghost *g = nullptr; if (!g) g = new Ghost; return *g; }
static Node &at(const std::string &path) {
  Ghost &g = ghost();
  for (Node &n : g.nodes) if (n.path == path) return n;
  Node n{path, vf_bool("has the path"), new Tree, std::string(), false};
  n.node->m_data = vf_str("stored text");
  n.before = n.node->m_data; n.had = n.has;
  g.nodes.push_back(n);
  return g.nodes.back();
}
static bool below(const std::string &top, const std::string &sub) {
  if (top == sub) return false;
  Ghost &g = ghost();
  for (Below &b : g.order) if (b.top == top && b.sub == sub) return b.is;
  for (Below &b : g.order) if (b.is && b.top == sub && b.sub == top) return false;
  g.order.push_back(Below{top, sub, vf_bool("lies below")});
  return g.order.back().is;
}
// the rest of the path
static std::string rest(const Path &p) { return p.m_value; }
// a path continued by another one
static Path &spec_append(Path *p, const Path &o) {
  vf_requires(p->m_separator == o.m_separator, "paths with the same separator");
  if (!o.m_value.empty()) {
    if (!p->m_value.empty()) p->m_value += p->m_separator;
    p->m_value += o.m_value;
  }
  return *p;
}
static Tree *spec_walk_path(const Tree *t, Path &p) {
  Ghost &g = ghost();
  vf_requires(t == g.root, "a path from the root");
  vf_requires(p.m_separator == '/', "the levels of a path are separated by slashes");
  if (p.m_value.empty()) return const_cast<Tree *>(t);
  Node &n = at(p.m_value);
  return n.has ? n.node : nullptr;
}
static Tree &spec_put_child(Tree *t, const Path &p, const Tree &v) {
  Ghost &g = ghost();
  vf_requires(t == g.root, "a path from the root");
  vf_requires(p.m_separator == '/', "the levels of a path are separated by slashes");
  vf_requires(!p.m_value.empty(), "not the root itself");
  ++g.writes;
  std::string k = p.m_value;
  bool had = at(k).has;
  for (Node &n : g.nodes) {
    if (had && below(k, n.path)) n.has = false;
    if (!n.has && below(n.path, k)) { n.has = true; n.node->m_data = std::string(); }
  }
  Node &n = at(k);
  n.has = true;
  n.node->m_data = v.m_data;
  return *n.node;
}
#else
// names of levels that are not empty
static bool levels(const std::string &p) { return !p.empty() && p[0] != '/' && p.back() != '/' && p.find("//") == p.npos; }
static bool below(const std::string &top, const std::string &sub) { return sub.size() > top.size() && sub.compare(0, top.size() + 1, top + "/") == 0; }
#endif
// an arbitrary tree
struct AnyTree {
  Impl t;
  AnyTree() {
#ifdef VF_NATIVE
    for (int i = vf_choice("nodes", 6); i > 0; --i) {
      std::string p = vf_str("path", "ab/."), x = vf_choice("number", 2) ? vf_str("text", "12.e-x") : std::string("7");
      if (levels(p)) t._ptree.put(Path(p, '/'), x);
    }
#else
    ghost().root = &t._ptree;
#endif
  }
  bool has(const std::string &path) const {
#ifdef VF_NATIVE
    return bool(t._ptree.get_child_optional(Path(path, '/')));
#else
    return path.empty() || at(path).has;
#endif
  }
  std::string text(const std::string &path) const {
#ifdef VF_NATIVE
    return t._ptree.get_child(Path(path, '/')).data();
#else
    return path.empty() ? t._ptree.m_data : at(path).node->m_data;
#endif
  }
};
// Contract of the conversions between values and texts: a text has a value of a type or not; the text of a value has that value.
template <typename T> struct Conv { std::string text; bool ok; T v; };
template <typename T> static T anyvalue();
template <> double anyvalue<double>() { double d = vf_fp64("a double"); return d; }
template <> int anyvalue<int>() { return int(vf_bits("an integer", 32)); }
template <> bool anyvalue<bool>() { return vf_bits("a truth value", 1) != 0; }
inline bool same(double a, double b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
inline bool same(int a, int b) { return a == b; }
inline bool same(bool a, bool b) { return a == b; }
inline bool is_finite(double d) { uint64_t x; std::memcpy(&x, &d, 8); return ((x >> 52) & 2047) != 2047; }
inline bool is_finite(int) { return true; }
inline bool is_finite(bool) { return true; }
#ifndef VF_NATIVE
template <typename T> static std::vector<Conv<T>> &conv() { static std::vector<Conv<T>> *v = nullptr; if (!v) v = new std::vector<Conv<T>>; return *v; }
template <typename T> using Str = boost::property_tree::stream_translator<char, std::char_traits<char>, std::allocator<char>, T>;
template <typename T> static boost::optional<T> spec_value(Str<T> *, const std::string &t) {
  for (Conv<T> &c : conv<T>()) if (c.text == t) return c.ok ? boost::optional<T>(c.v) : boost::optional<T>();
  conv<T>().push_back(Conv<T>{t, vf_bool("the text has such a value"), anyvalue<T>()});
  Conv<T> &c = conv<T>().back();
  return c.ok ? boost::optional<T>(c.v) : boost::optional<T>();
}
template <typename T> static boost::optional<std::string> spec_text(Str<T> *, const T &v) {
  std::string t = vf_str("text of a value");
  bool ok = is_finite(v);
  for (Conv<T> &c : conv<T>()) if (c.text == t) { if (ok) { vf_assume(c.ok); vf_assume(same(c.v, v)); } return t; }
  if (ok) conv<T>().push_back(Conv<T>{t, true, v});
  return t;
}
#define VF_BIND_TREE \
  vf_bind(vf_m(&Tree::walk_path), vf_p(&spec_walk_path)); \
  vf_bind(vf_m(&Path::operator/=), vf_p(&spec_append)); \
  vf_bind(vf_m(&Tree::put_child), vf_p(&spec_put_child)); \
  vf_bind(vf_m(&Str<double>::get_value), vf_p(&spec_value<double>)); \
  vf_bind(vf_m(&Str<int>::get_value), vf_p(&spec_value<int>)); \
  vf_bind(vf_m(&Str<bool>::get_value), vf_p(&spec_value<bool>)); \
  vf_bind(vf_m(&Str<double>::put_value), vf_p(&spec_text<double>)); \
  vf_bind(vf_m(&Str<int>::put_value), vf_p(&spec_text<int>)); \
  vf_bind(vf_m(&Str<bool>::put_value), vf_p(&spec_text<bool>));
#endif
