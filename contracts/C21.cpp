// C21: merging trees overrides predictably
#include "boost_tree_spec.hpp"
#include <sm/BoostPropertyTree.hpp>
#ifndef VF_NATIVE
extern "C" void vf_bindings() { VF_BIND_TREE }
#endif
struct SNode { std::string path, text; bool blank; };
static std::string part(const char *n) {
  std::string s = vf_str(n, "ab.c");
  vf_assume(!s.empty());
#ifdef VF_NATIVE
  vf_assume(s.find('/') == s.npos);
#endif
  return s;
}
// a source of any of the shapes with up to three nodes, and the root
struct Source {
  Impl t;
  std::vector<SNode> nodes;
  std::string text(bool &blank, bool fixed) {
    if (fixed) { blank = false; return "x"; }
    std::string s = vf_str("text", "1 x\n");
    blank = s.find_first_not_of(" \n\t\r") == s.npos;
    return s;
  }
  void add(Tree &at, const std::string &prefix, const std::string &name, bool fixed = false) {
    SNode n; n.path = prefix.empty() ? name : prefix + "/" + name;
    n.text = text(n.blank, fixed);
    at.push_back(Tree::value_type(name, Tree(n.text)));
    nodes.push_back(n);
  }
  explicit Source(int shape) {
    bool blank, fixed = shape > 3;
    if (fixed) shape = 2;
    SNode r; r.text = shape < 2 ? text(r.blank, false) : std::string(); if (shape > 1) r.blank = true; nodes.push_back(r);
    t._ptree.data() = r.text;
    if (shape == 0) return;
    std::string a = part("name");
    add(t._ptree, "", a, fixed);
    if (shape == 1) return;
    std::string b = part("name");
    if (shape == 2) { vf_assume(!(a == b)); add(t._ptree, "", b, fixed); }
    else add(t._ptree.begin()->second, a, b);
  }
};
// an arbitrary destination in which the paths of the source lie as they do there
struct Merge {
  AnyTree d; Source s;
  std::string o; bool had, source; std::string before;
  std::vector<char> has;
  bool other;
  explicit Merge(int shape, bool other = true) : s(shape), had(false), other(other) {
#ifdef VF_NATIVE
    for (const SNode &n : s.nodes) if (!n.path.empty() && vf_bool("there")) d.t._ptree.put(Path(n.path, '/'), vf_str("text", "12 "));
#endif
    for (size_t i = 1; i < s.nodes.size(); ++i) {
      has.push_back(d.has(s.nodes[i].path));
      for (size_t j = 1; j < i; ++j) {
        const std::string &x = s.nodes[j].path, &y = s.nodes[i].path;
        bool deep = y.size() > x.size() && y.compare(0, x.size() + 1, x + "/") == 0;
        vf_assume(below(x, y) == deep);
        if (deep && has[i - 1]) vf_assume(has[j - 1]);
      }
    }
    if (!other) return;
    o = vf_str("other path", "ab./");
    vf_assume(!o.empty());
#ifdef VF_NATIVE
    vf_assume(o.back() != '/'); vf_assume(o[0] != '/'); vf_assume(o.find("//") == o.npos);
#endif
    for (const SNode &n : s.nodes) vf_assume(!(n.path == o));
    had = d.has(o);
    if (had) before = d.text(o);
  }
  void merged(bool ignore) {
    for (const SNode &n : s.nodes) if (!(ignore && n.blank)) {
      vf_check(d.has(n.path), "every key of the source is in the destination");
      if (d.has(n.path)) vf_check(d.text(n.path) == n.text, "with the value of the source");
    }
  }
  bool above() const { for (const SNode &n : s.nodes) if (!n.path.empty() && below(o, n.path)) return true; return false; }
  void others(bool create) {
    if (!other) return;
    if (had) { vf_check(d.has(o), "other keys stay"); if (d.has(o)) vf_check(d.text(o) == before, "with their values"); }
    else vf_check(!d.has(o) || (create && above()), "other keys do not come into being");
  }
};
static void merge(int shape, bool other = true) {
  Merge m(shape, other);
  bool ignore = vf_bool("empty values are ignored");
  if (m.other && !m.had) for (const SNode &n : m.s.nodes) if (!n.path.empty() && m.d.has(n.path)) vf_assume(!below(m.o, n.path));
  m.d.t.update(m.s.t, true, ignore);
  m.merged(ignore);
  m.others(true);
}
VF_CHECK(C21, merge_of_a_root) { merge(0); }
VF_CHECK(C21, merge_of_one_key) { merge(1); }
VF_CHECK(C21, merge_of_two_keys) { merge(2, false); }
VF_CHECK(C21, merge_of_two_keys_elsewhere) { merge(4); }
VF_CHECK(C21, merge_of_a_nested_key) { merge(3); }
static void update(int shape, bool other = true) {
  Merge m(shape, other);
  bool ignore = vf_bool("empty values are ignored"), missing = false, thrown = false;
  for (size_t i = 1; i < m.s.nodes.size(); ++i) if (!m.has[i - 1] && !(ignore && m.s.nodes[i].blank)) missing = true;
  try { m.d.t.update(m.s.t, false, ignore); } catch (const sm::PropertyTree::KeyNotFoundException &) { thrown = true; }
  vf_check(thrown == missing, "rejected exactly when a key of the source is missing");
  for (size_t i = 1; i < m.s.nodes.size(); ++i) vf_check(m.d.has(m.s.nodes[i].path) == m.has[i - 1], "no key of the source is created");
  if (!thrown) m.merged(ignore);
  m.others(false);
}
VF_CHECK(C21, update_of_a_root) { update(0); }
VF_CHECK(C21, update_of_one_key) { update(1); }
VF_CHECK(C21, update_of_two_keys) { update(2, false); }
VF_CHECK(C21, update_of_two_keys_elsewhere) { update(4); }
VF_CHECK(C21, update_of_a_nested_key) { update(3); }
#ifdef VF_NATIVE
#include <cstdio>
#include <fstream>
#include <unistd.h>
#include <sm/BoostPropertyTreeLoader.hpp>
#include <boost/property_tree/info_parser.hpp>
typedef std::map<std::string, std::string> Keys;
// a tree with values at its lowest levels only
static Keys keys(const char *alphabet, int depth) {
  static const char *const PART[6] = {"a", "b", "c1", "d_e", "parent", "F"};
  Keys k;
  for (int n = vf_count("keys", 7, 60); n > 0; --n) {
    std::string p;
    for (int d = 1 + (depth > 2 ? vf_count("depth", depth, 12) : vf_choice("depth", depth)); d > 0; --d) p += (p.empty() ? "" : "/") + std::string(PART[vf_choice("part", 6)]);
    bool clash = false;
    for (auto &e : k) clash |= e.first == p || below(e.first, p) || below(p, e.first);
    if (!clash) k[p] = vf_str("value", alphabet);
  }
  for (auto &e : k) for (char &c : e.second) if (!std::strchr(alphabet, c)) c = alphabet[0];   // the format's characters
  return k;
}
static Tree tree(const Keys &k) { Tree t; for (auto &e : k) t.put(Path(e.first, '/'), e.second); return t; }
static void leaves(const Tree &t, const std::string &prefix, Keys &out) {
  for (auto &c : t) {
    std::string p = prefix.empty() ? c.first : prefix + "/" + c.first;
    vf_check(!out.count(p), "no key twice");
    if (c.second.empty()) out[p] = c.second.data(); else { vf_check(c.second.data().empty(), "no value where none was"); leaves(c.second, p, out); }
  }
}
static Keys leaves(const sm::BoostPropertyTree &t) {
  Tree x; Keys k;
  for (auto i = t.begin(); i != t.end(); ++i) x.push_back(*i);
  leaves(x, "", k);
  return k;
}
static void same(const sm::BoostPropertyTree &t, const Keys &k) {
  vf_check(leaves(t) == k, "the same keys and values");
  for (auto &e : k) vf_check(t.getString("/" + e.first) == e.second, "read by key");
}
static std::string file(const std::string &ext) { return "tree_" + std::to_string(getpid()) + "_" + ext; }
struct Gone { std::string f; ~Gone() { std::remove(f.c_str()); } };
static void by_file(const std::string &ext, const Keys &k, void (sm::BoostPropertyTree::*save)(const boost::filesystem::path &) const, void (sm::BoostPropertyTree::*load)(const boost::filesystem::path &)) {
  Gone g{file("x." + ext)};
  sm::BoostPropertyTree a(tree(k)), b;
  if (vf_bool("before")) b.setString("/before", "1");
  bool named = vf_bool("by the name");
  if (named) a.save(g.f); else (a.*save)(g.f);
  if (vf_bool("loaded by the name")) b.load(g.f); else (b.*load)(g.f);
  same(b, k);
}
VF_CHECK(C21, json) {
  Keys k = keys("ab 1\"\\/<\t\n{}[],:", 3);
  if (k.empty()) return;
  by_file("json", k, &sm::BoostPropertyTree::saveJson, &sm::BoostPropertyTree::loadJson);
}
VF_CHECK(C21, info) { by_file("info", keys("ab 1\"\\/<\t\n{};#", 3), &sm::BoostPropertyTree::saveInfo, &sm::BoostPropertyTree::loadInfo); }
VF_CHECK(C21, info_text) {
  Keys k = keys("ab 1\"\\/<\t\n{};#", 3);
  Gone g{file("text.info")};
  std::ofstream(g.f) << sm::BoostPropertyTree(tree(k)).asInfoString();
  sm::BoostPropertyTree b;
  b.loadInfo(g.f);
  same(b, k);
}
VF_CHECK(C21, xml) {
  bool readable = vf_bool("human readable");
  Keys k = keys(readable ? "ab1\"<>&'{}=x" : "ab 1\"<>&'{}=", 3);
  sm::BoostPropertyTree::setHumanReadableInputOutput(readable);
  struct Off { ~Off() { sm::BoostPropertyTree::setHumanReadableInputOutput(false); } } off;
  by_file("xml", k, &sm::BoostPropertyTree::saveXml, &sm::BoostPropertyTree::loadXml);
}
VF_CHECK(C21, xml_text) {
  Keys k = keys("ab 1\"<>&'{}=", 3);
  Gone g{file("text.xml")};
  sm::BoostPropertyTree(tree(k)).saveXml(g.f);
  std::stringstream s; s << std::ifstream(g.f).rdbuf();
  sm::BoostPropertyTree b;
  b.loadXmlFromString(s.str());
  same(b, k);
}
VF_CHECK(C21, ini) {
  Keys k = keys("ab1\"<>&'{}x", 2);
  by_file("ini", k, &sm::BoostPropertyTree::saveIni, &sm::BoostPropertyTree::loadIni);
}
// the short form for command lines
static std::string phrase(const Tree &t) {
  std::string s;
  bool first = true;
  for (auto &c : t) {
    if (!first) s += ",";
    first = false;
    s += c.first;
    if (c.second.empty()) s += "=" + c.second.data();
    else if (c.second.size() == 1 && vf_bool("slash")) s += "/" + phrase(c.second);
    else s += "{" + phrase(c.second) + "}";
  }
  return s;
}
VF_CHECK(C21, short_text) {
  Keys k = keys("ab1.-x", 3);
  for (auto &e : k) if (e.second.empty()) e.second = "0";
  sm::BoostPropertyTree b;
  std::string s = phrase(tree(k));
  if (vf_bool("parts")) {
    std::vector<std::string> parts;
    for (auto &e : k) parts.push_back(phrase(tree(Keys{e})));
    std::map<std::string, int> top;
    for (auto &e : k) ++top[e.first.substr(0, e.first.find('/'))];
    for (auto &e : top) if (e.second > 1) return;      // joint with commas: levels with the same name are not merged
    b.loadStrings(parts);
  } else b.loadString(s);
  same(b, k);
}
// files with parents: values of a file take the place of those of its parents, later files those of earlier ones
struct Quiet : sm::BoostPropertyTreeLoader {
  void goingToMergeIn(const std::string &) override {}
  void startingWith(const std::string &) override {}
  void warn(const std::string &) override {}
  void info(const std::string &) override {}
  void verbose(const std::string &) override {}
};
VF_CHECK(C21, files_with_parents) {
  const int n = 4;
  Keys k[n]; std::vector<int> parents[n]; std::string name[n]; std::vector<Gone> gone; gone.reserve(n);
  static const char *const KEY[6] = {"x/a", "x/b", "x/c/d", "y", "z/a", "z/w"};
  for (int i = 0; i < n; ++i) { name[i] = file("f" + std::to_string(i) + ".info"); gone.push_back(Gone{name[i]}); }
  for (int i = 0; i < n; ++i) {
    for (const char *key : KEY) if (vf_bool("key")) k[i][key] = std::string("v") + std::to_string(i);
    for (int j = 0; j < n; ++j) if (j != i && vf_choice("parent", 3) == 0) parents[i].push_back(j);
    Tree t = tree(k[i]);
    std::string l;
    for (int j : parents[i]) l += (l.empty() ? "" : ",") + name[j];
    if (!l.empty()) t.put("parents", l);
    sm::BoostPropertyTree(t).saveInfo(name[i]);
  }
  std::vector<int> list; std::string text;
  for (int c = 1 + vf_choice("files", 2); c > 0; --c) { int i = vf_choice("file", n); list.push_back(i); text += (text.empty() ? "" : ",") + name[i]; }
  std::set<int> seen; Keys want;
  std::function<void(int)> load = [&](int i) {
    if (!seen.insert(i).second) return;
    for (int j : parents[i]) load(j);
    for (auto &e : k[i]) want[e.first] = e.second;
  };
  for (int i : list) load(i);
  Quiet l;
  sm::BoostPropertyTree t = l.readFilesAndMergeIntoPropertyTree(text);
  Keys got = leaves(t);
  got.erase("parents");
  vf_check(got == want, "the last file with a key decides");
}
// whole trees: merging against maps of keys to values
VF_CHECK(C21, maps) {
  Keys a = keys("12 ", 3), b = keys("12 ", 3), want = a;
  for (auto &e : b) for (auto &f : a) if (below(e.first, f.first) || below(f.first, e.first)) return;
  bool ignore = vf_bool("ignore empty"), create = vf_bool("create"), missing = false;
  std::set<std::string> levels;
  for (auto &e : a) for (size_t i = e.first.find('/'); i != e.first.npos; i = e.first.find('/', i + 1)) levels.insert(e.first.substr(0, i));
  for (auto &e : b) {
    bool blank = e.second.find_first_not_of(" \n\t\r") == e.second.npos;
    if (ignore && blank) continue;
    if (!a.count(e.first)) missing = true;
    want[e.first] = e.second;
  }
  if (!ignore) for (auto &e : b) for (size_t i = e.first.find('/'); i != e.first.npos; i = e.first.find('/', i + 1)) if (!levels.count(e.first.substr(0, i))) missing = true;
  sm::BoostPropertyTree x(tree(a)), y(tree(b));
  bool thrown = false;
  try { x.update(y, create, ignore); } catch (const sm::PropertyTree::KeyNotFoundException &) { thrown = true; }
  vf_check(thrown == (!create && missing), "rejected exactly when a key is missing");
  if (!thrown) same(x, want);
  else for (auto &e : a) { vf_check(x.doesKeyExist("/" + e.first), "every key stays"); vf_check(leaves(x).size() == a.size(), "and none is created"); }
  same(y, b);
}
#endif
