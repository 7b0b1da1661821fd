// Contract of the value store interface: a store is an arbitrary partial map from texts to values of each type. Which keys it
// has is decided when first asked and kept; what it was asked for is recorded.
#pragma once
#include "contract.hpp"
#include <sm/value_store/ValueStore.hpp>
#include <stdexcept>
#include <vector>
using namespace sm::value_store;

enum Ty { D, I, B, S };

template <typename T> struct SpecHandle : ValueHandleImpl<T> {
  mutable T v; bool upd; int *updates;
  SpecHandle(T v, bool upd = false, int *u = nullptr) : v(v), upd(upd), updates(u) {}
  bool isUpdateable() const override { return upd; }
  void update(T n) override { v = n; if (updates) ++*updates; }
  T get() const override { return v; }
};

template <typename Base> struct SpecStoreT : Base {
  struct Known { std::string key; bool has; };
  mutable std::vector<Known> known;
  double d; int i; bool b; std::string s;                   // the values held under the key asked for
  mutable int gets = 0, haskeys = 0, children = 0; mutable int ty = -1; mutable std::string key; mutable bool def = false;
  mutable double dd = 0; mutable int di = 0; mutable bool db = false; mutable std::string ds;      // the default given
  mutable const void *handle = nullptr;
  bool childSupported = true;
  const char *name;
  explicit SpecStoreT(const char *n) : name(n) {
    d = vf_fp64("value d"); i = int(vf_bits("value i", 32)); b = vf_bits("value b", 1) != 0; s = vf_str("value s", "xy /");
  }
  bool has(const std::string &k) const {
    for (const Known &x : known) if (x.key == k) return x.has;
    known.push_back(Known{k, vf_bool(name)});
    return known.back().has;
  }
  template <typename T> ValueHandle<T> answer(const std::string &k, int t, T v, boost::optional<T> df) const {
    ++gets; ty = t; key = k; def = bool(df);
    if (!has(k)) { if (!df) throw std::out_of_range("neither a value nor a default"); v = *df; }
    SpecHandle<T> *h = new SpecHandle<T>(v); handle = h;
    return ValueHandle<T>(h);
  }
  ValueHandle<bool> getBool(const std::string &k, boost::optional<bool> df) const override { if (df) db = *df; return answer<bool>(k, B, b, df); }
  ValueHandle<int> getInt(const std::string &k, boost::optional<int> df) const override { if (df) di = *df; return answer<int>(k, I, i, df); }
  ValueHandle<double> getDouble(const std::string &k, boost::optional<double> df) const override { if (df) dd = *df; return answer<double>(k, D, d, df); }
  ValueHandle<std::string> getString(const std::string &k, boost::optional<std::string> df) const override { if (df) ds = *df; return answer<std::string>(k, S, s, df); }
  bool hasKey(const std::string &k) const override { ++haskeys; return has(k); }
  KeyValueStorePair getChild(const std::string &k) const override { ++children; key = k; return KeyValueStorePair(k, std::shared_ptr<ValueStore>(const_cast<SpecStoreT *>(this), [](ValueStore *) {})); }
  std::vector<KeyValueStorePair> getChildren() const override { return std::vector<KeyValueStorePair>(); }
  bool isChildSupported() const override { return childSupported; }
};
struct SpecExtendible : SpecStoreT<ExtendibleValueStore> {
  using SpecStoreT::SpecStoreT;
  int adds = 0;
  template <typename T> ValueHandle<T> added(const std::string &k, int t, T v) { ++adds; ty = t; key = k; SpecHandle<T> *h = new SpecHandle<T>(v); handle = h; return ValueHandle<T>(h); }
  ValueHandle<bool> addBool(const std::string &k, bool v) override { b = v; return added<bool>(k, B, v); }
  ValueHandle<int> addInt(const std::string &k, int v) override { i = v; return added<int>(k, I, v); }
  ValueHandle<double> addDouble(const std::string &k, double v) override { d = v; return added<double>(k, D, v); }
  ValueHandle<std::string> addString(const std::string &k, std::string v) override { s = v; return added<std::string>(k, S, v); }
  ExtendibleKeyValueStorePair getExtendibleChild(const std::string &k) const override { ++children; key = k; return ExtendibleKeyValueStorePair(k, std::shared_ptr<ExtendibleValueStore>(const_cast<SpecExtendible *>(this), [](ExtendibleValueStore *) {})); }
  std::vector<ExtendibleKeyValueStorePair> getExtendibleChildren() const override { return std::vector<ExtendibleKeyValueStorePair>(); }
};
using SpecStore = SpecStoreT<ValueStore>;
inline bool vf_bits_equal(double a, double b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }

// one typed access of a store: outcome of get
struct Outcome { bool thrown = false; bool rejected = false; const void *handle = nullptr; int ty = -1; bool def = false; double d = 0; int i = 0; bool b = false; std::string s; };
template <typename St> Outcome access(const St &v, const std::string &key) {
  Outcome o;
  o.def = vf_bool("default given");
  o.d = vf_fp64("default d"); o.i = int(vf_bits("default i", 32)); o.b = vf_bits("default b", 1) != 0; o.s = vf_str("default s", "xy /");
  o.ty = vf_choice("type", 4);
  try {
    switch (o.ty) {
    case D: { auto h = v.getDouble(key, o.def ? boost::optional<double>(o.d) : boost::optional<double>()); o.handle = &h.getImplementation(); o.d = h.get(); break; }
    case I: { auto h = v.getInt(key, o.def ? boost::optional<int>(o.i) : boost::optional<int>()); o.handle = &h.getImplementation(); o.i = h.get(); break; }
    case B: { auto h = v.getBool(key, o.def ? boost::optional<bool>(o.b) : boost::optional<bool>()); o.handle = &h.getImplementation(); o.b = h.get(); break; }
    default: { auto h = v.getString(key, o.def ? boost::optional<std::string>(o.s) : boost::optional<std::string>()); o.handle = &h.getImplementation(); o.s = h.get(); }
    }
  } catch (const std::out_of_range &) { o.thrown = true; }
  catch (const std::runtime_error &) { o.rejected = true; }
  return o;
}
