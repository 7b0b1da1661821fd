// Contract of the property tree implementation interface: what it was asked for is recorded, the answer is arbitrary.
#pragma once
#include "contract.hpp"
#include <sm/PropertyTree.hpp>
#include <sm/PropertyTreeImplementation.hpp>
#include <boost/make_shared.hpp>

enum Op { GET, GETDEF_CONST, GETDEF, SET, EXISTS, CHILDREN };
enum Ty { D, I, B, S };

struct SpecTree : sm::PropertyTreeImplementation {
  struct Call { int n = 0; int op = -1; int ty = -1; std::string key; double d = 0; int i = 0; bool b = false; std::string s; };
  mutable Call c;
  double rd = 0; int ri = 0; bool rb = false; std::string rs;          // the answers
  void call(int op, int ty, const std::string &k) const { ++c.n; c.op = op; c.ty = ty; c.key = k; }
  double getDouble(const std::string &k) const override { call(GET, D, k); return rd; }
  double getDouble(const std::string &k, double v) const override { call(GETDEF_CONST, D, k); c.d = v; return rd; }
  double getDouble(const std::string &k, double v) override { call(GETDEF, D, k); c.d = v; return rd; }
  int getInt(const std::string &k) const override { call(GET, I, k); return ri; }
  int getInt(const std::string &k, int v) const override { call(GETDEF_CONST, I, k); c.i = v; return ri; }
  int getInt(const std::string &k, int v) override { call(GETDEF, I, k); c.i = v; return ri; }
  bool getBool(const std::string &k) const override { call(GET, B, k); return rb; }
  bool getBool(const std::string &k, bool v) const override { call(GETDEF_CONST, B, k); c.b = v; return rb; }
  bool getBool(const std::string &k, bool v) override { call(GETDEF, B, k); c.b = v; return rb; }
  std::string getString(const std::string &k) const override { call(GET, S, k); return rs; }
  std::string getString(const std::string &k, const std::string &v) const override { call(GETDEF_CONST, S, k); c.s = v; return rs; }
  std::string getString(const std::string &k, const std::string &v) override { call(GETDEF, S, k); c.s = v; return rs; }
  void setDouble(const std::string &k, double v) override { call(SET, D, k); c.d = v; }
  void setInt(const std::string &k, int v) override { call(SET, I, k); c.i = v; }
  void setBool(const std::string &k, bool v) override { call(SET, B, k); c.b = v; }
  void setString(const std::string &k, const std::string &v) override { call(SET, S, k); c.s = v; }
  bool doesKeyExist(const std::string &k) const override { call(EXISTS, B, k); return rb; }
  std::vector<sm::KeyPropertyTreePair> getChildren(const std::string &k) const override { call(CHILDREN, S, k); return std::vector<sm::KeyPropertyTreePair>(); }
};
