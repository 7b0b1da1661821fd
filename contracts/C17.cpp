// C17: a matrix archive is a map from names to values
#include <cctype>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <boost/filesystem.hpp>
#include <Eigen/Core>
#define private public
#include <sm/MatrixArchive.hpp>
#undef private
#include "contract.hpp"
#include "archive_spec.hpp"

VF_BINDINGS_C17

VF_CHECK(C17, names) {
  vf_body(vf_m(&MatrixArchive::validateName));
  MatrixArchive A;
  std::string n;
  int k = vf_choice("length", 35);
  if (k == 34) { n = vf_str("name", "ab1_A-.Z "); vf_assume(n.size() > 32); }       // of any length above
  else if (k <= 5 || vf_native()) for (int i = 0; i < k; ++i) n += char(vf_bits("character", 8));
  else { n = std::string(k, 'x'); n[vf_choice("position", k)] = char(vf_bits("character", 8)); }
#ifdef VF_NATIVE
  for (char &c : n) if (vf_choice("ordinary", 12)) c = "ab1_AZ09zx"[(unsigned char)c % 10];
#endif
  bool thrown = false;
  try { A.validateName(n, SM_SOURCE_FILE_POS); } catch (const MatrixArchiveException &) { thrown = true; }
  vf_check(thrown == !well_formed(n), "exactly the names of 1 to 32 letters, digits and underscores that start with a letter are accepted");
}

// one operation on an arbitrary archive, seen through two arbitrary names
struct Op {
  MatrixArchive A;
  std::string n, o;
  Value vn, vo;
  bool thrown;
  Op() : thrown(false) {
    arbitrary(A);
    n = name("name"); o = name("other name");
    vf_assume(!(n == o));
    vf_assume(!(A.m_strings.count(n) && A.m_values.count(n)));
    vf_assume(!(A.m_strings.count(o) && A.m_values.count(o)));
    vn = Value(A, n); vo = Value(A, o);
  }
  template <typename F> void run(F f) { try { f(); } catch (const MatrixArchiveException &) { thrown = true; } }
  void post(bool rejected, const Value &want) {
    vf_check(thrown == rejected, "rejected exactly when it has to be");
    vf_check(same(Value(A, n), thrown ? vn : want), "the value under the name");
    vf_check(same(Value(A, o), vo), "other names keep their values");
    vf_check(!(A.m_strings.count(n) && A.m_values.count(n)), "one value per name");
  }
};
VF_CHECK(C17, set_matrix) { Op t; Eigen::MatrixXd M = matrix("value"); t.run([&] { t.A.setMatrix(t.n, M); }); t.post(!valid(t.n), Value(M)); }
VF_CHECK(C17, set_matrix_xd) { Op t; Eigen::MatrixXd M = matrix("value"); t.run([&] { t.A.setMatrixXd(t.n, M); }); t.post(!valid(t.n), Value(M)); }
VF_CHECK(C17, set_vector) {
  Op t;
  Eigen::MatrixXd M = matrix("value");
  t.run([&] { t.A.setVector(t.n, M); });
  t.post(!(valid(t.n) && M.cols() == 1), Value(M));
}
VF_CHECK(C17, set_vector_xd) {
  Op t;
  Eigen::VectorXd v = vector("value");
  t.run([&] { t.A.setVectorXd(t.n, v); });
  t.post(!valid(t.n), Value(v));
}
VF_CHECK(C17, set_scalar) {
  Op t; double d = element("value");
  t.run([&] { t.A.setScalar(t.n, d); });
  Eigen::MatrixXd M(1, 1); M.data()[0] = d;
  t.post(!valid(t.n), Value(M));
}
VF_CHECK(C17, set_string) { Op t; std::string s = vf_str("value", "ab "); t.run([&] { t.A.setString(t.n, s); }); t.post(!valid(t.n), Value(s)); }
VF_CHECK(C17, create_matrix) {
  Op t;
  int r = vf_choice("rows", 3), c = vf_choice("columns", 3);
  bool over = vf_bool("overwrite");
  Eigen::MatrixXd *M = nullptr;
  t.run([&] { M = &t.A.createMatrix(t.n, r, c, over); });
  Eigen::MatrixXd E;
  if (M) {
    vf_check(M->rows() == r && M->cols() == c, "of the size asked for");
    E.resize(M->rows(), M->cols());
    for (int i = 0; i < M->size(); ++i) { double x = element("element"); M->data()[i] = x; E.data()[i] = x; }
  }
  t.post(!valid(t.n) || (!over && t.vn.kind == Value::MATRIX), Value(E));
}
VF_CHECK(C17, clear_one) { Op t; t.run([&] { t.A.clear(t.n); }); t.post(false, Value()); }
VF_CHECK(C17, clear_all) { Op t; t.A.clear(); vf_check(Value(t.A, t.n).kind == Value::NONE && t.A.size() == 0, "nothing is left"); }

// queries
template <typename F> static void query(Op &t, bool rejected, F f) {
  t.run(f);
  vf_check(t.thrown == rejected, "rejected exactly for a missing name or another kind");
  vf_check(same(Value(t.A, t.n), t.vn) && same(Value(t.A, t.o), t.vo), "a query changes nothing");
}
VF_CHECK(C17, get_matrix) {
  Op t;
  const MatrixArchive &A = t.A;
  Eigen::MatrixXd M = Eigen::MatrixXd::Zero(1, 1);
  query(t, t.vn.kind != Value::MATRIX, [&] { A.getMatrix(t.n, M); });
  if (!t.thrown) vf_check(same(Value(M), t.vn), "the stored matrix");
}
VF_CHECK(C17, get_matrix_reference) {
  Op t;
  const MatrixArchive &A = t.A;
  const Eigen::MatrixXd *M = nullptr;
  query(t, t.vn.kind != Value::MATRIX, [&] { M = &A.getMatrix(t.n); });
  if (M) vf_check(same(Value(*M), t.vn), "the stored matrix");
  Eigen::MatrixXd *W = nullptr;
  try { W = &t.A.getMatrix(t.n); } catch (const MatrixArchiveException &) {}
  vf_check((const Eigen::MatrixXd *)W == M, "the same matrix for writing");
}
VF_CHECK(C17, get_vector) {
  Op t;
  Eigen::VectorXd v;
  query(t, !(t.vn.kind == Value::MATRIX && t.vn.m.cols() == 1), [&] { t.A.getVector(t.n, v); });
  if (!t.thrown) vf_check(same(Value(Eigen::MatrixXd(v)), t.vn), "the stored vector");
}
VF_CHECK(C17, get_scalar) {
  Op t;
  double d = 0, e = 0;
  query(t, !(t.vn.kind == Value::MATRIX && t.vn.m.cols() == 1 && t.vn.m.rows() == 1), [&] { d = t.A.getScalar(t.n); t.A.getScalar(t.n, e); });
  if (!t.thrown) vf_check(same_bits(d, t.vn.m.data()[0]) && same_bits(e, d), "the stored scalar");
}
VF_CHECK(C17, get_string) {
  Op t;
  const MatrixArchive &A = t.A;
  std::string s, u;
  query(t, t.vn.kind != Value::STRING, [&] { s = A.getString(t.n); A.getString(t.n, u); });
  if (!t.thrown) {
    vf_check(s == t.vn.s && u == s, "the stored string");
    vf_check(&A.getString(t.n) == &t.A.getString(t.n), "the same string for writing");
    vf_check(A.getStrings().find(t.n)->second == s, "among the strings");
  }
}
VF_CHECK(C17, find) {
  Op t;
  const MatrixArchive &A = t.A;
  auto it = A.find(t.n);
  vf_check((it != A.end()) == (t.vn.kind == Value::MATRIX), "exactly the names of matrices are found");
  if (it != A.end()) vf_check(it->first == t.n && same(Value(it->second), t.vn), "with their matrix");
}
// sizes: a history of three operations
VF_CHECK(C17, sizes) {
  MatrixArchive A;
  std::string n[3];
  bool str[3];
  int k = vf_choice("entries", 4);
  size_t ms = 0, ss = 0;
  for (int i = 0; i < k; ++i) {
    n[i] = name("name");
    vf_assume(valid(n[i]));
    str[i] = vf_bool("a string");
    if (str[i]) A.setString(n[i], "x"); else A.setScalar(n[i], 1.0);
  }
  for (int i = 0; i < k; ++i) {
    bool last = true;
    for (int j = i + 1; j < k; ++j) if (n[j] == n[i]) last = false;
    if (last) ++(str[i] ? ss : ms);
  }
  vf_check(A.sizeMatrices() == ms, "the matrices");
  vf_check(A.sizeStrings() == ss, "the strings");
  vf_check(A.size() == ms + ss, "all entries");
  size_t seen = 0;
  for (auto it = A.begin(); it != A.end(); ++it) ++seen;
  vf_check(seen == ms, "the iteration shows every matrix once");
}
#ifdef VF_NATIVE
VF_CHECK(C17, histories) {
  MatrixArchive A;
  std::map<std::string, Value> W;
  for (int n = vf_count("operations", 24, 300); n > 0; --n) {
    std::string k = name("name");
    bool thrown = false, rejected = false, query = false;
    Value w;
    Eigen::MatrixXd M = matrix("value");
    std::string s = vf_str("string", "ab ");
    bool over = vf_bool("overwrite");
    auto it = W.find(k);
    bool has = it != W.end();
    try {
      switch (vf_choice("operation", 12)) {
      case 0: rejected = !valid(k); w = Value(M); A.setMatrix(k, M); break;
      case 1: rejected = !valid(k) || M.cols() != 1; w = Value(M); A.setVector(k, M); break;
      case 2: { rejected = !valid(k); double d = element("scalar"); w = Value(Eigen::MatrixXd(Eigen::MatrixXd::Constant(1, 1, d))); A.setScalar(k, d); break; }
      case 3: rejected = !valid(k); w = Value(s); A.setString(k, s); break;
      case 4: { rejected = !valid(k) || (!over && has && it->second.kind == Value::MATRIX); w = Value(M); A.createMatrix(k, int(M.rows()), int(M.cols()), over) = M; break; }
      case 5: A.clear(k); break;
      case 6: if (vf_choice("all", 4) == 0) { A.clear(); W.clear(); } query = true; break;
      case 7: { query = true; rejected = !has || it->second.kind != Value::MATRIX; Eigen::MatrixXd o; A.getMatrix(k, o); vf_check(same(Value(o), it->second), "the last matrix"); break; }
      case 8: { query = true; rejected = !has || it->second.kind != Value::STRING; std::string o; A.getString(k, o); vf_check(o == it->second.s, "the last string"); break; }
      case 9: { query = true; rejected = !has || it->second.kind != Value::MATRIX || it->second.m.size() != 1; double g = A.getScalar(k); vf_check(same_bits(g, it->second.m(0, 0)), "the last scalar"); break; }
      case 10: { query = true; rejected = !has || it->second.kind != Value::MATRIX || it->second.m.cols() != 1; Eigen::VectorXd v; A.getVector(k, v); vf_check(same(Value(Eigen::MatrixXd(v)), it->second), "the last vector"); break; }
      case 11: { // under its own name within the archive
        query = true;
        if (has && it->second.kind == Value::STRING) { const std::string &own = A.m_strings.find(k)->first; if (over) { A.setMatrix(own, M); W[k] = Value(M); } else { A.clear(own); W.erase(k); } }
        else if (has) { const std::string &own = A.m_values.find(k)->first; if (over) { A.setString(own, s); W[k] = Value(s); } else { A.clear(own); W.erase(k); } }
        break; }
      }
    } catch (const MatrixArchiveException &) { thrown = true; }
    vf_check(thrown == rejected, "rejected exactly when it has to be");
    if (!thrown && !query) { if (w.kind == Value::NONE) W.erase(k); else W[k] = w; }
    size_t ms = 0;
    for (auto &e : W) { vf_check(same(Value(A, e.first), e.second), "the most recent value"); ms += e.second.kind == Value::MATRIX; }
    vf_check(A.size() == W.size() && A.sizeMatrices() == ms && A.sizeStrings() == W.size() - ms && A.getStrings().size() == W.size() - ms, "nothing else");
  }
}
#endif
