// the abstract value of a matrix archive
#pragma once
using sm::MatrixArchive;
using sm::MatrixArchiveException;
static bool same_bits(double a, double b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
static double element(const char *n) { uint64_t b = vf_bits(n, 64); double d; std::memcpy(&d, &b, 8); return d; }
#ifndef VF_NATIVE
extern "C" void vf_arbitrary_matrix(Eigen::MatrixXd *m, const char *name);   // of any size
extern "C" void vf_arbitrary_vector(Eigen::VectorXd *m, const char *name);
extern "C" int vf_opaque_same(const double *a, const double *b);             // equal elements of two arbitrary matrices; 2: not such matrices
static Eigen::MatrixXd matrix(const char *n) { Eigen::MatrixXd M; vf_arbitrary_matrix(&M, n); return M; }
static Eigen::VectorXd vector(const char *n) { Eigen::VectorXd v; vf_arbitrary_vector(&v, n); return v; }
#else
static Eigen::VectorXd vector(const char *n) {
  Eigen::VectorXd v(vf_choice("rows", 4));
  for (int i = 0; i < v.size(); ++i) v[i] = element(n);
  return v;
}
static Eigen::MatrixXd matrix(const char *n) {
  static const int R[6] = {1, 2, 1, 0, 0, 2}, C[6] = {1, 1, 2, 0, 2, 2};
  int k = vf_choice("shape", 6);
  Eigen::MatrixXd M(R[k], C[k]);
  for (int i = 0; i < R[k] * C[k]; ++i) M.data()[i] = element(n);
  return M;
}
#endif
struct Value {
  enum Kind { NONE, MATRIX, STRING } kind;
  Eigen::MatrixXd m;
  std::string s;
  Value() : kind(NONE) {}
  explicit Value(const Eigen::MatrixXd &m) : kind(MATRIX), m(m) {}
  explicit Value(const std::string &s) : kind(STRING), s(s) {}
  Value(const MatrixArchive &A, const std::string &n) : kind(NONE) {
    auto i = A.m_values.find(n);
    auto j = A.m_strings.find(n);
    if (i != A.m_values.end()) { kind = MATRIX; m = i->second; }
    if (j != A.m_strings.end()) { kind = STRING; s = j->second; }
  }
};
static bool same(const Value &a, const Value &b) {
  if (a.kind != b.kind) return false;
  if (a.kind == Value::STRING) return a.s == b.s;
  if (a.kind == Value::NONE) return true;
  if (a.m.rows() != b.m.rows() || a.m.cols() != b.m.cols()) return false;
#ifndef VF_NATIVE
  int k = vf_opaque_same(a.m.data(), b.m.data());
  if (k != 2) return k != 0;
#endif
  bool r = true;
  for (int i = 0; i < a.m.rows() * a.m.cols(); ++i) r = bool(int(r) & int(same_bits(a.m.data()[i], b.m.data()[i])));
  return r;
}
static bool letter(char c) { return bool(int((c >= 'a') & (c <= 'z')) | int((c >= 'A') & (c <= 'Z'))); }
static bool name_char(char c) { return bool(int(letter(c)) | int((c >= '0') & (c <= '9')) | int(c == '_')); }
static bool well_formed(const std::string &n) {
  if (n.empty() || n.size() > 32) return false;
  bool ok = letter(n[0]);
  for (size_t i = 1; i < n.size(); ++i) ok = bool(int(ok) & int(name_char(n[i])));
  return ok;
}
#ifdef VF_NATIVE
static bool valid(const std::string &n) { return well_formed(n); }
static std::string name(const char *) {
  static const char *const POOL[10] = {"a", "b", "ab", "A_1", "a23456789012345678901234567890_2", "z9", "", "1a", "a-b", "a234567890123456789012345678901234"};
  int k = vf_choice("name", 12);
  return POOL[k < 10 ? k : k - 10];
}
static void arbitrary(MatrixArchive &A) {
  for (int i = vf_choice("matrices", 4); i > 0; --i) { std::string n = name(""); if (valid(n)) A.m_values[n] = matrix("element"); }
  for (int i = vf_choice("strings", 4); i > 0; --i) { std::string n = name(""); if (valid(n) && !A.m_values.count(n)) A.m_strings[n] = vf_str("text", "ab "); }
}
#define VF_BINDINGS_C17
#else
// contract of validateName used at call sites: the names it rejects are an arbitrary set (what they are is shown in 'names')
static std::set<std::string> &rejected_names() {
  static std::set<std::string> *s = nullptr;
  if (!s) { s = new std::set<std::string>; vf_any(*s, "rejected names"); }
  return *s;
}
static bool valid(const std::string &n) { return !rejected_names().count(n); }
static std::string name(const char *n) { return vf_str(n); }
static void arbitrary(MatrixArchive &A) { vf_any(A.m_values, "matrices"); vf_any(A.m_strings, "strings"); }
static void spec_validateName(const MatrixArchive *, const std::string &n, const sm::source_file_pos &) { if (!valid(n)) throw MatrixArchiveException("name"); }
#define VF_BINDINGS_C17 extern "C" void vf_bindings() { vf_bind(vf_m(&MatrixArchive::validateName), vf_p(&spec_validateName)); }
#endif
