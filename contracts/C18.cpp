// C18: saving and loading a matrix archive is lossless
#include <cctype>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <boost/filesystem.hpp>
#include <Eigen/Core>
#define private public
#include <sm/MatrixArchive.hpp>
#undef private
#include "contract.hpp"
#include "archive_spec.hpp"

VF_BINDINGS_C17

#ifndef VF_NATIVE
extern "C" void vf_failing_files(const char *name);                 // from here on opening, writing and closing files may fail
extern "C" void vf_truncate_file(const char *path, const char *name); // to an arbitrary shorter prefix
extern "C" void vf_set_file_byte(const char *path, int end, int value); // the first (0) or last (1) byte
static std::string scratch() { return "archive"; }
#else
#include <unistd.h>
static std::string scratch_dir() {
  static std::string d;
  if (d.empty()) { char t[] = "/tmp/vf_c18_XXXXXX"; d = mkdtemp(t); atexit([] { unlink((d + "/archive").c_str()); rmdir(d.c_str()); }); }
  return d;
}
static std::string scratch() { std::string f = scratch_dir() + "/archive"; unlink(f.c_str()); return f; }
static std::string slurp(const char *f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static void spill(const char *f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }
static void vf_truncate_file(const char *f, const char *n) { std::string s = slurp(f); spill(f, s.substr(0, vf_choice(n, int(s.size())))); }
static void vf_set_file_byte(const char *f, int end, int v) { std::string s = slurp(f); s[end ? s.size() - 1 : 0] = char(v); spill(f, s); }
static void vf_failing_files(const char *) {}
#endif

// an arbitrary valid name of the given length
static std::string valid_name(const char *what, int length) {
  std::string n;
#ifdef VF_NATIVE
  for (int i = 0; i < length; ++i) n += "abA_z9Z0"[vf_choice(what, 8)];
  if (!letter(n[0])) n[0] = 'q';
#else
  for (int i = 0; i < length; ++i) n += char(vf_bits(what, 8));
#endif
  vf_assume(well_formed(n));
  vf_assume(valid(n));
  return n;
}
static int size_choice(const char *what) { static const int L[4] = {1, 32, 2, 31}; return L[vf_choice(what, vf_native() ? 4 : 2)]; }
static void put_value(MatrixArchive &A, const std::string &n, bool string) {
  if (string) { std::string s = vf_str("string", "ab "); vf_assume(s.size() < 4294967296ull); A.m_strings[n] = s; }
  else A.m_values[n] = matrix("matrix");
}
template <typename F> static bool rejects(F f) { try { f(); return false; } catch (const MatrixArchiveException &) { return true; } }

VF_CHECK(C18, one_value) {
  MatrixArchive A, B;
  std::string n = valid_name("name", vf_choice("length", 32) + 1), f = scratch();
  put_value(A, n, vf_bool("string"));
  A.save(f);
  B.load(f);
  vf_check(B.size() == 1, "nothing else");
  vf_check(same(Value(B, n), Value(A, n)), "the value");
}
VF_CHECK(C18, two_values) {
  MatrixArchive A, B;
  std::string n = valid_name("name", size_choice("length")), o = valid_name("other name", size_choice("other length")), f = scratch();
  vf_assume(!(n == o));
  put_value(A, n, vf_bool("string"));
  put_value(A, o, vf_bool("other string"));
  bool old = vf_bool("there was an entry");
  if (old) put_value(B, n, vf_bool("old string"));
  A.save(f);
  B.load(f);
  vf_check(B.size() == 2, "nothing else");
  vf_check(same(Value(B, n), Value(A, n)), "the first value");
  vf_check(same(Value(B, o), Value(A, o)), "the second value");
}
VF_CHECK(C18, no_values) {
  MatrixArchive A, B;
  std::string f = scratch();
  A.save(f);
  B.load(f);
  vf_check(B.size() == 0, "nothing");
}
VF_CHECK(C18, restricted) {
  MatrixArchive A, B;
  std::string n = valid_name("name", 3), o = valid_name("other name", 3), f = scratch();
  vf_assume(!(n == o));
  put_value(A, n, vf_bool("string"));
  put_value(A, o, vf_bool("other string"));
  std::set<std::string> names;
  names.insert(n);
  if (vf_bool("another")) { std::string x = valid_name("another", 3); vf_assume(!(x == o)); names.insert(x); }
  if (vf_bool("while saving")) { A.save(boost::filesystem::path(f), names); B.load(f); }
  else { A.save(f); B.load(boost::filesystem::path(f), names); }
  vf_check(B.size() == 1, "only the names asked for");
  vf_check(same(Value(B, n), Value(A, n)), "the value");
}
VF_CHECK(C18, appended) {
  MatrixArchive A, A2, B;
  std::string n = valid_name("name", 3), o = valid_name("other name", 3), f = scratch();
  put_value(A, n, vf_bool("string"));
  put_value(A2, o, vf_bool("other string"));
  A.save(f);
  A2.append(f);
  B.load(f);
  vf_check(same(Value(B, o), Value(A2, o)), "the value appended");
  if (!(n == o)) vf_check(same(Value(B, n), Value(A, n)), "the value that was there");
  vf_check(B.size() == (n == o ? 1 : 2), "nothing else");
}
VF_CHECK(C18, truncated) {
  MatrixArchive A, B;
  std::string n = valid_name("name", 3), f = scratch();
  put_value(A, n, vf_bool("string"));
  A.save(f);
  vf_truncate_file(f.c_str(), "cut");
  bool empty = false;
  { std::ifstream i(f.c_str(), std::ios::binary); i.peek(); empty = i.eof(); }
  vf_check(rejects([&] { B.load(f); }) == !empty, "a file that is cut off is rejected");
  vf_check(B.size() == 0, "nothing is read from it");
}
VF_CHECK(C18, corrupted) {
  MatrixArchive A, B;
  std::string n = valid_name("name", 3), f = scratch();
  put_value(A, n, vf_bool("string"));
  A.save(f);
  int v = vf_bits("byte", 8);
  if (vf_bool("at the end")) { vf_assume(v != uint8_t(MatrixArchive::s_magicCharEnd)); vf_set_file_byte(f.c_str(), 1, v); }
  else { vf_assume(v != uint8_t(MatrixArchive::s_magicCharStartAMatrixBlock)); vf_assume(v != uint8_t(MatrixArchive::s_magicCharStartAStringBlock)); vf_set_file_byte(f.c_str(), 0, v); }
  vf_check(rejects([&] { B.load(f); }), "a file with a wrong start or end character is rejected");
  vf_check(B.size() == 0, "nothing is read from it");
}
VF_CHECK(C18, saved_or_rejected) {
  MatrixArchive A, B;
  std::string n = valid_name("name", 3), f = scratch();
  bool append = vf_bool("append");
  put_value(A, n, vf_bool("string"));
  vf_failing_files("failure");
#ifndef VF_NATIVE
  if (rejects([&] { if (append) A.append(f); else A.save(f); })) return;
  if (rejects([&] { B.load(f); })) return;             // the file cannot be opened
  vf_check(B.size() == 1, "nothing else");
  vf_check(same(Value(B, n), Value(A, n)), "a file that was saved without an error is complete");
#else
  vf_check(rejects([&] { if (append) A.append(std::string("/dev/full")); else A.save(std::string("/dev/full")); }), "a full disk is noticed");
  vf_check(rejects([&] { A.save(scratch_dir() + "/none/archive"); }), "a file that cannot be opened is noticed");
  vf_check(rejects([&] { B.load(f); }), "a missing file is noticed");
#endif
}
#ifdef VF_NATIVE
VF_CHECK(C18, histories) {
  MatrixArchive A, B, C;
  std::string f = scratch();
  std::set<std::string> all, some;
  for (int i = vf_count("values", 8, 60); i > 0; --i) {
    std::string n = name("name");
    if (!valid(n)) continue;
    all.insert(n);
    switch (vf_choice("kind", 3)) {
    case 0: A.setString(n, vf_str("string", "ab \n\tAZ{}")); break;
    default: {
      Eigen::MatrixXd M(vf_count("rows", 6, 90), vf_count("columns", 6, 90));
      for (int k = 0; k < M.size(); ++k) M.data()[k] = element("element");
      A.setMatrix(n, M); }
    }
  }
  A.save(f);
  B.load(f);
  vf_check(B.size() == A.size() && A.size() == all.size(), "nothing else");
  for (auto &n : all) vf_check(same(Value(B, n), Value(A, n)), "the value");
  for (auto &n : all) if (vf_bool("selected")) some.insert(n);
  if (some.size()) {
    C.load(boost::filesystem::path(f), some);
    vf_check(C.size() == some.size(), "only the names asked for");
    for (auto &n : some) vf_check(same(Value(C, n), Value(A, n)), "the value selected");
  }
  // cut off: either at a boundary between blocks (the blocks before are read), or rejected
  std::string s = slurp(f.c_str());
  if (s.empty()) return;
  size_t k = vf_choice("cut", int(s.size()));
  std::set<size_t> ends;
  size_t e = 0;
  for (auto &m : A.m_values) { ends.insert(e); e += 1 + 32 + 8 + 8 * m.second.size() + 1; }
  for (auto &m : A.m_strings) { ends.insert(e); e += 1 + 32 + 4 + m.second.size() + 1; }
  vf_check(e == s.size(), "the size of the file");
  spill(f.c_str(), s.substr(0, k));
  MatrixArchive D;
  vf_check(rejects([&] { D.load(f); }) == !ends.count(k), "a cut within a block is rejected");
  for (auto &m : D.m_values) vf_check(same(Value(m.second), Value(A, m.first)), "what was read is right");
  for (auto &m : D.m_strings) vf_check(same(Value(m.second), Value(A, m.first)), "what was read is right");
}
#endif
