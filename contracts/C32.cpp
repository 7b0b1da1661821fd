// C32: dense matrices survive serialisation
#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <sm/eigen/serialization.hpp>
#include "contract.hpp"
#ifdef VF_NATIVE
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/xml_iarchive.hpp>
#include <boost/archive/xml_oarchive.hpp>
#endif
namespace bs = boost::serialization;
using Eigen::MatrixXd;
using Eigen::VectorXd;
typedef Eigen::Matrix<double, 1, Eigen::Dynamic> Row;
typedef Eigen::Matrix<double, 3, Eigen::Dynamic> Wide;
typedef Eigen::Matrix<double, Eigen::Dynamic, 2> Tall;
typedef Eigen::Matrix<double, 2, 3, Eigen::RowMajor> Small;
#ifndef VF_NATIVE
extern "C" void vf_arbitrary_shape(void *m, const char *name, long rows, long cols);   // elements arbitrary; a negative number of rows or columns: any
extern "C" int vf_opaque_same(const double *a, const double *b);
#endif
static bool same_bits(double a, double b) { uint64_t x, y; std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
static double element(const char *n) { uint64_t b = vf_bits(n, 64); double d; std::memcpy(&d, &b, 8); return d; }

// assumed contract of archives: what was written is read back, in the same order (boost's archives are such archives)
template <class S> struct Archive {
  S &f;
  Archive(S &f) : f(f) {}
  unsigned get_library_version() const { return 19; }
};
struct Out : Archive<std::ofstream> {
  typedef boost::mpl::bool_<true> is_saving;
  typedef boost::mpl::bool_<false> is_loading;
  Out(std::ofstream &f) : Archive(f) {}
  void put(const long &v) { f.write(reinterpret_cast<const char *>(&v), sizeof(long)); }
  void put(const int &v) { f.write(reinterpret_cast<const char *>(&v), sizeof(int)); }
  void put(const double &v) { f.write(reinterpret_cast<const char *>(&v), sizeof(double)); }
  void put(const bs::array_wrapper<double> &a) { f.write(reinterpret_cast<const char *>(a.address()), std::streamsize(a.count() * sizeof(double))); }
  void put(const bs::array_wrapper<const double> &a) { f.write(reinterpret_cast<const char *>(a.address()), std::streamsize(a.count() * sizeof(double))); }
  template <int A, int B, int C, int D, int E> void put(const Eigen::Matrix<double, A, B, C, D, E> &M) { bs::serialize(*this, const_cast<Eigen::Matrix<double, A, B, C, D, E> &>(M), 0u); }
  template <class T> void put(const bs::nvp<T> &v) { put(v.const_value()); }
  template <class T> Out &operator<<(const T &v) { put(v); return *this; }
  template <class T> Out &operator&(const T &v) { put(v); return *this; }
};
struct In : Archive<std::ifstream> {
  typedef boost::mpl::bool_<false> is_saving;
  typedef boost::mpl::bool_<true> is_loading;
  In(std::ifstream &f) : Archive(f) {}
  void get(long &v) { f.read(reinterpret_cast<char *>(&v), sizeof(long)); }
  void get(int &v) { f.read(reinterpret_cast<char *>(&v), sizeof(int)); }
  void get(double &v) { f.read(reinterpret_cast<char *>(&v), sizeof(double)); }
  void get(const bs::array_wrapper<double> &a) { f.read(reinterpret_cast<char *>(a.address()), std::streamsize(a.count() * sizeof(double))); }
  template <int A, int B, int C, int D, int E> void get(Eigen::Matrix<double, A, B, C, D, E> &M) { bs::serialize(*this, M, 0u); }
  template <class T> void get(const bs::nvp<T> &v) { get(v.value()); }
  template <class T> In &operator>>(T &v) { get(v); return *this; }
  template <class T> In &operator>>(const T &v) { get(v); return *this; }
  template <class T> In &operator&(T &v) { get(v); return *this; }
  template <class T> In &operator&(const T &v) { get(v); return *this; }
};

#ifdef VF_NATIVE
#include <unistd.h>
static std::string scratch() {
  static std::string d;
  if (d.empty()) { char t[] = "/tmp/vf_c32_XXXXXX"; d = mkdtemp(t); atexit([] { unlink((d + "/archive").c_str()); rmdir(d.c_str()); }); }
  return d + "/archive";
}
#else
static std::string scratch() { return "archive"; }
#endif

// an arbitrary matrix: any number of rows or columns where the type leaves it open
template <class T> static void any(T &M, const char *name) {
#ifndef VF_NATIVE
  if (T::SizeAtCompileTime == Eigen::Dynamic) { vf_arbitrary_shape(&M, name, T::RowsAtCompileTime, T::ColsAtCompileTime); return; }
#else
  M.resize(T::RowsAtCompileTime == Eigen::Dynamic ? vf_count("rows", 4, 50) : T::RowsAtCompileTime, T::ColsAtCompileTime == Eigen::Dynamic ? vf_count("columns", 4, 50) : T::ColsAtCompileTime);
#endif
  for (int i = 0; i < M.rows() * M.cols(); ++i) M.data()[i] = element(name);
}
template <class T> static bool same(const T &a, const T &b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
#ifndef VF_NATIVE
  if (a.rows() == 0 || a.cols() == 0) return true;
  if (T::SizeAtCompileTime == Eigen::Dynamic) return vf_opaque_same(a.data(), b.data()) == 1;
#endif
  bool r = true;
  for (int i = 0; i < a.rows() * a.cols(); ++i) r = bool(int(r) & int(same_bits(a.data()[i], b.data()[i])));
  return r;
}
template <class T> static void round_trip() {
  T M, N;
  any(M, "written");
  if (vf_bool("read into a matrix of another size")) any(N, "before");
  long after = 0;
  { std::ofstream f(scratch().c_str(), std::ios::binary); Out o(f); o << bs::make_nvp("m", M); o.put(long(42)); }
  { std::ifstream f(scratch().c_str(), std::ios::binary); In i(f); i >> bs::make_nvp("m", N); i.get(after); }
  vf_check(same(N, M), "the same shape and elements");
  vf_check(after == 42, "what follows in the archive is read back too");
}
VF_CHECK(C32, matrix_of_any_size) { round_trip<MatrixXd>(); }
VF_CHECK(C32, vector_of_any_size) { round_trip<VectorXd>(); }
VF_CHECK(C32, row_of_any_size) { round_trip<Row>(); }
VF_CHECK(C32, any_number_of_columns) { round_trip<Wide>(); }
VF_CHECK(C32, any_number_of_rows) { round_trip<Tall>(); }
VF_CHECK(C32, fixed_matrix) { round_trip<Eigen::Matrix3d>(); }
VF_CHECK(C32, fixed_vector) { round_trip<Eigen::Vector4d>(); }
VF_CHECK(C32, fixed_row_major) { round_trip<Small>(); }

template <class W> static void write(const W &M) { std::ofstream f(scratch().c_str(), std::ios::binary); Out o(f); o << bs::make_nvp("m", M); }
template <class T> static bool rejects(T &M) {
  std::ifstream f(scratch().c_str(), std::ios::binary);
  In i(f);
  try { i >> bs::make_nvp("m", M); return false; } catch (const sm::eigen::SerializationException &) { return true; }
}
// a matrix whose shape the type read into cannot have
template <class W, class R> static void other_shape() {
  W M;
  any(M, "written");
  R N;
  bool fits = (R::RowsAtCompileTime == Eigen::Dynamic || M.rows() == R::RowsAtCompileTime) && (R::ColsAtCompileTime == Eigen::Dynamic || M.cols() == R::ColsAtCompileTime);
  vf_assume(!fits);
  write(M);
  vf_check(rejects(N), "rejected");
}
VF_CHECK(C32, other_shape_than_fixed_matrix) { other_shape<MatrixXd, Eigen::Matrix3d>(); }
VF_CHECK(C32, other_shape_than_fixed_vector) { other_shape<VectorXd, Eigen::Vector4d>(); }
VF_CHECK(C32, other_shape_than_vector) { other_shape<MatrixXd, VectorXd>(); }
VF_CHECK(C32, other_shape_than_row) { other_shape<MatrixXd, Row>(); }
VF_CHECK(C32, other_shape_than_wide) { other_shape<MatrixXd, Wide>(); }
VF_CHECK(C32, other_shape_than_tall) { other_shape<MatrixXd, Tall>(); }
VF_CHECK(C32, transposed_shape) { other_shape<Small, Eigen::Matrix<double, 3, 2> >(); }
VF_CHECK(C32, fixed_other_shapes) { other_shape<Eigen::Matrix<double, 4, 3>, Eigen::Matrix3d>(); other_shape<Eigen::Matrix<double, 3, 4>, Eigen::Matrix3d>(); other_shape<Eigen::Matrix2d, Eigen::Matrix3d>(); }

// the shape of the type is what was written: fixed and dynamic sizes read each other
template <class W, class R> static void across() {
  W M;
  any(M, "written");
  R N;
  write(M);
  vf_check(!rejects(N), "accepted");
  vf_check(N.rows() == M.rows() && N.cols() == M.cols(), "the same shape");
  bool r = true;
  for (int i = 0; i < M.rows(); ++i) for (int j = 0; j < M.cols(); ++j) r = bool(int(r) & int(same_bits(M(i, j), N(i, j))));
  vf_check(r, "the same elements");
}
VF_CHECK(C32, fixed_read_as_dynamic) { across<Eigen::Matrix<double, 2, 3>, MatrixXd>(); across<Eigen::Matrix<double, 3, 2>, Tall>(); across<Eigen::Matrix<double, 3, 2>, Wide>(); across<Eigen::Vector3d, VectorXd>(); across<Eigen::RowVector2d, Row>(); }

#ifdef VF_NATIVE
// the archives of boost, other element types, transforms
template <class O, class I, class T> static void boost_archive(const T &M) {
  T N;
  if (vf_bool("read into a matrix of another size")) { if (T::SizeAtCompileTime == Eigen::Dynamic) N.resize(T::RowsAtCompileTime == Eigen::Dynamic ? 2 : T::RowsAtCompileTime, T::ColsAtCompileTime == Eigen::Dynamic ? 5 : T::ColsAtCompileTime); }
  std::stringstream s;
  { O o(s); int a = 42; o << bs::make_nvp("m", M); o << bs::make_nvp("after", a); }
  int a = 0;
  { I i(s); i >> bs::make_nvp("m", N); i >> bs::make_nvp("after", a); }
  vf_check(a == 42, "what follows in the archive is read back too");
  vf_check(N.rows() == M.rows() && N.cols() == M.cols(), "the same shape");
  bool r = true;
  for (int i = 0; i < M.rows(); ++i) for (int j = 0; j < M.cols(); ++j) r = r && M(i, j) == N(i, j);
  vf_check(r, "the same elements");
}
template <class T> static void archives() {
  T M;
  M.resize(T::RowsAtCompileTime == Eigen::Dynamic ? vf_count("rows", 4, 50) : T::RowsAtCompileTime, T::ColsAtCompileTime == Eigen::Dynamic ? vf_count("columns", 4, 50) : T::ColsAtCompileTime);
  for (int i = 0; i < M.rows() * M.cols(); ++i) M.data()[i] = typename T::Scalar(vf_real("element"));
  switch (vf_choice("archive", 3)) {
  case 0: boost_archive<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(M); break;
  case 1: boost_archive<boost::archive::text_oarchive, boost::archive::text_iarchive>(M); break;
  default: boost_archive<boost::archive::xml_oarchive, boost::archive::xml_iarchive>(M);
  }
}
VF_CHECK(C32, boost_archives) {
  switch (vf_choice("type", 11)) {
  case 0: archives<MatrixXd>(); break;
  case 1: archives<VectorXd>(); break;
  case 2: archives<Row>(); break;
  case 3: archives<Wide>(); break;
  case 4: archives<Tall>(); break;
  case 5: archives<Small>(); break;
  case 6: archives<Eigen::Matrix3d>(); break;
  case 7: archives<Eigen::MatrixXf>(); break;
  case 8: archives<Eigen::VectorXi>(); break;
  case 9: archives<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> >(); break;
  default: archives<Eigen::Matrix<float, 1, Eigen::Dynamic> >();
  }
}
VF_CHECK(C32, transforms) {
  Eigen::Affine3d T, U;
  for (int i = 0; i < 16; ++i) T.data()[i] = vf_real("element");
  std::stringstream s;
  { boost::archive::binary_oarchive o(s); o << bs::make_nvp("t", T); }
  { boost::archive::binary_iarchive i(s); i >> bs::make_nvp("t", U); }
  vf_check(U.matrix() == T.matrix(), "the same transform");
}
#endif
