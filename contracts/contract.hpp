// Contract language: the same contract text is compiled to LLVM IR (verifier: all inputs at once) and natively
// (replay / vacuity: one concrete input at a time).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>

extern "C" {
int vf_native();                                         // 1 in the native build
double vf_real(const char *name);                        // arbitrary real
double vf_angle(const char *name);                       // arbitrary real, usually of moderate size
void vf_vec(const char *name, int n, double *out);       // n arbitrary reals
void vf_unit(const char *name, int n, double *out);      // arbitrary unit vector of dimension n
double vf_fp64(const char *name);                        // arbitrary IEEE double (bit-precise mode)
float vf_fp32(const char *name);
uint64_t vf_bits(const char *name, int width);           // arbitrary bit vector
int64_t vf_integer(const char *name);                     // arbitrary 64-bit integer (a real number in real mode)
int vf_choice(const char *name, int n);                  // 0..n-1, enumerated
bool vf_bool(const char *name);
double vf_havoc(const char *name);                       // arbitrary result value (contracts used at call sites)
double vf_scale(double x);                               // |x| natively (error scales); 1 in the proofs
void vf_candidate(double x);                             // proof hint (never an assumption)
void vf_assume(bool c);                                  // requires (at an entry)
void vf_requires(bool c, const char *name);              // requires of a contract used at a call site: an obligation
void vf_check(bool c, const char *name);                 // ensures
void vf_check_eq(double a, double b, double scale, const char *name);
void vf_check_near(double a, double b, double tol, const char *name); // |a-b| <= tol (proved over the reals)
void vf_check_le(double a, double b, double slack, const char *name); // a <= b; slack is for the native build only
void vf_reach(const char *name);                         // must be reachable (vacuity)
void vf_body(const void *f);                             // function whose body (not contract) is used
void vf_bind(const void *real, const void *spec);        // contract of real used at call sites
void vf_lemma(bool c, const char *name);                 // obligation, then usable as a fact
void vf_split(bool c);                                   // proof hint: case split
}

struct vf_registrar {
  vf_registrar(const char *prop, const char *name, void (*f)());
};

// 0..usual-1, sometimes up to rarely-1 (native evaluation)
inline int vf_count(const char *name, int usual, int rarely) { return vf_choice("rarely more", 12) ? vf_choice(name, usual) : vf_choice(name, rarely); }

#ifdef VF_NATIVE
#define VF_CHECK(prop, name)                                              \
  extern "C" void vf_check__##prop##__##name();                           \
  static vf_registrar vf_reg_##prop##_##name(#prop, #name, &vf_check__##prop##__##name); \
  extern "C" void vf_check__##prop##__##name()
#else
#define VF_CHECK(prop, name) extern "C" void vf_check__##prop##__##name()
#endif

template <typename R, typename C, typename... A>
inline const void *vf_m(R (C::*p)(A...)) { const void *r[2]; std::memcpy(r, &p, sizeof(r)); return r[0]; }
template <typename R, typename C, typename... A>
inline const void *vf_m(R (C::*p)(A...) const) { const void *r[2]; std::memcpy(r, &p, sizeof(r)); return r[0]; }
template <typename R, typename... A>
inline const void *vf_p(R (*p)(A...)) { return reinterpret_cast<const void *>(p); }
template <typename F>
inline const void *vf_sig(F *p) { return reinterpret_cast<const void *>(p); }
extern "C" void vf_text(const char *name, std::string *out, const char *alphabet); // arbitrary text (natively over the alphabet, mostly)
inline std::string vf_str(const char *name, const char *alphabet = "/ab.") { std::string s; vf_text(name, &s, alphabet); return s; }

extern "C" void vf_arbitrary_environment(const char *name);  // (verifier only) environment variables have arbitrary values

// an arbitrary set of texts / map from texts to texts
#include <map>
#include <set>
extern "C" void vf_arbitrary_set(void *s, const char *name);
extern "C" void vf_arbitrary_map(void *m, const char *name);
inline void vf_any(std::set<std::string> &s, const char *name, const char *alphabet = "/ab.") {
#ifdef VF_NATIVE
  for (int i = vf_choice(name, 4); i > 0; --i) s.insert(vf_str(name, alphabet));
#else
  vf_arbitrary_set(&s, name);
#endif
}
inline void vf_any(std::map<std::string, std::string> &m, const char *name, const char *alphabet = "/ab.") {
#ifdef VF_NATIVE
  for (int i = vf_choice(name, 4); i > 0; --i) m[vf_str(name, alphabet)] = vf_str(name, alphabet);
#else
  vf_arbitrary_map(&m, name);
#endif
}
#ifdef EIGEN_CORE_H
// an arbitrary map from texts to matrices (verifier: of up to 2x2 elements)
inline void vf_any(std::map<std::string, Eigen::MatrixXd> &m, const char *name, const char *alphabet = "/ab.") {
#ifdef VF_NATIVE
  for (int i = vf_choice(name, 4); i > 0; --i) {
    int r = vf_choice("rows", 4), c = vf_choice("columns", 4);
    Eigen::MatrixXd v(r, c);
    for (int k = 0; k < r * c; ++k) v.data()[k] = vf_fp64("element");
    m[vf_str(name, alphabet)] = v;
  }
#else
  vf_arbitrary_map(&m, name);
#endif
}
#endif
