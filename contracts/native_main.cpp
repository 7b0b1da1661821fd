// Native evaluation of contracts: replay of counterexamples and directed random search.
#include "contract.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
#include <random>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>

struct Check { const char *prop, *name; void (*fn)(); };
static std::vector<Check> &checks() { static std::vector<Check> c; return c; }
vf_registrar::vf_registrar(const char *p, const char *n, void (*f)()) { checks().push_back({p, n, f}); }

struct vf_skip {};
struct vf_violation { std::string what; };

static std::map<std::string, std::string> given;   // inputs fixed by a replay file
static std::map<std::string, std::string> used;    // inputs of this evaluation
static std::map<std::string, long> reached;
static std::mt19937_64 rng;
static int fam = 0;
static double gscale = 1;
static bool failed = false;
static long nchecks = 0;

static double U(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
static double Nn() { return std::normal_distribution<double>(0, 1.5)(rng); }
static std::map<std::string, int> cnt;
static std::string key(const char *name) { int k = cnt[name]++; return k ? name + ("#" + std::to_string(k)) : std::string(name); }
static std::string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

static double one(double scale) {
  switch (fam) {
  case 5: return double(long(rng() % 5) - 2);
  case 7: return (rng() & 1) ? 0.0 : Nn() * scale;
  default: return Nn() * scale;
  }
}
static double groupscale() {
  if (fam == 4) return std::pow(10.0, U(-17, 0));
  if (fam == 6) return std::pow(10.0, U(0, 2));
  if (fam == 7 && rng() % 4 == 0) return 0;
  return 1;
}
static bool lookup(const std::string &k, double &d) {
  auto i = given.find(k);
  if (i == given.end()) return false;
  d = strtod(i->second.c_str(), 0);
  used[k] = hexd(d);
  return true;
}

extern "C" {
int vf_native() { return 1; }
double vf_real(const char *name) {
  const std::string kk = key(name);
  double d; if (lookup(kk, d)) return d;
  d = one(groupscale()); used[kk] = hexd(d); return d;
}
double vf_angle(const char *name) {
  const std::string kk = key(name);
  double d; if (lookup(kk, d)) return d;
  if (fam == 7) { static const double sp[] = {0, M_PI, -M_PI, M_PI / 2, -M_PI / 2, 2 * M_PI, 1e-9, -1e-9, 3, 100, M_PI / 4, 7}; d = sp[rng() % 12]; }
  else d = one(groupscale());
  used[kk] = hexd(d); return d;
}
void vf_vec(const char *name, int n, double *out) {
  double sc = groupscale();
  const std::string kk = key(name);
  for (int i = 0; i < n; ++i) {
    std::string k = kk + std::to_string(i);
    if (!lookup(k, out[i])) { out[i] = one(sc); used[k] = hexd(out[i]); }
  }
}
void vf_unit(const char *name, int n, double *out) {
  const std::string kk = key(name);
  bool all = true;
  for (int i = 0; i < n; ++i) all &= lookup(kk + std::to_string(i), out[i]);
  if (!all) {
    for (int i = 0; i < n; ++i) out[i] = (fam == 5) ? double(long(rng() % 3) - 1) : Nn();
    if (fam == 4) { double s = std::pow(10.0, U(-12, -0.5)); for (int i = 0; i < n; ++i) out[i] *= s; out[n - 1] = rng() % 5 ? 1 : -1; }
    if (fam == 7) out[n - 1] = 0;
  }
  double s = 0; for (int i = 0; i < n; ++i) s += out[i] * out[i];
  if (s == 0) { out[n - 1] = 1; s = 1; }
  s = std::sqrt(s);
  if (std::fabs(s - 1) > 1e-15) for (int i = 0; i < n; ++i) out[i] /= s;
  for (int i = 0; i < n; ++i) used[kk + std::to_string(i)] = hexd(out[i]);
}
double vf_fp64(const char *name) {
  const std::string kk = key(name);
  double d; if (lookup(kk, d)) return d;
  switch (rng() % 6) {
  case 0: { uint64_t b = rng(); memcpy(&d, &b, 8); break; }
  case 1: { static const double sp[] = {0, -0.0, 1, -1, INFINITY, -INFINITY, NAN, 0.5, 1.5, 2.5, -0.5, -1.5, 4503599627370496.5, 9007199254740993.0, 1e300, -1e300, 5e-324, 2147483647.0, 2147483648.0, -2147483648.0, 4294967296.5, 0.49999999999999994};
            d = sp[rng() % (sizeof(sp) / sizeof(*sp))]; break; }
  case 2: d = double(int64_t(rng()) >> (rng() % 60)) / 2; break;
  case 3: d = Nn() * std::pow(10.0, U(-10, 15)); break;
  default: d = Nn(); }
  used[kk] = hexd(d); return d;
}
float vf_fp32(const char *name) {
  const std::string kk = key(name);
  double d; if (lookup(kk, d)) return float(d);
  float f;
  switch (rng() % 5) {
  case 0: { uint32_t b = rng(); memcpy(&f, &b, 4); break; }
  case 1: { static const float sp[] = {0, -0.0f, 1, -1, INFINITY, -INFINITY, NAN, 0.5f, 1.5f, 2.5f, -0.5f, -1.5f, 8388607.5f, 16777217.0f, 2147483648.0f, 0.49999997f}; f = sp[rng() % 16]; break; }
  case 2: f = float(int64_t(rng()) >> (rng() % 60)) / 2; break;
  default: f = float(Nn()); }
  used[kk] = hexd(f); return f;
}
uint64_t vf_bits(const char *name, int width) {
  const std::string kk = key(name);
  auto i = given.find(kk);
  uint64_t v;
  uint64_t m = width >= 64 ? ~0ull : (1ull << width) - 1;
  if (i != given.end()) v = strtoull(i->second.c_str(), 0, 10);
  else switch (rng() % 6) {
    case 0: v = rng(); break;
    case 1: v = rng() % 4; break;
    case 2: v = m - rng() % 4; break;
    case 3: v = (m >> 1) + rng() % 4 - 2; break;
    case 4: v = rng() >> (rng() % 64); break;
    default: v = rng() % 100;
  }
  v &= m;
  used[kk] = std::to_string(v);
  return v;
}
int64_t vf_integer(const char *name) {
  const std::string kk = key(name);
  auto i = given.find(kk);
  if (i != given.end()) { int64_t v = i->second.find_first_of(".e") == std::string::npos ? strtoll(i->second.c_str(), 0, 10) : int64_t(strtod(i->second.c_str(), 0)); used[kk] = std::to_string(v); return v; }
  int64_t v = int64_t(vf_bits("integer", 64));
  used[kk] = std::to_string(v);
  return v;
}
int vf_choice(const char *name, int n) {
  const std::string kk = key(name);
  auto i = given.find(kk);
  int v = i != given.end() ? atoi(i->second.c_str()) : int(rng() % n);
  used[kk] = std::to_string(v);
  return v;
}
bool vf_bool(const char *name) { return vf_choice(name, 2) != 0; }
double vf_havoc(const char *) { return 0; }
void vf_candidate(double) {}
void vf_split(bool) {}
void vf_assume(bool c) { if (!c) throw vf_skip(); }
void vf_requires(bool, const char *) {}
static void fail(const std::string &w) { throw vf_violation{w}; }
void vf_check(bool c, const char *name) { ++nchecks; if (!c) fail(name); }
void vf_lemma(bool, const char *) {}
void vf_check_eq(double a, double b, double scale, const char *name) {
  ++nchecks;
  if (a == b) return;
  double s = std::fmax(std::fmax(std::fabs(a), std::fabs(b)), scale);
  if (!(std::fabs(a - b) <= 1e-8 * s)) { char buf[512]; snprintf(buf, sizeof buf, "%s: %.17g != %.17g", name, a, b); fail(buf); }
}
void vf_check_near(double a, double b, double tol, const char *name) {
  ++nchecks;
  if (!(std::fabs(a - b) <= tol)) { char buf[512]; snprintf(buf, sizeof buf, "%s: |%.17g - %.17g| > %g", name, a, b, tol); fail(buf); }
}
void vf_check_le(double a, double b, double slack, const char *name) {
  ++nchecks;
  if (!(a <= b + slack)) { char buf[512]; snprintf(buf, sizeof buf, "%s: %.17g > %.17g", name, a, b); fail(buf); }
}
void vf_reach(const char *name) { ++reached[name]; }
void vf_body(const void *) {}
void vf_bind(const void *, const void *) {}
double vf_scale(double x) { return x < 0 ? -x : x; }
}

// strings: arbitrary text, mostly over a small alphabet that includes the separators that matter
extern "C" void vf_text(const char *name, std::string *out, const char *alphabet) {
  const std::string kk = key(name);
  auto i = given.find(kk);
  std::string s;
  if (i != given.end()) {
    for (size_t k = 0; k + 1 < i->second.size(); k += 2) s.push_back(char(strtol(i->second.substr(k, 2).c_str(), 0, 16)));   // hexadecimal
  } else {
    size_t n = rng() % 9;
    if (rng() % 3 == 0) n = rng() % 3;
    if (rng() % 24 == 0) n = rng() % (8u << rng() % 7);
    size_t al = strlen(alphabet);
    bool any = rng() % 16 == 0;
    for (size_t k = 0; k < n; ++k) s.push_back(any ? char(1 + rng() % 255) : alphabet[rng() % al]);
  }
  std::string h; char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); h += b; }
  used[kk] = h;
  *out = s;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o;
}
static void report(const Check &c, const std::string &what, uint64_t seed, long it) {
  printf("{\"check\":\"%s\",\"failed\":\"%s\",\"seed\":%llu,\"iteration\":%ld,\"inputs\":{", c.name, jesc(what).c_str(), (unsigned long long)seed, it);
  bool first = true;
  for (auto &u : used) { printf("%s\"%s\":\"%s\"", first ? "" : ",", jesc(u.first).c_str(), jesc(u.second).c_str()); first = false; }
  printf("}}\n");
  fflush(stdout);
}
// An internal assertion of the code under test that is missed by rounding only ("[2.0e-15 < 1.8e-15]"): the property
// is stated over the reals and the evaluation does not count.
static bool rounding_only(const std::string &m) {
  size_t f = m.find("assert"), p = m.find(" failed [");
  double a, b;
  if (f == std::string::npos || p == std::string::npos || sscanf(m.c_str() + p, " failed [%lf <%*[= ]%lf]", &a, &b) != 2) 
    if (p == std::string::npos || sscanf(m.c_str() + p, " failed [%lf < %lf]", &a, &b) != 2) return false;
  return a >= b && a < 1e-13 && b > 0 && b < 1e-14;
}
static int evaluate(const Check &c, std::string &what) {
  try { c.fn(); return 0; }
  catch (const vf_skip &) { return 1; }
  catch (const vf_violation &v) { what = v.what; return 2; }
  catch (const std::exception &e) { if (rounding_only(e.what())) return 1; what = std::string("unexpected exception: ") + e.what(); return 2; }
  catch (...) { what = "unexpected exception of unknown type"; return 2; }
}
struct Shared { long it; long done, skipped; };
static void prep(uint64_t seed, long it) {
  used.clear();
  cnt.clear();
  rng.seed(seed * 1000003ull + uint64_t(it) * 2654435761ull + 17);
  fam = it % 8;
}
int main(int argc, char **argv) {
  std::string cmd = argc > 1 ? argv[1] : "list";
  if (cmd == "list") { for (auto &c : checks()) printf("%s %s\n", c.prop, c.name); return 0; }
  Check *c = nullptr;
  for (auto &x : checks()) if (argc > 2 && std::string(x.name) == argv[2]) c = &x;
  if (!c) { fprintf(stderr, "no such check\n"); return 3; }
  if (cmd == "replay") {       // replay NAME FILE (lines name=value) | replay NAME seed iteration
    if (argc > 4) { prep(strtoull(argv[3], 0, 10), atol(argv[4])); }
    else { std::ifstream f(argv[3]); std::string l; while (std::getline(f, l)) { auto p = l.find('='); if (p != std::string::npos) given[l.substr(0, p)] = l.substr(p + 1); }
      rng.seed(1); }
    std::string what; int r = evaluate(*c, what);
    if (r == 2) { report(*c, what, 0, 0); return 1; }
    printf("%s\n", r == 1 ? "skipped" : "ok");
    return 0;
  }
  // run NAME seed seconds maxit
  uint64_t seed = strtoull(argv[3], 0, 10);
  double secs = atof(argv[4]);
  long maxit = atol(argv[5]);
  Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    auto t0 = std::chrono::steady_clock::now();
    for (long it = 0; it < maxit; ++it) {
      if ((it & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
      sh->it = it;
      prep(seed, it);
      std::string what;
      int r = evaluate(*c, what);
      if (r == 1) { ++sh->skipped; continue; }
      ++sh->done;
      if (r == 2) { report(*c, what, seed, it); _exit(1); }
    }
    printf("{\"reach\":{"); bool first = true;
    for (auto &u : reached) { printf("%s\"%s\":%ld", first ? "" : ",", jesc(u.first).c_str(), u.second); first = false; }
    printf("},\"checks\":%ld}\n", nchecks);
    fflush(stdout);
    _exit(0);
  }
  int st = 0;
  double limit = secs + 20;
  auto t0 = std::chrono::steady_clock::now();
  bool hung = false;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
    usleep(2000);
  }
  if (hung || !WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1)) {
    std::string w = hung ? "does not terminate" : "process died";
    if (!hung && WIFSIGNALED(st)) w += std::string(" (signal ") + std::to_string(WTERMSIG(st)) + ")";
    used.clear();
    report(*c, w, seed, sh->it);
    return 1;
  }
  printf("{\"evaluations\":%ld,\"skipped\":%ld}\n", sh->done, sh->skipped);
  return WEXITSTATUS(st);
}
