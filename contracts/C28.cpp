// C28: hash identifiers
#include "contract.hpp"
#include <sm/hash_id.hpp>
#include <sstream>
using sm::HashId;

static HashId id(const char *a, const char *b, uint64_t *w) {
  w[0] = vf_bits(a, 64); w[1] = vf_bits(b, 64);
  return HashId(w);
}
static char digit(unsigned v) { return char(v < 10 ? '0' + v : 'a' + (v - 10)); }
// without branches
static bool hexdigit(unsigned char c) {
  unsigned x = c;
  return bool(unsigned(x - '0' < 10u) | unsigned(x - 'a' < 6u) | unsigned(x - 'A' < 6u));
}
static unsigned valueOf(unsigned char c) { return (c & 15u) + 9u * (c >> 6); }

VF_CHECK(C28, hexadecimal_text) {
  uint64_t w[2]; HashId h = id("x", "y", w);
  std::string s = h.hexString();
  vf_check(s.size() == 32, "two digits per byte");
  unsigned char b[16]; std::memcpy(b, w, 16);
  for (int i = 0; i < 16; ++i) {
    vf_check(s[2 * i] == digit(b[i] >> 4), "high digit of each byte, lower case");
    vf_check(s[2 * i + 1] == digit(b[i] & 15), "low digit of each byte, lower case");
  }
}
VF_CHECK(C28, text_round_trip) {
  uint64_t w[2], v[2]; HashId h = id("x", "y", w), g;
  vf_check(g.fromHexString(h.hexString()), "the text of an identifier is accepted");
  g.toUint64(v);
  vf_check(v[0] == w[0], "the same identifier"); vf_check(v[1] == w[1], "the same identifier");
  vf_check(g == h, "parses back to the same identifier");
}
// every text of the right length
VF_CHECK(C28, parsing) {
  uint64_t w[2], v[2]; HashId h = id("x", "y", w);
  std::string s(32, '0');
  bool hex = true;
  // natively mostly hexadecimal, with some other character now and then
  bool odd = vf_native() && vf_bool("odd"); int at = vf_native() ? vf_choice("at", 32) : 0;
  for (int i = 0; i < 32; ++i) {
    unsigned c = unsigned(vf_bits("c", 8));
    if (vf_native() && !(odd && i == at)) c = "0123456789abcdefABCDEFABCDEF0123"[c & 31];
    s[i] = char(c);
  }
  for (int i = 0; i < 32; ++i) hex = hex & hexdigit(s[i]);
  bool ok = h.fromHexString(s);
  h.toUint64(v);
  unsigned char b[16]; std::memcpy(b, v, 16);
  vf_check(ok == hex, "accepted exactly when every character is a hexadecimal digit");
  if (ok) {
    for (int i = 0; i < 16; ++i) vf_check(b[i] == valueOf(s[2 * i]) * 16 + valueOf(s[2 * i + 1]), "each byte is the value of its two digits");
    vf_reach("accepted");
  } else {
    vf_check(v[0] == w[0] && v[1] == w[1], "rejected text leaves the identifier unchanged");
    vf_reach("rejected");
  }
}
VF_CHECK(C28, text_of_another_length) {
  uint64_t w[2], v[2]; HashId h = id("x", "y", w);
  int n = vf_choice("n", 40);
  vf_assume(n != 32);
  vf_check(!h.fromHexString(std::string(n, 'a')), "text of another length is rejected");
  h.toUint64(v);
  vf_check(v[0] == w[0] && v[1] == w[1], "rejected text leaves the identifier unchanged");
}
VF_CHECK(C28, equality_and_order) {
  uint64_t w[2], v[2]; HashId a = id("x", "y", w), b = id("u", "v", v);
  bool same = w[0] == v[0] && w[1] == v[1];
  vf_check((a == b) == same, "equal exactly when all bytes are equal");
  vf_check((a != b) == !same, "unequal exactly when some byte differs");
  vf_check((a < b) == (b > a), "less and greater are converse");
  vf_check(!(a < a) && !(a > a), "irreflexive");
  vf_check(int(a < b) + int(a > b) + int(a == b) == 1, "exactly one of less, greater, equal");
  HashId c(a);
  vf_check(c == a, "copy"); c = b; vf_check(c == b, "assignment");
}
VF_CHECK(C28, order_is_transitive) {
  uint64_t w[2], v[2], t[2]; HashId a = id("x", "y", w), b = id("u", "v", v), c = id("s", "t", t);
  vf_assume(a < b); vf_assume(b < c);
  vf_check(a < c, "transitive");
}
VF_CHECK(C28, hashes) {
  uint64_t w[2], v[2]; HashId a = id("x", "y", w), b = id("u", "v", v);
  if (w[0] == v[0] && w[1] == v[1]) {
    vf_check(a.hashToSizeT() == b.hashToSizeT() && a.hashToSizeTFast() == b.hashToSizeTFast(), "equal identifiers have equal hashes");
    vf_check(std::hash<HashId>()(a) == std::hash<HashId>()(b), "equal identifiers have equal std::hash");
  }
  vf_check(std::hash<HashId>()(a) == a.hashToSizeT(), "std::hash");
}
VF_CHECK(C28, validity) {
  uint64_t w[2]; HashId a = id("x", "y", w), d;
  vf_check(a.isValid() == (w[0] != 0 || w[1] != 0), "valid unless cleared");
  vf_check(!d.isValid(), "default construction is invalid");
  a.setInvalid();
  uint64_t v[2]; a.toUint64(v);
  vf_check(!a.isValid() && a == d && v[0] == 0 && v[1] == 0, "clearing");
}
