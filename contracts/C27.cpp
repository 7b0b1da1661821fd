// C27: identifiers
#include "contract.hpp"
#include <sm/Id.hpp>
namespace c27 { SM_DEFINE_ID(PoseId); }
SM_DEFINE_ID_HASH(c27::PoseId);
using sm::Id; using sm::id_type; using c27::PoseId;

template <class T> static void comparisons() {
  id_type x = vf_bits("x", 64), y = vf_bits("y", 64);
  const T a(x), b(y);
  vf_check((a == b) == (x == y), "==");
  vf_check((a != b) == (x != y), "!=");
  vf_check((a < b) == (x < y), "<");
  vf_check((a > b) == (x > y), ">");
  vf_check((a <= b) == (x <= y), "<=");
  vf_check((a >= b) == (x >= y), ">=");
  vf_check(a.getId() == x && a.value() == x, "value");
  T c(a);
  vf_check(c.isBinaryEqual(b) == (x == y), "binary equality");
  vf_check(c == a, "copy");
  c = b;
  vf_check(c.getId() == y, "assignment");
}
VF_CHECK(C27, comparisons_of_ids) { comparisons<Id>(); }
VF_CHECK(C27, comparisons_of_defined_ids) { comparisons<PoseId>(); }
template <class T> static void increments() {
  id_type x = vf_bits("x", 64);
  T a(x), b(x);
  id_type r = (++a).getId();
  vf_check(r == x + 1 && a.getId() == x + 1, "pre-increment advances by one and returns the new identifier");
  vf_check(&(++b) == &b, "pre-increment returns the identifier itself");
  T c(x);
  id_type o = (c++).getId();
  vf_check(o == x, "post-increment returns the old identifier");
  vf_check(c.getId() == x + 1, "post-increment advances by one");
}
VF_CHECK(C27, increments_of_ids) { increments<Id>(); }
VF_CHECK(C27, increments_of_defined_ids) { increments<PoseId>(); }
template <class T> static void set_state() {
  id_type x = vf_bits("x", 64);
  const id_type reserved = ~id_type(0);
  T a(x), d;
  vf_check(a.isSet() == (x != reserved), "set unless it is the reserved value");
  vf_check(!d.isSet() && d.getId() == reserved, "default construction is unset");
  a.clear();
  vf_check(!a.isSet() && a.getId() == reserved, "cleared is unset");
}
VF_CHECK(C27, set_state_of_ids) { set_state<Id>(); }
VF_CHECK(C27, set_state_of_defined_ids) { set_state<PoseId>(); }
VF_CHECK(C27, swap) {
  id_type x = vf_bits("x", 64), y = vf_bits("y", 64);
  Id a(x), b(y);
  a.swap(b);
  vf_check(a.getId() == y && b.getId() == x, "swapped");
}
VF_CHECK(C27, hashes) {
  id_type x = vf_bits("x", 64), y = vf_bits("y", 64);
  PoseId a(x), b(y);
  std::hash<PoseId> h; boost::hash<PoseId> g;
  vf_check(h(a) == x, "std::hash is the number");
  if (x == y) vf_check(h(a) == h(b) && g(a) == g(b), "equal identifiers have equal hashes");
  else { vf_check(h(a) != h(b), "distinct identifiers have distinct hashes"); vf_check(g(a) != g(b), "distinct identifiers have distinct boost hashes"); }
}
