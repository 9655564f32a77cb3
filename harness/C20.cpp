//@ quick M=3 H=2 T=4 L=30 Q=9 S=600
//@ thorough M=4 H=3 T=6 L=60 Q=9 S=70000
//@ bounds Capacities 1..M in every reachable state (up to M arbitrary 8-bit labels in every order of use, arbitrary 32-bit values) followed by every history of up to H put/get/age calls with an arbitrary label, all values and ages being compared after every call; every history of T calls over 3 or 4 labels for capacities 1..3; capacities up to L; capacities up to 300 with one use; S calls (66000 for capacity 3) on capacities up to 5 followed by any step.
//@ outside Larger capacities with arbitrary orders of use; longer histories; calls that throw (C21).
#include "lru.hpp"
template <class L, class V> static void step(LRUCache<L, V>& c, Ref& r, int l) {
  bool had = r.has(l); const L k = Mk<L>::of(l);
  if (!had) { put(c, r, l, vs::i32("v")); vs_reach("put"); }
  else if (vs::boolean("get")) { const V& x = c.get(k); CHECK(num(x) == r.v[r.at(l)], "get returns the value put under the label"); r.use(r.at(l)); vs_reach("get"); CHECK(c.age(k) == 0, "a label just used has age 0"); }
  else CHECK(c.age(k) == r.at(l), "age is the number of labels used more recently");
  ages(c, r, "the ages are the positions in the order of use");
}
template <class L, class V> static void finish(LRUCache<L, V>& c, Ref& r) { values(c, r, "get returns the value put under the label"); ages(c, r, "reading the values oldest first restores the order of use"); }
TEST(states) { size_t cap = vs::pick(1, vs::param("M", 3), "cap"), n = vs::pick(0, cap, "n"), h = vs::pick(0, vs::param("H", 2), "h"); LRUCache<int, int> c(cap); Ref r(cap); prefill(c, r, n); ages(c, r, "the ages are the positions in the order of use"); for (size_t i = 0; i < h; ++i) step(c, r, label()); finish(c, r); }
TEST(histories) { size_t cap = vs::pick(1, 3, "cap"), A = cap == 3 ? 4 : 3, T = vs::param("T", 4); LRUCache<int, int> c(cap); Ref r(cap); for (size_t i = 0; i < T; ++i) step(c, r, (int)vs::pick(0, A - 1, "l")); finish(c, r); }
TEST(elem) { long b = vs_heap_live(); { size_t cap = vs::pick(1, 2, "cap"), n = vs::pick(0, cap, "n"); LRUCache<Elem, Elem> c(cap); Ref r(cap); prefill(c, r, n); step(c, r, label()); step(c, r, label()); finish(c, r); } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "nothing leaks"); }
TEST(strings) { size_t cap = vs::pick(1, 3, "cap"); LRUCache<std::string, std::string> c(cap); Ref r(cap); for (int i = 0; i < 5; ++i) { int l = vs::pick(0, 3, "l"); if (r.has(l)) { CHECK(num(c.get(Mk<std::string>::of(l))) == r.v[r.at(l)], "get returns the value put under the label"); r.use(r.at(l)); } else put(c, r, l, 2 * i + 1); ages(c, r, "the ages are the positions in the order of use"); } finish(c, r); }
TEST(large) { size_t L = vs::param("L", 30), cap = L * vs::pick(1, 3, "cap") / 3; LRUCache<int, int> c(cap); Ref r(cap); int mul = vs::flag("down") ? -7 : 11; size_t n = cap - (vs::flag("full") ? 0 : 1); for (size_t i = 0; i < n; ++i) put(c, r, ((int)i * mul % 67 + 67) % 67, vs::i32("v")); ages(c, r, "the ages are the positions in the order of use"); step(c, r, (int)vs::pick(0, 66, "l")); step(c, r, 70); step(c, r, r.l[n / 2]); finish(c, r); }
template <class V> static void reference() { size_t cap = vs::pick(1, 3, "cap"), n = vs::pick(1, cap, "n"); LRUCache<int, V> c(cap); Ref r(cap); prefill(c, r, n); int q = label(); ASSUME(!r.has(q)); size_t p = vs::pick(0, n - 1, "p"); int l = r.l[p], v = r.v[p]; const V& x = c.get(l); r.use(p); for (size_t i = 0; i + 1 < r.n; ++i) if (vs::boolean("age it")) { int o = r.l[r.n - 1]; c.get(o); r.use(r.n - 1); } c.put(q, x); r.put(q, v); ages(c, r, "the ages are the positions in the order of use"); finish(c, r); }
TEST(reference_into_cache) { reference<int>(); }
TEST(reference_into_cache_elem) { long b = vs_heap_live(); reference<Elem>(); CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "nothing leaks"); }
TEST(same_value_under_two_labels) { LRUCache<int, int> c(2); Ref r(2); int a = label(), b = label(), v = vs::i32("v"); ASSUME(a != b); put(c, r, a, v); put(c, r, b, v); c.get(a); r.use(1); finish(c, r); }
TEST(many_labels) { size_t cap = big_cap(vs::pick(0, vs::param("Q", 9), "cap")), n = cap - vs::pick(0, 1, "free"); LRUCache<int, int> c(cap); Ref r(cap); fill(c, r, n); ages(c, r, "the ages are the positions in the order of use"); size_t p = vs::pick(0, 4, "use"); step(c, r, p == 4 ? 5000 : r.l[(r.n - 1) * p / 3]); step(c, r, 5001); step(c, r, r.l[r.n - 1]); finish(c, r); }
TEST(many_calls) { size_t cap = vs::pick(1, 5, "cap"), S = cap == 3 ? 66000 : vs::param("S", 600); LRUCache<int, int> c(cap); Ref r(cap); unsigned h = 12345; bool ok = true; for (size_t i = 0; i < S; ++i) { h = h * 1103515245 + 12345; int l = (h >> 16) % (cap + 2); size_t p = r.at(l); if (p == r.n) put(c, r, l, (int)i); else if (h >> 28 & 1) { ok = ok & (c.get(l) == r.v[p]); r.use(p); } else ok = ok & (c.age(l) == p); } CHECK(ok, "get returns the value put under the label, age the position in the order of use"); ages(c, r, "the ages are the positions in the order of use"); step(c, r, (int)vs::pick(0, cap + 1, "l")); step(c, r, 1000); finish(c, r); }
