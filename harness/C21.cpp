//@ quick M=3 L=30 Q=9
//@ thorough M=4 L=60 Q=9
//@ bounds Capacities 1..M in every reachable state (up to M arbitrary 8-bit labels in every order of use, arbitrary values), one or two failing calls with an arbitrary label, then a successful put; any one of the element copies or allocations inside a put failing; progressions of up to L labels; capacities up to 300; up to 300 failing calls.
//@ outside Comparison functions that throw; larger capacities in arbitrary states; failing calls in the middle of longer histories.
#include "lru.hpp"
template <class L, class V> static void unchanged(LRUCache<L, V>& c, const Ref& r) { held(c, r, "a failing call changes no label"); ages(c, r, "a failing call changes no age"); values(c, r, "a failing call changes no value"); ages(c, r, "a failing call changes no age"); }
template <class L, class V> static void fail(LRUCache<L, V>& c, const Ref& r, int l) { const L k = Mk<L>::of(l); bool had = r.has(l); if (!had) { if (vs::boolean("get")) { CHECK(vs::outcome<std::runtime_error>([&] { c.get(k); }) == 1, "get of an absent label throws runtime_error"); vs_reach("get"); } else { CHECK(vs::outcome<std::runtime_error>([&] { c.age(k); }) == 1, "age of an absent label throws runtime_error"); vs_reach("age"); } } else { const V v = Mk<V>::of(vs::i32("w")); CHECK(vs::outcome<std::runtime_error>([&] { c.put(k, v); }) == 1, "put of a present label throws runtime_error"); vs_reach("put"); } unchanged(c, r); }
template <class L, class V> static void usable(LRUCache<L, V>& c, Ref& r) { put(c, r, 500, 7); held(c, r, "the cache keeps working after a failing call"); ages(c, r, "the cache keeps working after a failing call"); values(c, r, "the cache keeps working after a failing call"); }
TEST(preconditions) { size_t cap = vs::pick(1, vs::param("M", 3), "cap"), n = vs::pick(0, cap, "n"); LRUCache<Lab, int> c(cap); Ref r(cap); prefill(c, r, n); fail(c, r, label()); if (vs::boolean("again")) fail(c, r, label()); usable(c, r); }
TEST(preconditions_elem) { long b = vs_heap_live(); { size_t cap = vs::pick(1, 2, "cap"), n = vs::pick(0, cap, "n"); LRUCache<Elem, Elem> c(cap); Ref r(cap); prefill(c, r, n); fail(c, r, label()); usable(c, r); } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "nothing leaks"); }
TEST(after_use) { LRUCache<Lab, int> c(2); Ref r(2); int a = label(), b = label(); ASSUME(a != b); put(c, r, a, vs::i32("v")); put(c, r, b, vs::i32("v")); int q = label(); fail(c, r, q); c.get(a); r.use(1); fail(c, r, label()); usable(c, r); fail(c, r, q); }
TEST(large) { size_t L = vs::param("L", 30), n = L * vs::pick(1, 3, "n") / 3; size_t cap = n + vs::pick(0, 1, "spare"); LRUCache<int, int> c(cap); Ref r(cap); for (size_t i = 0; i < n; ++i) put(c, r, (int)(i * 11 % 67), vs::i32("v")); fail(c, r, (int)vs::pick(0, 66, "l")); usable(c, r); }
// copying the label or the value throws
template <class L, class V> static void boom() { long b = vs_heap_live(); { size_t cap = vs::pick(1, 3, "cap"), n = vs::pick(0, cap, "n"); LRUCache<L, V> c(cap); Ref r(cap); prefill(c, r, n); int q = label(); ASSUME(!r.has(q)); const L k = Mk<L>::of(q); int w = vs::i32("w"); const V v = Mk<V>::of(w); long live = vs::cnt().live; long t = vs::pick(0, 9, "t"); vs::cnt().throw_at = t; int o = vs::outcome<vs::Boom>([&] { c.put(k, v); }); vs::cnt().throw_at = -1; CHECK(o != 2, "the exception of a copy propagates"); if (o == 1) { CHECK(vs::cnt().live == live, "no element is leaked or destroyed by a put that fails"); unchanged(c, r); vs_reach("thrown"); c.put(k, v); } r.put(q, w); held(c, r, "the cache keeps working after a failed copy"); ages(c, r, "the cache keeps working after a failed copy"); values(c, r, "the cache keeps working after a failed copy"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "nothing leaks"); }
TEST(value_copy) { boom<int, Elem>(); }
TEST(label_copy) { boom<Elem, int>(); }
TEST(both_copies) { boom<Elem, Elem>(); }
TEST(allocation) { size_t cap = vs::pick(1, 2, "cap"), n = vs::pick(0, cap, "n"); long b = vs_heap_live(); { LRUCache<int, Elem> c(cap); Ref r(cap); prefill(c, r, n); int q = label(); ASSUME(!r.has(q)); const Elem v(vs::i32("w")); long t = vs::pick(0, 4, "t"); vs_fail_alloc(t); int o = vs::outcome<std::bad_alloc>([&] { c.put(q, v); }); vs_fail_alloc(-1); CHECK(o != 2, "a failed allocation is reported as bad_alloc"); if (o == 1) { unchanged(c, r); vs_reach("failed"); c.put(q, v); } r.put(q, v.get()); held(c, r, "the cache keeps working after a failed allocation"); ages(c, r, "the cache keeps working after a failed allocation"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "nothing leaks"); }
TEST(many_labels) { size_t cap = big_cap(vs::pick(0, vs::param("Q", 9), "cap")), n = cap - vs::pick(0, 1, "free"); LRUCache<int, int> c(cap); Ref r(cap); fill(c, r, n); long p = vs::pick(0, 3, "which"); int l = p == 3 ? 5000 : r.l[(r.n - 1) * p / 2]; fail(c, r, l); usable(c, r); fail(c, r, l); }
TEST(many_failures) { size_t cap = vs::pick(1, 3, "cap"), n = vs::pick(0, cap, "n"); LRUCache<int, int> c(cap); Ref r(cap); fill(c, r, n); long k = n ? vs::pick(0, 3, "kind") : vs::pick(0, 1, "kind"); int bad = 0; for (int i = 0; i < 300; ++i) bad += vs::outcome<std::runtime_error>([&] { long q = k == 3 ? i % 3 : k; if (q == 0) c.get(5000); else if (q == 1) c.age(5000); else c.put(r.l[i % n], 3); }) == 1; CHECK(bad == 300, "every failing call throws runtime_error"); unchanged(c, r); usable(c, r); }
