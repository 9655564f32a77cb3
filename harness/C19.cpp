//@ quick M=3 H=2 T=5 L=30 Q=9 S=600
//@ thorough M=4 H=3 T=7 L=60 Q=9 S=70000
//@ bounds Capacities 1..M in every reachable state (up to M arbitrary 8-bit labels in every order of use) followed by every history of up to H put/get/age/has_label calls with an arbitrary label; every history of T calls over 3 or 4 labels for capacities 1..3; capacities up to L filled, then every position used or evicted; capacities up to 300 with one use and evictions; S calls (66000 for capacity 3) on capacities up to 5 followed by any step; any 64-bit construction size for the precondition.
//@ outside Larger capacities with arbitrary orders of use; longer histories; calls that throw (C21).
#include "lru.hpp"
template <class L, class V> static void step(LRUCache<L, V>& c, Ref& r, int l) {
  bool had = r.has(l); const L k = Mk<L>::of(l); CHECK(c.has_label(k) == had, "has_label tells whether the label is held");
  if (!had) { int v = vs::i32("v"); bool full = r.n == r.cap; int old = full ? r.l[r.n - 1] : 0; put(c, r, l, v); vs_reach(full ? "eviction" : "addition"); if (full) CHECK(!c.has_label(Mk<L>::of(old)), "a put into a full cache removes the least recently used label"); }
  else if (vs::boolean("get")) { c.get(k); r.use(r.at(l)); vs_reach("get"); }
  else { c.age(k); vs_reach("age"); }
  held(c, r, "the cache holds exactly the most recently used labels");
}
template <class L, class V> static void order(LRUCache<L, V>& c, Ref& r) { // evict all, one by one: the order of eviction is the order of use
  for (int i = 0; r.n && i < 100; ++i) { int l = 1000 + i; size_t n = r.n; if (n > 0 && r.l[n - 1] >= 1000) break; put(c, r, l, i); held(c, r, "labels are evicted in the order of their last use"); } }
TEST(states) { size_t cap = vs::pick(1, vs::param("M", 3), "cap"), n = vs::pick(0, cap, "n"), h = vs::pick(0, vs::param("H", 2), "h"); LRUCache<int, int> c(cap); Ref r(cap); prefill(c, r, n); held(c, r, "the cache holds the labels put"); for (size_t i = 0; i < h; ++i) step(c, r, label()); order(c, r); }
TEST(histories) { size_t cap = vs::pick(1, 3, "cap"), A = cap == 3 ? 4 : 3, T = vs::param("T", 5); LRUCache<int, int> c(cap); Ref r(cap); for (size_t i = 0; i < T; ++i) step(c, r, (int)vs::pick(0, A - 1, "l")); order(c, r); }
TEST(elem) { long b = vs_heap_live(); { size_t cap = vs::pick(1, 2, "cap"), n = vs::pick(0, cap, "n"); LRUCache<Elem, Elem> c(cap); Ref r(cap); prefill(c, r, n); step(c, r, label()); step(c, r, label()); CHECK(vs::cnt().live == (long)(2 * r.n), "exactly the held labels and values are alive"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "nothing leaks"); }
TEST(strings) { size_t cap = vs::pick(1, 3, "cap"); LRUCache<std::string, std::string> c(cap); Ref r(cap); for (int i = 0; i < 5; ++i) step(c, r, (int)vs::pick(0, 3, "l")); order(c, r); }
TEST(large) { size_t L = vs::param("L", 30), cap = L * vs::pick(1, 3, "cap") / 3; LRUCache<int, int> c(cap); Ref r(cap); int mul = vs::flag("down") ? -7 : 11; size_t n = cap - (vs::flag("full") ? 0 : 1); for (size_t i = 0; i < n; ++i) put(c, r, ((int)i * mul % 67 + 67) % 67, (int)i); held(c, r, "the cache holds the labels put"); step(c, r, (int)vs::pick(0, 66, "l")); step(c, r, 70); step(c, r, r.l[n / 2]); order(c, r); }
TEST(construction) { uint64_t n = vs::u64("n"); int o = vs::outcome<std::runtime_error>([&] { LRUCache<int, int> c(n); CHECK(c.maximum_size() == n && c.current_size() == 0, "a new cache is empty and has the size given"); int l = label(); CHECK(!c.has_label(l), "a new cache holds nothing"); c.put(l, 1); CHECK(c.current_size() == 1 && c.has_label(l), "the first put is held"); }); CHECK(o == (n == 0 ? 1 : 0), "construction throws exactly for size 0"); vs_reach(o ? "refused" : "constructed"); }
TEST(copies) { size_t cap = vs::pick(1, 2, "cap"); LRUCache<int, int> c(cap); Ref r(cap); prefill(c, r, vs::pick(0, cap, "n")); LRUCache<int, int> d(c); Ref q = r; step(d, q, label()); held(c, r, "using a copy does not change the original"); held(d, q, "a copy is a cache of its own"); order(d, q); order(c, r); }
TEST(many_labels) { size_t cap = big_cap(vs::pick(0, vs::param("Q", 9), "cap")), n = cap - vs::pick(0, 1, "free"); LRUCache<int, int> c(cap); Ref r(cap); fill(c, r, n); held(c, r, "the cache holds the labels put"); size_t p = vs::pick(0, 4, "use"); step(c, r, p == 4 ? 5000 : r.l[(r.n - 1) * p / 3]); step(c, r, 5001); step(c, r, r.l[r.n - 1]); for (int i = 0; i < 4; ++i) step(c, r, 6000 + i); CHECK(vs_heap_live() > 0, "blocks are held"); for (size_t i = 0; i < cap; ++i) put(c, r, 7000 + (int)i, 1); held(c, r, "labels are evicted in the order of their last use"); }
TEST(many_calls) { size_t cap = vs::pick(1, 5, "cap"), S = cap == 3 ? 66000 : vs::param("S", 600); LRUCache<int, int> c(cap); Ref r(cap); unsigned h = 12345; bool ok = true; for (size_t i = 0; i < S; ++i) { h = h * 1103515245 + 12345; int l = (h >> 16) % (cap + 2); bool had = c.has_label(l); ok = ok & (had == r.has(l)); if (!had) put(c, r, l, (int)i); else if (h >> 28 & 1) { c.get(l); r.use(r.at(l)); } else c.age(l); } CHECK(ok, "has_label tells whether the label is held"); held(c, r, "the cache holds exactly the most recently used labels"); step(c, r, (int)vs::pick(0, cap + 1, "l")); step(c, r, 900); order(c, r); }
