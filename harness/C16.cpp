//@ quick N=2 H=2 L=40 G=3 Q=9
//@ thorough N=3 H=3 L=70 G=4 Q=11
//@ bounds Maps of up to N arbitrary 8-bit keys (32-bit for single operations) with arbitrary 32-bit values, followed by every history of up to H updates of 9 kinds with arbitrary keys and values, then every lookup of an arbitrary key; arithmetic progressions of up to L keys; int keys and values and a lifetime-checked class for both. Histories of G updates over three keys. Maps of up to 300 entries (1000 in thorough) before, at and after every quarter of their keys, built from a map or by insertions in either direction. Maps converted from maps of other key and value types.
//@ outside Larger maps; longer histories; orders that are not strict weak orders; the text of the exception.
#include "maps.hpp"
#include <stdexcept>
template <class T> struct Mk { static T of(int x) { return T(x); } };
template <class K, class T> static void update(Map<K, T>& m, RM& r, int op, int k, int v) {
  switch (op) {
    case 0: m.insert(K(k), T(v)); r.add(k, v); break;
    case 1: m.insert(std::pair<K, T>(K(k), T(v))); r.add(k, v); break;
    case 2: m[K(k)] = T(v); r.put(k, v); break;
    case 3: { T& x = Helper::insert(m, K(k), T(v)); bool had = r.has(k); int old = had ? r.v[r.at(k)] : v; r.add(k, v); CHECK(key(x) == old, "free insert returns the value stored under the key"); auto it = m.find(K(k)); CHECK(it != m.end() && &it->second == &x, "free insert returns a reference into the map"); int w = vs::i32("w"); x = T(w); r.put(k, w); } break;
    case 4: { size_t c = m.erase(K(k)); CHECK(c == (r.has(k) ? 1u : 0u), "erase tells whether there was an entry"); r.del(k); } break;
    case 5: { Set<K> s; s.insert(K(k)); m.remove_keys(s); r.del(k); } break;
    case 6: { bool had = r.has(k); int o = vs::outcome<std::runtime_error>([&] { m.value(K(k)) = T(v); }); CHECK(o == (had ? 0 : 1), "value throws runtime_error exactly for an absent key"); if (had) r.put(k, v); } break;
    case 7: { const std::pair<K, T> kv{K(k), T(v)}; m.insert(kv); r.add(k, v); CHECK(key(kv.first) == k && key(kv.second) == v, "the pair given is unchanged"); } break;
    default: { const T& x = m[K(k)]; bool had = r.has(k); if (had) CHECK(key(x) == r.v[r.at(k)], "indexing reads the stored value"); else { CHECK(key(x) == 0, "indexing an absent key adds a value-initialised entry"); r.put(k, 0); } } break;
  }
}
template <class K, class T> static void lookups(Map<K, T>& m, const RM& r, int k) {
  const Map<K, T>& c = m; bool had = r.has(k); int want = had ? r.v[r.at(k)] : 0; vs_reach(had ? "present" : "absent"); const T* a = nullptr; const K kk(k);
  CHECK(c.has_key(kk) == had, "has_key tells whether the key is present");
  CHECK(vs::outcome<std::runtime_error>([&] { a = &c.get(kk); }) == (had ? 0 : 1), "get throws runtime_error exactly for an absent key"); if (a) CHECK(key(*a) == want, "get returns the associated value"); a = nullptr;
  CHECK(vs::outcome<std::runtime_error>([&] { a = &c[kk]; }) == (had ? 0 : 1), "const operator[] throws runtime_error exactly for an absent key"); if (a) CHECK(key(*a) == want, "const operator[] returns the associated value"); a = nullptr;
  CHECK(vs::outcome<std::runtime_error>([&] { a = &c.value(kk); }) == (had ? 0 : 1), "const value throws runtime_error exactly for an absent key"); if (a) CHECK(key(*a) == want, "const value returns the associated value"); a = nullptr;
  CHECK(vs::outcome<std::runtime_error>([&] { a = &m.value(kk); }) == (had ? 0 : 1), "value throws runtime_error exactly for an absent key"); if (a) CHECK(key(*a) == want, "value returns the associated value");
  same(m, r, "looking up changes nothing");
}
template <class K, class T> static void history(RM r, size_t h) { Map<K, T> m(mkm<K, T>(r)); same(m, r, "construction from a std::map"); for (size_t i = 0; i < h; ++i) { int op = vs::pick(0, 8, "op"); int k = akey("k"), v = vs::i32("v"); update(m, r, op, k, v); } same(m, r, "the map is the reference association"); lookups(m, r, akey("q")); }
TEST(histories) { size_t h = vs::pick(0, vs::param("H", 2), "h"); history<int, int>(arbitrary_map(0, vs::param("N", 2), "n"), h); }
TEST(histories_elem) { long b = vs_heap_live(); { size_t h = vs::pick(0, 1, "h"); history<Elem, Elem>(arbitrary_map(0, 2, "n"), h); } CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "nothing leaks"); }
TEST(wide_keys) { wide = true; history<int, int>(arbitrary_map(0, 2, "n"), 1); }
TEST(large) { int L = vs::param("L", 40); RM r = progression_map(0, 2, vs::pick(0, 4, "n") * L / 4); int d = vs::pick(0, 4, "d"); int k = (int)(2 * r.n) * d / 4 - 1 + (int)vs::pick(0, 2, "o"); Map<int, int> m(mkm(r)); int op = vs::pick(0, 8, "op"); update(m, r, op, k, vs::i32("v")); same(m, r, "the map is the reference association"); lookups(m, r, k); lookups(m, r, k + 1); }
TEST(initialiser_list) { int a = akey("a"), b = akey("b"), x = vs::i32("x"), y = vs::i32("y"); Map<int, int> m{{a, x}, {b, y}}; RM r; r.add(a, x); r.add(b, y); same(m, r, "initialiser list: the first of equal keys wins"); Map<int, int> e; RM none; same(e, none, "a default map is empty"); Map<int, int> c(m); c[a] = y; r.put(a, y); same(c, r, "a copy can be written"); RM s; s.add(a, x); s.add(b, y); same(m, s, "the copied map is unchanged"); }
TEST(insert_converts) { RM r = arbitrary_map(0, 2, "n"); std::map<int64_t, int> s; for (size_t i = 0; i < r.n; ++i) s[r.k[i]] = r.v[i]; Map<int64_t, int> m(s); short k = (short)akey("k"); int v = vs::i32("v"); int& x = Helper::insert(m, k, v); bool had = r.has(k); int old = had ? r.v[r.at(k)] : v; r.add(k, v); CHECK(x == old, "free insert with a convertible key returns the value stored under the key"); CHECK(m.size() == r.n, "free insert adds at most that entry"); CHECK(m.get(k) == old, "free insert keeps an existing value"); }
TEST(stored_references) { RM r = arbitrary_map(1, 2, "n"); Map<int, int> m(mkm(r)); size_t p = vs::pick(0, r.n - 1, "p"); int k = akey("k"), v = vs::i32("v"); m.insert(k, m.get(r.k[p])); r.add(k, r.v[p]); same(m, r, "inserting a value read from the map"); m[r.k[0]] = v; r.put(r.k[0], v); int& x = m.value(r.k[0]); m[k] = x; r.put(k, v); same(m, r, "writing a value read from the map"); }
TEST(longer_histories) { RM r = masked_map(3, "start"); Map<int, int> m(mkm(r)); size_t h = vs::param("G", 3); for (size_t i = 0; i < h; ++i) { int op = vs::pick(0, 8, "op"); int k = -9 + 7 * (int)vs::pick(0, 2, "k"), v = vs::i32("v"); update(m, r, op, k, v); } same(m, r, "the map is the reference association"); for (int k = -9; k < 10; k += 7) { const Map<int, int>& c = m; bool had = r.has(k); int o = vs::outcome<std::runtime_error>([&] { CHECK(c.get(k) == (had ? r.v[r.at(k)] : 0), "get returns the associated value"); }); CHECK(o == (had ? 0 : 1) && c.has_key(k) == had, "get throws exactly for an absent key"); } }
TEST(many_entries) { size_t n = many(vs::pick(0, vs::param("Q", 8), "n")); size_t d = vs::pick(0, 4, "d"); RM r = progression_map1(-20, 2, n, n * d / 4); int k = -20 + (int)(2 * n * d / 4) - 1 + (int)vs::pick(0, 2, "o"); Map<int, int> m; long how = vs::pick(0, 3, "how"); if (how == 0) m = Map<int, int>(mkm(r)); else if (how == 1) for (size_t i = 0; i < n; ++i) m.insert(r.k[i], r.v[i]); else if (how == 2) for (size_t i = n; i-- > 0;) m[r.k[i]] = r.v[i]; else for (size_t i = 0; i < n; ++i) Helper::insert(m, r.k[i], r.v[i]); int op = vs::pick(0, 8, "op"); update(m, r, op, k, vs::i32("v")); same(m, r, "the map is the reference association"); lookups(m, r, k); lookups(m, r, k + 1); }
// maps built from maps of another type: values are converted, keys kept
TEST(converted_maps) { RM r = arbitrary_map(0, 2, "n"); std::map<int, int> s(mkm(r)); const std::map<int, int> cs(s); Map<int, int64_t> a(cs); Map<int, short> b(cs); Map<int, int> c(cs), d(cs.begin(), cs.end()), e(std::move(s)); bool ok = a.size() == r.n && b.size() == r.n; for (size_t i = 0; i < r.n; ++i) { auto p = a.find(r.k[i]); auto q = b.find(r.k[i]); ok = ok && p != a.end() && q != b.end(); if (ok) ok = ok & (p->second == r.v[i]) & (q->second == (short)r.v[i]); } CHECK(ok, "a map of another value type has the same keys with the converted values"); same(c, r, "construction from a std::map"); same(d, r, "construction from a range"); same(e, r, "construction from a std::map about to go"); same(cs, r, "operand unchanged"); int k = akey("k"), v = vs::i32("v"); c[k] = v; same(d, r, "maps are independent"); r.put(k, v); same(c, r, "an indexed write"); }
