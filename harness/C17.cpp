//@ quick N=2 L=20 K=5 Q=9
//@ thorough N=3 L=40 K=6 Q=10
//@ bounds Every pair of maps (and map and key set) of up to N arbitrary 8-bit keys with arbitrary 32-bit values; the same map as both operands; progressions of up to L keys; int and a lifetime-checked class. Every pair of maps over subsets of K keys. Maps of up to 300 entries (513 in thorough) in six relations to each other. The same map as both operands at every size up to 32 and some up to 300.
//@ outside Larger maps; orders that are not strict weak orders.
#include "maps.hpp"
static RM unite(const RM& a, const RM& b) { RM r = a; for (size_t i = 0; i < b.n; ++i) r.add(b.k[i], b.v[i]); return r; }
template <class F> RM filter(const RM& a, F f) { RM r; for (size_t i = 0; i < a.n; ++i) if (f(a.k[i])) { r.k[r.n] = a.k[i]; r.v[r.n++] = a.v[i]; } return r; }
template <class T> static void combine(const RM& a, const RM& b) { RM u = unite(a, b); const Map<T, T> n(mkm<T, T>(b)); const Map<T, T> m(mkm<T, T>(a)); { Map<T, T> w(m); w.adjoin(n); same(w, u, "adjoin adds the entries with new keys and keeps the others"); } { Map<T, T> j = Helper::join(m, n); same(j, u, "join has every key, the first map's value winning"); } { Map<T, T> w(m); w.adjoin(mkm<T, T>(b)); same(w, u, "adjoin of a std::map"); } same(n, b, "the second operand is unchanged"); same(m, a, "the first operand is unchanged"); }
template <class T> static void project(const RM& a, const RS& s) { const Set<T> ks(mk<T>(s)); const Map<T, T> m(mkm<T, T>(a)); RM in = filter(a, [&](int x) { return s.has(x); }), out = filter(a, [&](int x) { return !s.has(x); });
  { Map<T, T> r = Helper::restrict_keys(m, ks); same(r, in, "restrict_keys keeps exactly the entries with a key in the set"); } { const std::map<T, T> q = mkm<T, T>(a); const std::set<T> qs = mk<T>(s); Map<T, T> r = Helper::restrict_keys(q, qs); same(r, in, "restrict_keys of standard containers"); } { Map<T, T> r(m); r.remove_keys(ks); same(r, out, "remove_keys keeps exactly the entries with a key outside the set"); } same(m, a, "the map operand is unchanged"); same(ks, s, "the set operand is unchanged"); }
template <class T> static void views(const RM& a) { const Map<T, T> m(mkm<T, T>(a)); Set<T> k = m.keys(); RS rk; rk.n = a.n; for (size_t i = 0; i < a.n; ++i) rk.v[i] = a.k[i]; same(k, rk, "keys is the set of keys"); List<T> v = m.values(); CHECK(v.size() == a.n, "values has one value per key"); bool ok = true; for (size_t i = 0; i < a.n && i < v.size(); ++i) ok = ok & (key(v[i]) == a.v[i]); CHECK(ok, "values lists the values in key order"); same(m, a, "the map is unchanged"); }
TEST(combining) { size_t N = vs::param("N", 2); RM a = arbitrary_map(0, N, "n"), b = arbitrary_map(0, N, "m"); combine<int>(a, b); }
TEST(combining_elem) { long h = vs_heap_live(); { RM a = arbitrary_map(0, 2, "n"), b = arbitrary_map(0, 2, "m"); combine<Elem>(a, b); } CHECK(vs::cnt().live == 0 && vs_heap_live() == h, "nothing leaks"); }
TEST(projecting) { size_t N = vs::param("N", 2); RM a = arbitrary_map(0, N, "n"); RS s = arbitrary(0, N, "m"); project<int>(a, s); }
TEST(projecting_elem) { long h = vs_heap_live(); { RM a = arbitrary_map(0, 2, "n"); RS s = arbitrary(0, 2, "m"); project<Elem>(a, s); } CHECK(vs::cnt().live == 0 && vs_heap_live() == h, "nothing leaks"); }
TEST(viewing) { views<int>(arbitrary_map(0, vs::param("N", 2) + 1, "n")); }
TEST(viewing_elem) { long h = vs_heap_live(); { views<Elem>(arbitrary_map(0, 2, "n")); } CHECK(vs::cnt().live == 0 && vs_heap_live() == h, "nothing leaks"); }
TEST(itself) { RM a = arbitrary_map(0, vs::param("N", 2), "n"); Map<int, int> m(mkm(a)); m.adjoin(m); same(m, a, "adjoining a map to itself"); Map<int, int> j = Helper::join(m, m); same(j, a, "joining a map with itself"); Map<int, int> r = Helper::restrict_keys(m, m.keys()); same(r, a, "restricting to all keys"); m.remove_keys(m.keys()); RM none; same(m, none, "removing all keys"); }
TEST(large) { int L = vs::param("L", 20); size_t n = vs::pick(0, 3, "n") * L / 3, m = vs::pick(0, 3, "m") * L / 3; int from = vs::pick(0, 3, "from") - 1, step = vs::pick(1, 3, "step"); RM a = progression_map(0, 1, n), b = progression_map(from, step, m); combine<int>(a, b); project<int>(a, progression(from, step, m)); views<int>(a); views<int>(b); }
TEST(converting) { RM a = arbitrary_map(0, vs::param("N", 2) + 1, "n"); std::map<int, short> s; for (size_t i = 0; i < a.n; ++i) { a.v[i] = (short)a.v[i]; s.insert(s.end(), std::make_pair(a.k[i], (short)a.v[i])); } Map<int, short> h(s); Map<int, int> m(h); same(m, a, "conversion keeps every value under its key"); Map<int, Elem> e(h); same(e, a, "conversion to a class converts every value under its key"); same(h, a, "the converted map is unchanged"); }
TEST(converting_narrower) { RM a = arbitrary_map(0, 2, "n"); Map<int, int> m(mkm(a)); Map<int, short> t(m); RM c = a; for (size_t i = 0; i < c.n; ++i) c.v[i] = (short)c.v[i]; same(t, c, "each value is converted"); }
TEST(every_pair_of_key_sets) { int K = vs::param("K", 5); RM a = masked_map(K, "a"), b = masked_map(K, "b"); combine<int>(a, b); RS s; s.n = b.n; for (size_t i = 0; i < b.n; ++i) s.v[i] = b.k[i]; project<int>(a, s); }
TEST(every_value_pattern) { RM a; a.n = vs::pick(0, 6, "n"); for (size_t i = 0; i < a.n; ++i) { a.k[i] = (int)i * 3 - 4; a.v[i] = vs::pick(0, 2, "v"); } views<int>(a); std::map<int, short> s; for (size_t i = 0; i < a.n; ++i) s[a.k[i]] = (short)a.v[i]; Map<int, int> m{Map<int, short>(s)}; same(m, a, "conversion keeps every value under its key"); }
TEST(many_entries) { size_t n = many(vs::pick(0, vs::param("Q", 8), "n")); long s = vs::pick(0, 5, "shape"); RM a = progression_map1(-20, 2, n, n / 2, 3), b = s == 0 ? progression_map1(-20, 2, n - 1, 0) : s == 1 ? progression_map1(-18, 2, n, n - 1) : s == 2 ? progression_map1(-19, 2, n, 0) : s == 3 ? progression_map1((int)n - 21, 1, n, 0) : s == 4 ? progression_map1(2 * (int)n - 22, 2, 3, 0) : progression_map1(-22, 7, 5, 2); if (vs::flag("swap")) { RM t = a; a = b; b = t; } combine<int>(a, b); RS ks; ks.n = b.n; for (size_t i = 0; i < b.n; ++i) ks.v[i] = b.k[i]; project<int>(a, ks); views<int>(a); std::map<int, short> t; for (size_t i = 0; i < a.n; ++i) t.insert(t.end(), std::make_pair(a.k[i], (short)i)); Map<int, short> h(t); Map<int, int> m(h); RM c = a; for (size_t i = 0; i < c.n; ++i) c.v[i] = (short)i; same(m, c, "conversion keeps every value under its key"); }
// a map combined with itself or an empty one
TEST(many_itself) { size_t n = vs::flag("many") ? many(vs::pick(0, vs::param("Q", 8), "n")) : vs::pick(0, 32, "n"); RM a = progression_map1(-20, 3, n, n / 2, 3), none; Map<int, int> m(mkm(a)); m.adjoin(m); same(m, a, "a map adjoined to itself"); same(Helper::join(m, m), a, "join with itself"); Map<int, int> e; same(Helper::join(e, m), a, "join of the empty map"); same(Helper::join(m, e), a, "join with the empty map"); e.adjoin(m); same(e, a, "adjoining to an empty map"); Map<int, int> r = Helper::restrict_keys(m, m.keys()); same(r, a, "restriction to the map's own keys"); same(m, a, "operand unchanged"); Map<int, int> c(m); c.remove_keys(c.keys()); same(c, none, "removing the map's own keys"); c = m; c.remove_keys(Set<int>()); same(c, a, "removing no keys"); same(Helper::restrict_keys(m, Set<int>()), none, "restriction to no keys"); }
