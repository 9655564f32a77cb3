//@ quick N=3 L=20 K=6 D=5 Q=9
//@ thorough N=4 L=40 K=7 D=6 Q=10
//@ bounds Every pair of sets (or set and list, with duplicates) of up to N arbitrary ints; the set itself as argument; arithmetic progressions up to L elements; int and a lifetime-checked class. Every pair of subsets of K keys, and every list of up to D elements over four values. Sets of up to 300 elements (513 in thorough) and lists of them, in six relations to each other, and the removal of any element of a large set. The set itself as argument at every size up to 32 and some up to 300.
//@ outside Larger sets; orders that are not strict weak orders.
#include "sets.hpp"
template <class T> static void members(const RS& a, const RS& b) { const std::set<T> t = mk<T>(b); { Set<T> s(mk<T>(a)); CHECK(&s.adjoin(t) == &s, "the updated set is returned"); is(s, a, b, u_, "adjoin is the union"); } { Set<T> s(mk<T>(a)); CHECK(&s.remove(t) == &s, "the updated set is returned"); is(s, a, b, d_, "remove(set) is the difference"); } { Set<T> s(mk<T>(a)); CHECK(&s.restrict(t) == &s, "the updated set is returned"); is(s, a, b, i_, "restrict is the intersection"); } same(t, b, "the argument is not changed"); }
template <class T> static void frees(const RS& a, const RS& b) { const std::set<T> t = mk<T>(b); { std::set<T> s = mk<T>(a); CHECK(&Helper::remove(s, t) == &s, "the updated set is returned"); is(s, a, b, d_, "free remove is the difference"); } { std::set<T> s = mk<T>(a); CHECK(&Helper::restrict(s, t) == &s, "the updated set is returned"); is(s, a, b, i_, "free restrict is the intersection"); } same(t, b, "the argument is not changed"); }
TEST(member) { size_t N = vs::param("N", 3); RS a = arbitrary(0, N, "n"), b = arbitrary(0, N, "m"); members<int>(a, b); }
TEST(member_elem) { long h = vs_heap_live(); { RS a = arbitrary(0, 2, "n"), b = arbitrary(0, 2, "m"); members<Elem>(a, b); frees<Elem>(a, b); } CHECK(vs::cnt().live == 0 && vs_heap_live() == h, "nothing leaks"); }
TEST(free_functions) { size_t N = vs::param("N", 3); RS a = arbitrary(0, N, "n"), b = arbitrary(0, N, "m"); frees<int>(a, b); }
TEST(element) { RS a = arbitrary(0, vs::param("N", 3) + 1, "n"); Set<int> s(mk(a)); int x = vs::i32("e"); CHECK(&s.remove(x) == &s, "the updated set is returned"); RS b; b.n = 1; b.v[0] = x; is(s, a, b, d_, "remove(element) is the difference with that element"); Set<int> t(mk(a)); RS c = b; Set<int> sx{x}; t.adjoin(sx); is(t, a, c, u_, "adjoining one element"); }
TEST(list_argument) { size_t N = vs::param("N", 3); RS a = arbitrary(0, N, "n"), b = arbitrary_list(0, N, "m"); const std::vector<int> l = mkl<int>(b); Set<int> s(mk(a)); CHECK(&s.remove(l) == &s, "the updated set is returned"); is(s, a, b, d_, "remove(list) is the difference"); same(l, b, "the argument is not changed"); const List<int> hl(l); Set<int> s2(mk(a)); s2.remove(hl); is(s2, a, b, d_, "remove(List) is the difference"); }
TEST(list_of_other_type) { RS a = arbitrary(0, 2, "n"), b = arbitrary_list(0, 2, "m"); std::vector<short> l; for (size_t i = 0; i < b.n; ++i) { b.v[i] = (short)b.v[i]; l.push_back((short)b.v[i]); } Set<int> s(mk(a)); s.remove(l); is(s, a, b, d_, "remove(list of a convertible type) is the difference"); }
TEST(itself) { RS a = arbitrary(0, vs::param("N", 3), "n"); RS none; Set<int> s(mk(a)); s.adjoin(s); same(s, a, "adjoining a set to itself"); s.restrict(s); same(s, a, "restricting a set to itself"); s.remove(s); same(s, none, "removing a set from itself"); std::set<int> f = mk(a); Helper::restrict(f, f); same(f, a, "free restrict of a set to itself"); Helper::remove(f, f); same(f, none, "free remove of a set from itself"); if (a.n) { Set<int> t(mk(a)); size_t k = vs::pick(0, a.n - 1, "k"); auto it = t.begin(); for (size_t i = 0; i < k; ++i) ++it; t.remove(*it); RS b; b.n = 1; b.v[0] = a.v[k]; is(t, a, b, d_, "removing an element given by reference into the set"); } }
TEST(large) { int L = vs::param("L", 20), n = vs::pick(0, 3, "n"), m = vs::pick(0, 3, "m"), from = vs::pick(0, 5, "from"), step = vs::pick(1, 3, "step"); RS a = progression(0, 1, n * L / 3), b = progression(from - 2, step, m * L / 3); members<int>(a, b); frees<int>(a, b); std::vector<int> l = mkl<int>(b); Set<int> s(mk(a)); s.remove(l); is(s, a, b, d_, "remove(list) is the difference"); }
TEST(history) { RS a = arbitrary(0, 2, "n"), b = arbitrary(1, 2, "m"); Set<int> s(mk(a)), t(mk(b)); s.adjoin(t).remove(b.v[0]); RS c; c.n = 1; c.v[0] = b.v[0]; Set<int> w(s); w.adjoin(c.n ? Set<int>{c.v[0]} : Set<int>()); is(w, a, b, u_, "union, remove an element, adjoin it again"); s.restrict(t); t.remove(b.v[0]); RS e = content(t, "t"); same(s, e, "restriction after removal"); }
TEST(every_pair_of_subsets) { int K = vs::param("K", 6); RS a = masked(K, "a"), b = masked(K, "b"); members<int>(a, b); frees<int>(a, b); }
TEST(every_short_list) { RS a = masked(4, "a"), b = digits(vs::param("D", 5), 4, "b"); const std::vector<int> l = mkl<int>(b); Set<int> s(mk(a)); CHECK(&s.remove(l) == &s, "the updated set is returned"); is(s, a, b, d_, "remove(list) is the difference"); same(l, b, "the argument is not changed"); }
TEST(many_elements) { size_t n = many(vs::pick(0, vs::param("Q", 8), "n")); long s = vs::pick(0, 5, "shape"); RS a = progression(-20, 2, n), b = s == 0 ? progression(-20, 2, n - 1) : s == 1 ? progression(-18, 2, n) : s == 2 ? progression(-19, 2, n) : s == 3 ? progression((int)n - 21, 1, n) : s == 4 ? progression(2 * (int)n - 22, 2, 3) : progression(-22, 7, 5); if (vs::flag("swap")) { RS t = a; a = b; b = t; } members<int>(a, b); frees<int>(a, b); std::vector<int> l = mkl<int>(b); if (vs::flag("back")) { std::vector<int> k(l.rbegin(), l.rend()); l = k; } Set<int> t(mk(a)); t.remove(l); is(t, a, b, d_, "remove(list) is the difference"); }
TEST(many_minus_one) { size_t n = many(vs::pick(0, vs::param("Q", 8), "n")); RS a = progression(-20, 2, n), b; b.n = 1; b.v[0] = vs::i32("e"); Set<int> s(mk(a)); s.remove(b.v[0]); size_t k = 0, gone = 0; bool ok = true; auto it = s.begin(); for (; k < n; ++k) { if (it != s.end() && *it == a.v[k]) ++it; else { ok = ok & (a.v[k] == b.v[0]); ++gone; } } bool in = ((b.v[0] + 20) % 2 == 0) & (b.v[0] >= -20) & (b.v[0] <= a.v[n - 1]); CHECK(ok && it == s.end() && s.size() + gone == n, "remove(element) removes only that element"); CHECK((gone == 1) == in, "remove(element) removes it if it is there"); }
// the same set as argument, of any size; and list arguments made of the set itself
TEST(many_itself) { size_t n = vs::flag("many") ? many(vs::pick(0, vs::param("Q", 8), "n")) : vs::pick(0, 32, "n"); RS a = progression(-20, 3, n), none; { Set<int> s(mk(a)); CHECK(&s.adjoin(s) == &s, "the updated set is returned"); same(s, a, "adjoining a set to itself"); CHECK(&s.restrict(s) == &s, "the updated set is returned"); same(s, a, "restricting a set to itself"); const std::vector<int> l = mkl<int>(a); Set<int> t(s); t.remove(l); same(t, none, "removing the list of all elements"); s.remove(s); same(s, none, "removing a set from itself"); s.adjoin(t); same(s, none, "adjoining an empty set"); } { std::set<int> f = mk(a); Helper::restrict(f, f); same(f, a, "free restrict of a set to itself"); CHECK(&Helper::remove(f, f) == &f, "the updated set is returned"); same(f, none, "free remove of a set from itself"); } if (n) { Set<int> t(mk(a)); size_t k = vs::pick(0, 3, "k") * (n - 1) / 3; auto it = t.begin(); for (size_t i = 0; i < k; ++i) ++it; t.remove(*it); RS b; b.n = 1; b.v[0] = a.v[k]; is(t, a, b, d_, "removing an element given by reference into the set"); } }
