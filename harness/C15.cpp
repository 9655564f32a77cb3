//@ quick N=3 L=20 K=6 D=5 Q=9
//@ thorough N=4 L=40 K=7 D=6 Q=10
//@ bounds Every pair of sets (or set and list) of up to N arbitrary ints and every probe value; progressions up to L elements. Every pair of subsets of K keys, and every list of up to D elements over four values. Sets of up to 300 elements (513 in thorough) and lists of them, in six relations to each other, and the membership of every value in them. The set itself as operand at every size up to 32 and some up to 300.
//@ outside Larger sets.
#include "sets.hpp"
static bool r_sub(const RS& a, const RS& b) { bool r = true; for (size_t i = 0; i < a.n; ++i) r = r & b.has(a.v[i]); return r; }
static bool r_dis(const RS& a, const RS& b) { bool r = true; for (size_t i = 0; i < a.n; ++i) r = r & !b.has(a.v[i]); return r; }
static void all(const RS& a, const RS& b) { const Set<int> s(mk(a)), t(mk(b)); const std::set<int>&ss = s, &tt = t;
  CHECK(s.subset(tt) == r_sub(a, b), "subset (member) holds exactly when every element of the object is in the argument"); CHECK(Helper::subset(ss, tt) == r_sub(a, b), "subset (free) holds exactly when every element of the first is in the second"); CHECK(s.disjoint(tt) == r_dis(a, b), "disjoint (member)"); CHECK(Helper::disjoint(ss, tt) == r_dis(a, b), "disjoint (free)");
  is(Helper::join(s, t), a, b, u_, "join is the union"); is(Helper::intersection(ss, tt), a, b, i_, "intersection"); is(Helper::difference(ss, tt), a, b, d_, "difference"); same(s, a, "operands unchanged"); same(t, b, "operands unchanged"); }
TEST(pairs) { size_t N = vs::param("N", 3); RS a = arbitrary(0, N, "n"), b = arbitrary(0, N, "m"); all(a, b); }
TEST(large) { int L = vs::param("L", 20), n = vs::pick(0, 3, "n"), m = vs::pick(0, 3, "m"), from = vs::pick(0, 5, "from"), step = vs::pick(1, 3, "step"); all(progression(0, 1, n * L / 3), progression(from - 2, step, m * L / 3)); }
TEST(lists) { size_t N = vs::param("N", 3); RS a = arbitrary(0, N, "n"), b = arbitrary_list(0, N, "m"); const Set<int> s(mk(a)); const std::set<int>& ss = s; const std::vector<int> l = mkl<int>(b); CHECK(s.disjoint(l) == r_dis(a, b), "disjoint (member) with a list"); CHECK(Helper::disjoint(ss, l) == r_dis(a, b), "disjoint (free) with a list"); is(Helper::intersection(ss, l), a, b, i_, "intersection with a list"); same(s, a, "operands unchanged"); same(l, b, "operands unchanged"); }
TEST(membership) { RS a = arbitrary(0, vs::param("N", 3) + 2, "n"); int x = vs::i32("probe"); const Set<int> s(mk(a)); const std::set<int>& ss = s; CHECK(s.contains(x) == a.has(x), "contains (member)"); CHECK(Helper::contains(ss, x) == a.has(x), "contains (free)"); same(s, a, "operand unchanged"); }
TEST(itself) { RS a = arbitrary(0, vs::param("N", 3), "n"); const Set<int> s(mk(a)); const std::set<int>& ss = s; CHECK(s.subset(s) && Helper::subset(ss, ss), "a set is a subset of itself"); CHECK(s.disjoint(s) == (a.n == 0) && Helper::disjoint(ss, ss) == (a.n == 0), "only the empty set is disjoint from itself"); same(Helper::join(s, s), a, "join with itself"); same(Helper::intersection(ss, ss), a, "intersection with itself"); RS none; same(Helper::difference(ss, ss), none, "difference with itself"); }
TEST(mapped) { RS a = arbitrary(0, vs::param("N", 3), "n"); int k = vs::i32("k"); RS b; b.n = a.n; for (size_t i = 0; i < a.n; ++i) b.v[i] = a.v[i] & k; const Set<int> s(mk(a)); auto f = [k](int x) { return x & k; }; Set<int> r = Helper::apply(f, s); RS none; is(r, b, none, u_, "applying a function gives exactly its values"); same(s, a, "operand unchanged"); auto g = [](int x) -> short { return (short)(x > 5); }; Set<short> q = Helper::apply(g, s); bool any1 = false, any0 = false; for (size_t i = 0; i < a.n; ++i) { any1 = any1 | (a.v[i] > 5); any0 = any0 | (a.v[i] <= 5); } CHECK((q.count(1) == 1) == any1 && (q.count(0) == 1) == any0 && q.size() == (size_t)any0 + any1, "values of a two-valued function"); }
TEST(elems) { long h = vs_heap_live(); { RS a = arbitrary(0, 2, "n"), b = arbitrary(0, 2, "m"); const Set<Elem> s(mk<Elem>(a)), t(mk<Elem>(b)); const std::set<Elem>&ss = s, &tt = t; is(Helper::join(s, t), a, b, u_, "join of objects"); is(Helper::intersection(ss, tt), a, b, i_, "intersection of objects"); is(Helper::difference(ss, tt), a, b, d_, "difference of objects"); CHECK(s.subset(t) == r_sub(a, b) && Helper::disjoint(ss, tt) == r_dis(a, b), "predicates on objects"); } CHECK(vs::cnt().live == 0 && vs_heap_live() == h, "nothing leaks"); }
TEST(every_pair_of_subsets) { int K = vs::param("K", 6); RS a = masked(K, "a"), b = masked(K, "b"); all(a, b); }
TEST(every_short_list) { RS a = masked(4, "a"), b = digits(vs::param("D", 5), 4, "b"); const Set<int> s(mk(a)); const std::set<int>& ss = s; const std::vector<int> l = mkl<int>(b); CHECK(s.disjoint(l) == r_dis(a, b), "disjoint (member) with a list"); CHECK(Helper::disjoint(ss, l) == r_dis(a, b), "disjoint (free) with a list"); is(Helper::intersection(ss, l), a, b, i_, "intersection with a list"); same(s, a, "operands unchanged"); same(l, b, "operands unchanged"); }
TEST(many_elements) { size_t n = many(vs::pick(0, vs::param("Q", 8), "n")); long s = vs::pick(0, 5, "shape"); RS a = progression(-20, 2, n), b = s == 0 ? progression(-20, 2, n - 1) : s == 1 ? progression(-18, 2, n) : s == 2 ? progression(-19, 2, n) : s == 3 ? progression((int)n - 21, 1, n) : s == 4 ? progression(2 * (int)n - 22, 2, 3) : progression(-22, 7, 5); if (vs::flag("swap")) { RS t = a; a = b; b = t; } all(a, b); std::vector<int> l = mkl<int>(b); if (vs::flag("back")) { std::vector<int> k(l.rbegin(), l.rend()); l = k; } const Set<int> t(mk(a)); const std::set<int>& ss = t; CHECK(t.disjoint(l) == r_dis(a, b), "disjoint (member) with a list"); CHECK(Helper::disjoint(ss, l) == r_dis(a, b), "disjoint (free) with a list"); is(Helper::intersection(ss, l), a, b, i_, "intersection with a list"); auto f = [](int x) { return x / 3; }; Set<int> m = Helper::apply(f, t); RS c, none; c.n = a.n; for (size_t i = 0; i < a.n; ++i) c.v[i] = a.v[i] / 3; is(m, c, none, u_, "applying a function gives exactly its values"); }
TEST(many_membership) { size_t n = many(vs::pick(0, vs::param("Q", 8), "n")); RS a = progression(-20, 2, n); const Set<int> s(mk(a)); const std::set<int>& ss = s; int x = vs::i32("probe"); bool in = ((x + 20) % 2 == 0) & (x >= -20) & (x <= a.v[n - 1]); bool got = s.contains(x); CHECK(got == in, "contains (member)"); CHECK(Helper::contains(ss, x) == in, "contains (free)"); }
TEST(many_itself) { size_t n = vs::flag("many") ? many(vs::pick(0, vs::param("Q", 8), "n")) : vs::pick(0, 32, "n"); RS a = progression(-20, 3, n), none; const Set<int> s(mk(a)); const std::set<int>& ss = s; CHECK(s.subset(s) && Helper::subset(ss, ss), "a set is a subset of itself"); CHECK(s.disjoint(s) == (a.n == 0) && Helper::disjoint(ss, ss) == (a.n == 0), "only the empty set is disjoint from itself"); same(Helper::join(s, s), a, "join with itself"); same(Helper::intersection(ss, ss), a, "intersection with itself"); same(Helper::difference(ss, ss), none, "difference with itself"); const std::set<int> e; CHECK(s.subset(e) == (n == 0) && Helper::subset(e, ss) && s.disjoint(e) && Helper::disjoint(e, ss), "relations to the empty set"); same(Helper::intersection(ss, e), none, "intersection with the empty set"); same(Helper::difference(ss, e), a, "difference with the empty set"); same(Helper::difference(e, ss), none, "difference of the empty set"); same(Helper::join(Set<int>(), s), a, "join of the empty set"); same(s, a, "operand unchanged"); }
