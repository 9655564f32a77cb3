//@ quick N=4 L=40 B=300
//@ thorough N=6 L=80 B=1100
//@ bounds Two lists of 0..N arbitrary elements, a list with itself, sizes up to L for single operations; element types int, a lifetime-checked class, string, bool. Lists of every size up to B and of eight sizes up to 33000 with one arbitrary element; elementwise with one list as both operands. Lists built by every constructor.
//@ outside Longer lists; element types with throwing copies.
#include "sets.hpp"
#include <string>
using Helper::LinkedList;
template <class T> struct V { static T mk(int x) { return T(x); } static int of(const T& t) { return (int)t; } static int norm(int x) { return (int)T(x); } };
template <> struct V<Elem> { static Elem mk(int x) { return Elem(x); } static int of(const Elem& t) { return t.get(); } static int norm(int x) { return x; } };
template <> struct V<bool> { static bool mk(int x) { return x & 1; } static int of(bool t) { return t; } static int norm(int x) { return x & 1; } };
template <> struct V<std::string> { static std::string mk(int x) { return std::string(1, (char)x); } static int of(const std::string& t) { return t.size() == 1 ? t[0] : -999; } static int norm(int x) { return (char)x; } };
template <class T> List<T> lst(size_t n, int* v) { List<T> l; for (size_t i = 0; i < n; ++i) { int x = std::is_same<T, std::string>::value ? 'a' + (int)(i % 26) : vs::i32("x"); v[i] = V<T>::norm(x); l.push_back(V<T>::mk(x)); } return l; }
template <class L> void eq(const L& l, const int* v, size_t n, const char* m) { typedef typename L::value_type T; CHECK(l.size() == n, m); if (l.size() != n) return; bool ok = true; size_t i = 0; for (auto it = l.begin(); it != l.end(); ++it, ++i) ok = ok & (V<T>::of(*it) == v[i]); CHECK(ok, m); }
template <class T> static void ops(size_t n, size_t m) { int a[200], b[200]; List<T> l = lst<T>(n, a), k = lst<T>(m, b), l0(l);
  List<T> c = Helper::catenate(l, k); int ab[400]; for (size_t i = 0; i < n; ++i) ab[i] = a[i]; for (size_t i = 0; i < m; ++i) ab[n + i] = b[i]; eq(c, ab, n + m, "catenate is the first list followed by the second"); eq(l, a, n, "catenate leaves its operands unchanged"); eq(k, b, m, "catenate leaves its operands unchanged");
  List<T> d(l); d.append(k); eq(d, ab, n + m, "append(list) adds the elements in order"); eq(k, b, m, "append leaves its argument unchanged"); List<T> e(l); e.concatenate(k); eq(e, ab, n + m, "concatenate adds the elements in order"); eq(k, b, m, "concatenate leaves its argument unchanged");
  const std::vector<T>& vk = k; List<T> f(l); f.append(vk); f.concatenate(vk); for (size_t i = 0; i < m; ++i) ab[n + m + i] = b[i]; eq(f, ab, n + m + m, "append of a vector");
  int x = 'q'; x = V<T>::norm(x); T t = V<T>::mk('q'); ab[n] = x; List<T> g = Helper::catenate(l, t); eq(g, ab, n + 1, "catenate with an element"); eq(l, a, n, "catenate leaves its operands unchanged"); l0.append(t); eq(l0, ab, n + 1, "append(element) adds it at the end"); }
template <class T> static void selfops(size_t n) { int a[400]; List<T> l = lst<T>(n, a); int aa[400]; for (size_t i = 0; i < n; ++i) aa[i] = aa[n + i] = a[i]; List<T> c = Helper::catenate(l, l); eq(c, aa, 2 * n, "catenate of a list with itself"); List<T> d(l), e(l); d.append(d); eq(d, aa, 2 * n, "append of a list to itself"); e.concatenate(e); eq(e, aa, 2 * n, "concatenate of a list with itself"); if (n) { size_t k = vs::pick(0, n - 1, "k"); List<T> f(l); f.append(f[k]); aa[n] = a[k]; eq(f, aa, n + 1, "append of an element of the list"); List<T> g = Helper::catenate(l, l[k]); eq(g, aa, n + 1, "catenate with an element of the list"); } eq(l, a, n, "operands unchanged"); }
TEST(elem) { size_t N = vs::param("N", 4), n = vs::pick(0, N, "n"), m = vs::pick(0, N, "m"); long b = vs_heap_live(); ops<Elem>(n, m); CHECK(vs::cnt().live == 0 && vs_heap_live() == b, "nothing leaks"); }
TEST(ints) { size_t L = vs::param("L", 40), n = vs::pick(0, L, "n"), m = vs::pick(0, 2, "m"); ops<int>(n, m == 0 ? 0 : m == 1 ? 1 : L - n); }
TEST(strings) { size_t n = vs::pick(0, 5, "n"), m = vs::pick(0, 5, "m"); ops<std::string>(n, m); }
TEST(bools) { size_t n = vs::pick(0, 3, "n"), m = vs::pick(0, 2, "m"); int a[8], b[8]; List<bool> l = lst<bool>(n, a), k = lst<bool>(m, b); l.append(k); for (size_t i = 0; i < m; ++i) a[n + i] = b[i]; eq(l, a, n + m, "append of bools"); bool x = vs::boolean("x"); l.append(x); a[n + m] = x; eq(l, a, n + m + 1, "append of a bool"); }
TEST(self_elem) { size_t n = vs::pick(0, vs::param("N", 4), "n"); selfops<Elem>(n); }
TEST(self_int) { size_t n = vs::pick(0, vs::param("L", 40), "n"); n = n < 10 ? n : n / 10 * 10; selfops<int>(n); }
static int log_a[200], log_b[200]; static size_t calls;
TEST(mapped) { size_t n = vs::pick(0, vs::param("L", 40), "n"); int a[100], b[100], r[100]; List<int> l = lst<int>(n, a), k = lst<int>(n, b); for (size_t i = 0; i < n; ++i) r[i] = (int)(short)(a[i] * 3 + 1);
  calls = 0; auto f = [](int x) -> short { log_a[calls++] = x; return (short)(x * 3 + 1); }; List<short> p = Helper::apply(f, l); eq(p, r, n, "apply gives f of each element in order"); CHECK(calls == n, "apply calls the function once per element"); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (log_a[i] == a[i]); CHECK(ok, "apply calls the function in order");
  calls = 0; List<short> q = Helper::elementwise(f, l); eq(q, r, n, "elementwise gives f of each element in order"); CHECK(calls == n, "elementwise calls the function once per element");
  calls = 0; auto g = [](int x, int y) -> int64_t { log_a[calls] = x; log_b[calls++] = y; return (int64_t)x - 2 * (int64_t)y; }; List<int64_t> s = Helper::elementwise(g, l, k); CHECK(s.size() == n && calls == n, "two-list elementwise has one result and one call per pair"); ok = true; for (size_t i = 0; i < n && i < s.size(); ++i) ok = ok & (s[i] == (int64_t)a[i] - 2 * (int64_t)b[i]) & (log_a[i] == a[i]) & (log_b[i] == b[i]); CHECK(ok, "two-list elementwise pairs the elements in order"); eq(l, a, n, "operands unchanged"); eq(k, b, n, "operands unchanged"); }
TEST(mapped_elem) { size_t n = vs::pick(0, 4, "n"); int a[8], r[8]; { List<Elem> l = lst<Elem>(n, a); for (size_t i = 0; i < n; ++i) r[i] = a[i] ^ 5; calls = 0; auto f = [](Elem const& e) { ++calls; return Elem(e.get() ^ 5); }; List<Elem> p = Helper::apply(f, l); eq(p, r, n, "apply on objects"); CHECK(calls == n, "apply calls the function once per element"); List<Elem> q = Helper::elementwise(f, l); eq(q, r, n, "elementwise on objects"); } CHECK(vs::cnt().live == 0, "nothing leaks"); }
TEST(conversions) { size_t n = vs::pick(0, vs::param("L", 40), "n"); int a[100]; List<int> l = lst<int>(n, a); const std::vector<int>& v = l; List<int64_t> w(v); bool ok = w.size() == n; for (size_t i = 0; i < n && ok; ++i) CHECK(w[i] == a[i], "conversion keeps length and order"); CHECK(ok, "conversion keeps length and order"); List<int> c(v); eq(c, a, n, "construction from a vector"); struct X { int x; explicit X(int i) : x(i) {} }; List<X> xs(v); CHECK(xs.size() == n, "explicit conversion keeps length"); ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (xs[i].x == a[i]); CHECK(ok, "explicit conversion keeps order"); int s = vs::i32("s"); List<int> one(s); eq(one, &s, 1, "a single value gives a one-element list"); List<int> il{s, 4}; int e2[] = {s, 4}; eq(il, e2, 2, "initialiser list"); }
TEST(linked) { size_t n = vs::pick(0, 5, "n"), m = vs::pick(0, 5, "m"); int a[30], b[10]; List<int> l = lst<int>(n, a), k = lst<int>(m, b); LinkedList<int> p(l), q(k); eq(p, a, n, "LinkedList from a List"); p.append(q); for (size_t i = 0; i < m; ++i) a[n + i] = b[i]; eq(p, a, n + m, "LinkedList append"); eq(q, b, m, "operand unchanged"); LinkedList<int> r(q); r.concatenate(r); for (size_t i = 0; i < m; ++i) b[m + i] = b[i]; eq(r, b, 2 * m, "LinkedList concatenate with itself"); int x = vs::i32("x"); p.append(x); a[n + m] = x; eq(p, a, n + m + 1, "LinkedList append of an element"); LinkedList<int> f((unsigned)n, x); int xs[] = {x, x, x, x, x}; eq(f, xs, n, "LinkedList of n equal elements"); LinkedList<int> z((unsigned)n); int zs[5] = {}; eq(z, zs, n, "LinkedList of n default elements"); }
TEST(mapped_same) { size_t n = vs::pick(0, vs::param("L", 40), "n"); int a[100]; List<int> l = lst<int>(n, a); calls = 0; auto g = [](int x, int y) -> int64_t { log_a[calls] = x; log_b[calls++] = y; return (int64_t)x - 2 * (int64_t)y; }; List<int64_t> s = Helper::elementwise(g, l, l); CHECK(s.size() == n && calls == n, "two-list elementwise of a list with itself has one result and one call per element"); bool ok = true; for (size_t i = 0; i < n && i < s.size(); ++i) ok = ok & (s[i] == (int64_t)a[i] - 2 * (int64_t)a[i]) & (log_a[i] == a[i]) & (log_b[i] == a[i]); CHECK(ok, "two-list elementwise of a list with itself pairs each element with itself"); List<int> m(l); calls = 0; List<int64_t> t = Helper::elementwise(g, l, m); CHECK(t.size() == n && calls == n, "elementwise of a list with its copy"); ok = true; for (size_t i = 0; i < n && i < t.size(); ++i) ok = ok & (t[i] == s[i]); CHECK(ok, "elementwise of a list with its copy is that with itself"); eq(l, a, n, "operands unchanged"); }
// long lists with one arbitrary element
static size_t size_of(size_t B) { static const size_t x[] = {511, 512, 513, 1000, 1024, 1025, 4097, 33000}; size_t k = vs::pick(0, B + 8, "n"); return k <= B ? k : x[k - B - 1]; }
TEST(big) { size_t n = size_of(vs::param("B", 300)), k = vs::pick(0, 1, "k"), j = vs::pick(0, 4, "m"); size_t m = j == 0 ? n : j == 1 ? n + 1 : j == 2 ? 0 : j == 3 ? 300 : 1; if (n > 5000 && j) return; int x = vs::i32("x"); size_t at = k ? n / 2 : n ? n - 1 : 0; auto f = [=](size_t i) { return i == at ? x : (int)i * 3 - 7; }; auto h = [](size_t i) { return 5 - (int)i; }; List<int> a, b; for (size_t i = 0; i < n; ++i) a.push_back(f(i)); for (size_t i = 0; i < m; ++i) b.push_back(h(i));
  auto is = [](const auto& l, size_t z, auto w, const char* msg) { CHECK(l.size() == z, msg); bool ok = true; size_t i = 0; for (auto it = l.begin(); it != l.end(); ++it, ++i) ok = ok && *it == w(i); CHECK(ok, msg); }; auto fh = [=](size_t i) { return i < n ? f(i) : h(i - n); }; auto ff = [=](size_t i) { return f(i % n); };
  { List<int> c = Helper::catenate(a, b); is(c, n + m, fh, "catenate of long lists"); c.append(a); is(c, n + m + n, [=](size_t i) { return i < n + m ? fh(i) : f(i - n - m); }, "append of a long list"); c = Helper::catenate(a, a); is(c, 2 * n, ff, "catenate of a long list with itself"); List<int> d(a), e(a); d.append(d); is(d, 2 * n, ff, "append of a long list to itself"); e.concatenate(e); is(e, 2 * n, ff, "concatenate of a long list with itself"); List<int> g(a); g.concatenate(b); is(g, n + m, fh, "concatenate of long lists"); List<int> q = Helper::catenate(a, -9); is(q, n + 1, [=](size_t i) { return i < n ? f(i) : -9; }, "catenate with an element"); if (n) { List<int> r(a); r.append(r[n / 3]); is(r, n + 1, [=](size_t i) { return i < n ? f(i) : f(n / 3); }, "append of an element of the list"); } }
  { auto u = [](int y) { return (int64_t)y + 1; }; auto w = [](int y, int z) { return (int64_t)y * 2 + z; }; is(Helper::apply(u, a), n, [=](size_t i) { return (int64_t)f(i) + 1; }, "apply on a long list"); is(Helper::elementwise(u, a), n, [=](size_t i) { return (int64_t)f(i) + 1; }, "elementwise on a long list"); if (n == m) is(Helper::elementwise(w, a, b), n, [=](size_t i) { return (int64_t)f(i) * 2 + h(i); }, "elementwise on two long lists"); const std::vector<int>& v = a; is(List<int64_t>(v), n, [=](size_t i) { return (int64_t)f(i); }, "conversion of a long vector"); if (n < 5000) { LinkedList<int> p(a), r(b); p.append(r); is(p, n + m, fh, "LinkedList append of long lists"); LinkedList<int> u(a), t(a); u.concatenate(r); is(u, n + m, fh, "LinkedList concatenate of long lists"); is(r, m, h, "operand unchanged"); u.append(u); is(u, 2 * (n + m), [=](size_t i) { return fh(i % (n + m)); }, "LinkedList append of a long list to itself"); t.concatenate(t); is(t, 2 * n, ff, "LinkedList concatenate of a long list with itself"); LinkedList<int> y((unsigned)n, x); is(y, n, [=](size_t) { return x; }, "LinkedList of many equal elements"); LinkedList<int64_t> z(p); is(z, n + m, fh, "conversion of a long LinkedList"); } } is(a, n, f, "operands unchanged"); is(b, m, h, "operands unchanged"); }
// every way of building a list
TEST(built) { size_t n = vs::pick(0, 6, "n"); int a[8]; List<int> l = lst<int>(n, a); const std::vector<int>& v = l; size_t f = vs::pick(0, n, "from"); LinkedList<int> e; CHECK(e.empty() && e.size() == 0, "a default LinkedList is empty"); LinkedList<int> r(l.begin() + f, l.end()); eq(r, a + f, n - f, "LinkedList from a range"); const std::list<int> sl(l.begin(), l.end()); LinkedList<int> s(sl); eq(s, a, n, "LinkedList from a std::list"); s.push_back(1); CHECK(sl.size() == n, "operand unchanged"); const LinkedList<int> t(r); LinkedList<int64_t> w(t); eq(w, a + f, n - f, "LinkedList from a LinkedList of another type"); List<int> g(l.begin() + f, l.end()); eq(g, a + f, n - f, "List from a range"); std::vector<int> mv(v); List<int> m(std::move(mv)); eq(m, a, n, "List from a vector about to go"); List<int> d; CHECK(d.empty(), "a default List is empty"); int x = vs::i32("x"); List<int> q(n, x); int xs[] = {x, x, x, x, x, x}; eq(q, xs, n, "List of n equal elements"); std::initializer_list<short> il = {(short)1, (short)2, (short)3}; List<int> i(std::vector<short>{il}); int is[] = {1, 2, 3}; eq(i, is, 3, "List from a vector of another type"); eq(l, a, n, "operand unchanged"); }
TEST(built_elem) { int a[8]; { size_t n = vs::pick(0, 4, "n"); List<Elem> l = lst<Elem>(n, a); size_t f = vs::pick(0, n, "from"); LinkedList<Elem> e; LinkedList<Elem> r(l.begin() + f, l.end()); eq(r, a + f, n - f, "LinkedList from a range"); e.append(r); r.append(e); int b[8]; for (size_t i = 0; i < n - f; ++i) b[i] = b[n - f + i] = a[f + i]; eq(r, b, 2 * (n - f), "LinkedList append"); eq(e, b, n - f, "operand unchanged"); if (n > f) { e.append(e.front()); b[n - f] = b[0]; eq(e, b, n - f + 1, "append of an element of the LinkedList"); } eq(l, a, n, "operand unchanged"); } CHECK(vs::cnt().live == 0, "nothing leaks"); }
