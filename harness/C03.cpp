//@ quick N=10 L=34 B=300
//@ thorough N=26 L=140 B=1100
//@ bounds Old and new sizes 0..N in every combination and, for int, old size 0..L with new sizes around it; arbitrary element values; the value passed to resize(n,t)/fill(t) a separate object or any element of the array itself; element types int, bool, std::string, a padded struct and a lifetime-checked class. Long arrays of every size up to B and eighteen sizes around powers of two up to 70001, to nine other sizes each. Up to three elements of types whose == identifies different values (-0.0, a struct compared by key only).
//@ outside Larger sizes; assign from a range inside the array itself (its iterators die with the old storage).
#include "arr.hpp"
#include <cstring>
template <class T> static void resizes(size_t n, size_t m) {
  Ref r; Array<T> a = make<T>(n, r); int d = dval<T>(); { Array<T> b(a); b.resize(m); int e[300]; for (size_t i = 0; i < m; ++i) e[i] = i < n ? r.v[i] : d; content(b, e, m, "resize(n): keeps the first elements, value-initialises the rest"); }
  { Array<T> b(a); int x; T t = fresh<T>(x); b.resize(m, t); int e[300]; for (size_t i = 0; i < m; ++i) e[i] = i < n ? r.v[i] : x; content(b, e, m, "resize(n,t): keeps the first elements, sets the rest to t"); }
  if (n) { Array<T> b(a); size_t k = vs::pick(0, n - 1 < 3 ? n - 1 : 3, "k"); if (k == 3) k = n - 1; b.resize(m, b[k]); int e[300]; for (size_t i = 0; i < m; ++i) e[i] = i < n ? r.v[i] : r.v[k]; content(b, e, m, "resize(n,t) with t an element of the array"); }
  { Array<T> b(a); b.reallocate(m); int e[300]; for (size_t i = 0; i < m; ++i) e[i] = m == n ? r.v[i] : d; content(b, e, m, "reallocate(n): value-initialised, or unchanged for the same size"); b.resize(n); b.resize(m); CHECK(b.size() == m, "resizing again"); }
  content(a, r.v, n, "resizing a copy leaves the original alone"); }
template <class T> static void fills(size_t n, size_t m) {
  Ref r, s; Array<T> a = make<T>(n, r), b = make<T>(m, s); int e[300], x; T t = fresh<T>(x); { Array<T> c(a); c.fill(t); for (size_t i = 0; i < n; ++i) e[i] = x; content(c, e, n, "fill(x): every element is x"); }
  if (n) { Array<T> c(a); size_t k = n / 2; c.fill(c[k]); for (size_t i = 0; i < n; ++i) e[i] = r.v[k]; content(c, e, n, "fill(x) with x an element of the array"); }
  if (m >= n) { Array<T> c(a); c.fill(b.begin()); content(c, s.v, n, "fill(first): the sequence"); }
  { Array<T> c(a); c.assign(b.begin(), b.end()); content(c, s.v, m, "assign(first,last): exactly the range"); } { Array<T> c(a); std::list<T> l(b.begin(), b.end()); c.assign(l.begin(), l.end()); content(c, s.v, m, "assign(first,last) from a list"); content(b, s.v, m, "assign leaves the source alone"); } content(a, r.v, n, "original untouched"); }
#define NM size_t n = vs::pick(0, vs::param("N", 9), "n"), m = vs::pick(0, vs::param("N", 9), "m")
TEST(resize_int) { NM; resizes<int>(n, m); resizes<Pair8>(n, m); }
TEST(resize_elem) { NM; resizes<Elem>(n, m); }
TEST(resize_string) { NM; resizes<std::string>(n, m); resizes<bool>(n, m); }
TEST(fill_int) { NM; fills<int>(n, m); fills<Pair8>(n, m); }
TEST(fill_elem) { NM; fills<Elem>(n, m); fills<std::string>(n, m); }
TEST(large) { size_t n = vs::pick(0, vs::param("L", 34), "n"), k = vs::pick(0, 4, "m"); size_t m = k == 0 ? n : k == 1 ? n + 1 : k == 2 ? n / 2 : k == 3 ? 2 * n : n ? n - 1 : 33; if (m > 140) m = 140; resizes<int>(n, m); fills<int>(n, m); resizes<Elem>(n, m); }
TEST(sequence) { Ref r; size_t n = vs::pick(0, 3, "n"); Array<int> a = make<int>(n, r); int e[64]; size_t z = n; for (size_t i = 0; i < n; ++i) e[i] = r.v[i];
  for (int k = 0; k < 3; ++k) { int op = vs::pick(0, 4, "op"); size_t m = vs::pick(0, 3, "m"); int x = vs::i32("x"); if (op == 0) { a.resize(m); for (size_t i = z; i < m; ++i) e[i] = 0; z = m; } else if (op == 1) { a.resize(m, x); for (size_t i = z; i < m; ++i) e[i] = x; z = m; } else if (op == 2) { if (z != m) for (size_t i = 0; i < m; ++i) e[i] = 0; a.reallocate(m); z = m; } else if (op == 3) { a.fill(x); for (size_t i = 0; i < z; ++i) e[i] = x; if (m) continue; } else { int s[4] = {x, 1, 2, 3}; a.assign(s, s + m); for (size_t i = 0; i < m; ++i) e[i] = s[i]; z = m; } content(a, e, z, "content after a sequence of operations"); } }
template <class T> static void big(size_t n, size_t m, size_t sym = sizeof(T) == 1 ? 70 : 2000) { int b = 5; if (n < sym) b = vs::i32("b"); int d = dval<T>(), x = pv<T>(4, 1), y = pv<T>(6, 1); Array<T> a(n, [b](size_t i) { return pat<T>(i, b); }); T t = pat<T>(4, 1), u = pat<T>(6, 1);
  { Array<T> c(a); c.resize(m); holds(c, m, "resize(n): keeps the first elements, value-initialises the rest", [=](size_t i) { return i < n ? pv<T>(i, b) : d; }); c.resize(n); size_t l = n < m ? n : m; holds(c, n, "resize and back", [=](size_t i) { return i < l ? pv<T>(i, b) : d; }); }
  { Array<T> c(a); c.resize(m, t); holds(c, m, "resize(n,t): keeps the first elements, sets the rest to t", [=](size_t i) { return i < n ? pv<T>(i, b) : x; }); c.assign(a.begin(), a.end()); holds(c, n, "assign(first,last): exactly the range", [=](size_t i) { return pv<T>(i, b); }); c.fill(u); holds(c, n, "fill(x): every element is x", [=](size_t) { return y; }); c.reallocate(m); holds(c, m, "reallocate(n)", [=](size_t) { return m == n ? y : d; }); }
  if (n) { Array<T> c(a); size_t k = n - 1; int z = pv<T>(k, b); c.resize(m, c[k]); holds(c, m, "resize(n,t) with t an element of the array", [=](size_t i) { return i < n ? pv<T>(i, b) : z; }); }
  { Array<T> c(m, t); if (m <= n) { c.fill(a.begin()); holds(c, m, "fill(first): the sequence", [=](size_t i) { return pv<T>(i, b); }); } c.assign(a.begin(), a.end()); holds(c, n, "assign(first,last): exactly the range", [=](size_t i) { return pv<T>(i, b); }); } }
static size_t other(size_t n) { size_t k = vs::pick(0, 8, "m"); return k == 0 ? n : k == 1 ? n + 1 : k == 2 ? n / 2 : k == 3 ? 2 * n : k == 4 ? (n ? n - 1 : 33) : k == 5 ? 0 : k == 6 ? 255 : k == 7 ? 256 : n + 70; }
TEST(big_char) { size_t n = any_size(vs::param("B", 300)); big<unsigned char>(n, other(n)); }
TEST(big_int) { size_t n = any_size(vs::param("B", 300)); if (n <= 66000) big<int>(n, other(n)); }
TEST(big_pair) { size_t n = any_size(vs::param("B", 300)); if (n < 9000) big<Pair8>(n, other(n), 300); }
// Element types whose == does not see everything the element holds: what an element is after fill, assign or resize is the new value, not one that merely compares equal to it.
struct Coarse { int key = 0; int tag = 0; friend bool operator==(const Coarse& a, const Coarse& b) { return a.key == b.key; } friend bool operator!=(const Coarse& a, const Coarse& b) { return !(a == b); } };
static_assert(sizeof(Coarse) == 8); template <class T> static bool same_bits(const T& a, const T& b) { unsigned long long x, y; static_assert(sizeof(T) == 8); std::memcpy(&x, &a, 8); std::memcpy(&y, &b, 8); return x == y; }
template <class T, class F> static void coarse(F mk) { size_t n = vs::pick(0, 3, "n"), m = vs::pick(0, 3, "m"); T o[4] = {mk(), mk(), mk(), mk()}, x = mk(); Array<T> a(o, o + n); auto is = [](const Array<T>& c, const T* e, size_t k, const char* w) { CHECK(c.size() == k, w); bool ok = true; for (size_t i = 0; i < k; ++i) ok = ok & same_bits(c[i], e[i]); CHECK(ok, w); };
  T f[4] = {x, x, x, x}, p[4] = {o[3], o[2], o[1], o[0]}, g[4], z[4]; T d = T(); for (size_t i = 0; i < 4; ++i) { g[i] = i < n ? o[i] : x; z[i] = i < n ? o[i] : d; } { Array<T> c(a); c.fill(x); is(c, f, n, "fill(x): every element is x"); } { Array<T> c(a); c.fill(p); is(c, p, n, "fill(first): the sequence"); } { Array<T> c(a); c.assign(p, p + m); is(c, p, m, "assign(first,last): exactly the range"); }
  { Array<T> c(a); c.resize(m, x); is(c, g, m, "resize(n,t): keeps the first elements, sets the rest to t"); } { Array<T> c(a); c.resize(m); is(c, z, m, "resize(n): keeps the first elements, value-initialises the rest"); } { Array<T> c(m, x); c = a; is(c, o, n, "assignment"); } is(a, o, n, "original untouched"); }
TEST(coarse_pair) { coarse<Coarse>([] { Coarse c; c.key = vs::i32("key"); c.tag = vs::i32("tag"); return c; }); }
TEST(coarse_real) { coarse<double>([] { return vs::f64("real"); }); }
