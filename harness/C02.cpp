//@ quick N=9 L=34 B=300
//@ thorough N=26 L=140 B=1100
//@ bounds Every pair of sizes 0..N, plus single sizes up to L for copying, arbitrary element values; element types int, unsigned char, std::string, a padded struct and a lifetime-checked class; one write at an arbitrary position after each copy. Long arrays of every size up to B and eighteen sizes around powers of two up to 70001, with one arbitrary element at six places. Comparison of up to three elements whose == is not reflexive (NaN) or identifies different values (-0.0 and 0.0).
//@ outside Larger sizes.
#include <cstring>
#include <stdexcept>
#include <utility>
#include "arr.hpp"
template <class T> static void poke(Array<T>& a, Ref& r) { if (a.size()) { size_t k = a.size() / 2; int x; T t = fresh<T>(x); a[k] = t; r.v[k] = x; } }
template <class T> static void copies(size_t n, size_t m) {
  Ref r, s; Array<T> a = make<T>(n, r), b = make<T>(m, s);
  { Array<T> c(a); content(c, r.v, n, "copy construction: equal content"); Ref rc = r; poke(c, rc); content(a, r.v, n, "changing a copy does not change the source"); content(c, rc.v, n, "copy holds its own elements"); poke(a, r); content(c, rc.v, n, "changing the source does not change the copy"); }
  Array<T>* p = &(b = a); CHECK(p == &b, "assignment returns the target"); content(b, r.v, n, "copy assignment: target equals source"); content(a, r.v, n, "copy assignment: source unchanged"); Ref rb = r; poke(b, rb); content(a, r.v, n, "changing the target does not change the source"); content(b, rb.v, n, "target holds its own elements"); poke(a, r); content(b, rb.v, n, "changing the source does not change the target");
  Array<T>& self = a; a = self; content(a, r.v, n, "self-assignment changes nothing"); }
template <class T> static void moves(size_t n, size_t m) {
  Ref r, s; Array<T> a = make<T>(n, r), b = make<T>(m, s), e;
  a.swap(b); content(a, s.v, m, "swap exchanges contents"); content(b, r.v, n, "swap exchanges contents (other)"); a.swap(a); content(a, s.v, m, "swap with itself"); std::swap(a, b); content(a, r.v, n, "std::swap"); content(b, s.v, m, "std::swap (other)");
  Array<T> c(std::move(a)); content(c, r.v, n, "move construction: target has the content"); content(a, e.begin() ? nullptr : s.v, 0, "move construction: source empty");
  a = c; content(a, r.v, n, "a moved-from array can be assigned to"); Array<T>* p = &(b = std::move(c)); CHECK(p == &b, "move assignment returns the target"); content(b, r.v, n, "move assignment: target has the content"); content(c, s.v, 0, "move assignment: source empty");
  Array<T>& self = b; b = std::move(self); content(b, r.v, n, "self-move changes nothing"); c = std::move(b); content(c, r.v, n, "move into an empty array"); content(b, s.v, 0, "source empty again"); b.resize(2, c.size() ? c[0] : El<T>::mk(3)); CHECK(b.size() == 2, "moved-from array is usable"); }
template <class T> static void equal(size_t n, size_t m) {
  Ref r, s; Array<T> a = make<T>(n, r), b = make<T>(m, s); bool e = n == m; for (size_t i = 0; i < n && i < m; ++i) e = e & (r.v[i] == s.v[i]); bool q = a == b, u = a != b; CHECK(q == e, "a==b exactly when sizes and elements agree"); CHECK(u == !e, "a!=b is the negation"); CHECK((b == a) == e && a == a && !(a != a), "== is symmetric and reflexive"); if (e) vs_reach("equal"); else vs_reach("unequal"); content(a, r.v, n, "comparison changes nothing"); }
#define NM size_t n = vs::pick(0, vs::param("N", 9), "n"), m = vs::pick(0, vs::param("N", 9), "m")
TEST(copy_int) { NM; copies<int>(n, m); }
TEST(copy_elem) { NM; copies<Elem>(n, m); }
TEST(copy_string) { NM; copies<std::string>(n, m); copies<Pair8>(n, m); copies<unsigned char>(n, m); }
TEST(copy_large) { size_t n = vs::pick(0, vs::param("L", 34), "n"), m = vs::pick(0, 2, "m"); m = m == 0 ? n : m == 1 ? n + 1 : n / 2; copies<int>(n, m); copies<Elem>(n, m); moves<int>(n, m); moves<Elem>(n, m); }
TEST(move_int) { NM; moves<int>(n, m); }
TEST(move_elem) { NM; moves<Elem>(n, m); moves<std::string>(n, m); moves<Pair8>(n, m); }
TEST(equal_int) { NM; if (n > 5 || m > 5) { if (n != m && n + 1 != m) return; } equal<int>(n, m); }
TEST(equal_elem) { size_t n = vs::pick(0, 3, "n"), m = vs::pick(0, 3, "m"); equal<Elem>(n, m); equal<unsigned char>(n, m); }
template <class T> static void big(size_t n) { int b = 5; if (n < (sizeof(T) == 1 ? 70u : 2000u)) b = vs::i32("b"); auto f = [b](size_t i) { return pv<T>(i, b); }; Array<T> a(n, [b](size_t i) { return pat<T>(i, b); }), w(3u, pat<T>(9, 1)), z(n, pat<T>(2, 1)), e;
  { Array<T> c(a); holds(c, n, "copy construction: equal content", f); CHECK(c == a && !(c != a), "a copy is equal"); CHECK(n == 0 || c.begin() != a.begin(), "a copy has its own elements"); w = a; holds(w, n, "copy assignment: target equals source", f); z = a; holds(z, n, "copy assignment, same size", f); e = a; holds(e, n, "copy assignment to an empty array", f); Array<T>& s = a; a = s; holds(a, n, "self-assignment changes nothing", f); Array<T> d(std::move(c)); holds(d, n, "move construction: content", f); CHECK(c.size() == 0 && c.empty(), "move construction: source empty"); z = std::move(d); holds(z, n, "move assignment: content", f); CHECK(d.size() == 0, "move assignment: source empty"); }
  if (n) { size_t k = vs::pick(0, 5, "k"); k = k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : k == 3 ? n / 3 : k == 4 ? (n > 9 ? n - 9 : 0) : 255 % n; int x = 0; T t = fresh<T>(x); w[k] = t; bool same = x == f(k), q = w == a, u = w != a, v = a == w; CHECK(q == same && u == !same && v == same, "arrays that differ in one element are unequal"); holds(a, n, "changing the target does not change the source", f);
    Array<T> p(a.begin(), a.end() - 1); CHECK(p != a && a != p && !(p == a) && !(a == p), "arrays of different size are unequal"); a.swap(p); CHECK(a.size() == n - 1, "swap"); holds(p, n, "swap exchanges contents", f); a = p; holds(a, n, "assignment after swap", f); } }
TEST(big_char) { big<unsigned char>(any_size(vs::param("B", 300))); }
TEST(big_int) { big<int>(any_size(vs::param("B", 300))); }
TEST(big_pair) { size_t n = any_size(vs::param("B", 300)); if (n < 20000) big<Pair8>(n); }
// elements whose equality is not that of their representation, nor reflexive: arrays are equal exactly when all corresponding elements are
struct Od { int v; explicit Od(int x = 0) : v(x) {} friend bool operator==(const Od& a, const Od& b) { return (a.v & b.v & 3) == 1; } friend bool operator!=(const Od& a, const Od& b) { return !(a == b); } };
TEST(odd_equality) { size_t n = vs::pick(0, 4, "n"), m = vs::pick(0, 4, "m"); Array<Od> a(n), b(m); for (size_t i = 0; i < n; ++i) a[i].v = vs::i32("a"); for (size_t i = 0; i < m; ++i) b[i].v = vs::i32("b"); bool e = n == m, r = true; for (size_t i = 0; i < n; ++i) { r = r & (a[i] == a[i]); if (i < m) e = e & (a[i] == b[i]); } const Array<Od>&x = a, &y = b; CHECK((x == y) == e && (x != y) == !e, "a==b exactly when sizes and elements agree"); CHECK((x == x) == r && (x != x) == !r, "an array is equal to itself exactly when its elements are equal to themselves"); Array<Od> c(a); CHECK((c == a) == r && (a != c) == !r, "a copy is equal exactly when the elements are equal to their copies"); b = a; bool ok = b.size() == n; for (size_t i = 0; i < n && ok; ++i) ok = ok & (b[i].v == a[i].v); CHECK(ok, "assignment gives the source's elements whatever their equality"); }
TEST(real_equality) { size_t n = vs::pick(0, 2, "n"); Array<double> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = vs::f64("a"); b[i] = vs::f64("b"); } bool e = true, r = true; for (size_t i = 0; i < n; ++i) { e = e & (a[i] == b[i]); r = r & (a[i] == a[i]); } CHECK((a == b) == e && (a != b) == !e, "a==b exactly when sizes and elements agree"); CHECK((a == a) == r && (a != a) == !r, "an array is equal to itself exactly when its elements are equal to themselves"); b = a; Array<double> c(a); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (std::memcmp(&b[i], &a[i], 8) == 0) & (std::memcmp(&c[i], &a[i], 8) == 0); CHECK(ok, "copies are exact, also of negative zeros and numbers that are not"); }
