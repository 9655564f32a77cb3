//@ quick N=2 K=4 J=3
//@ thorough N=2 K=5 J=4
//@ bounds Every sequence of K operations (construct, copy, assign including self and alias, write, destroy) over three owners with fresh arrays of 0..N elements; construction of sizes 0..40 from a size, a size and value, or a list; element values arbitrary. Histories of J further operations on two owners of arrays of 23 sizes from 3 to 1000; up to 66000 owners of one array; every size up to B and eighteen sizes around powers of two up to 70001.
//@ outside Longer histories and more owners; concurrent owners.
#include "arr.hpp"
using Helper::SharedArray;
template <class T> struct Owners { typedef SharedArray<T> A; A* s[3] = {nullptr, nullptr, nullptr}; int g[3] = {-1, -1, -1}; int ng = 0; size_t n[16]; int v[16][3];
  long live() { long r = 0; for (int k = 0; k < ng; ++k) if (g[0] == k || g[1] == k || g[2] == k) r += n[k]; return r; }
  void check() { for (int i = 0; i < 3; ++i) if (s[i]) { A& a = *s[i]; const A& c = a; size_t m = n[g[i]]; CHECK(a.size() == m, "the size is the one given at construction"); CHECK(a.end() - a.begin() == (long)m && c.end() - c.begin() == (long)m && c.begin() == a.begin(), "iterators span the array"); bool ok = true; for (size_t k = 0; k < m; ++k) { ok = ok & (El<T>::val(c[k]) == v[g[i]][k]); CHECK(&a[k] == &c[k] && &a[k] == a.begin() + k, "the access paths agree"); } CHECK(ok, "owners of one array see its content"); }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) if (s[i] && s[j] && n[g[i]] && n[g[j]]) CHECK((s[i]->begin() == s[j]->begin()) == (g[i] == g[j]), "exactly the owners of one array share storage"); }
};
template <class T> static void history(long K) { long N = vs::param("N", 2); long blocks = vs_heap_live(); { Owners<T> o; typedef SharedArray<T> A;
  for (long k = 0; k < K; ++k) { int i = vs::pick(0, 2, "i"); int op = o.s[i] ? vs::pick(3, 6, "op") : vs::pick(0, 2, "op"); if (op == 2 || op == 3) { int j = vs::pick(0, 2, "j"); if (!o.s[j]) continue; if (op == 2) o.s[i] = new A(*o.s[j]); else *o.s[i] = *o.s[j]; o.g[i] = o.g[j]; }
    else if (op <= 1 || op == 4) { size_t n = vs::pick(0, N, "n"); int q = o.ng++; o.n[q] = n; int x; T t = fresh<T>(x); if (op == 0) { for (size_t e = 0; e < n; ++e) o.v[q][e] = dval<T>(); o.s[i] = new A(n); if (!std::is_class<T>::value) for (size_t e = 0; e < n; ++e) (*o.s[i])[e] = T(); } else { for (size_t e = 0; e < n; ++e) o.v[q][e] = x; if (op == 1) o.s[i] = new A(n, t); else *o.s[i] = A(n, t); } o.g[i] = q; }
    else if (op == 5) { size_t n = o.n[o.g[i]]; if (!n) continue; size_t e = vs::pick(0, n - 1, "e"); int x; T t = fresh<T>(x); (*o.s[i])[e] = t; o.v[o.g[i]][e] = x; }
    else { delete o.s[i]; o.s[i] = nullptr; o.g[i] = -1; }
    o.check(); if (std::is_same<T, Elem>::value) CHECK(vs::cnt().live == o.live(), "elements live exactly while an owner exists"); }
  for (int i = 0; i < 3; ++i) delete o.s[i]; }
  CHECK(vs_heap_live() == blocks, "everything allocated is released with the last owner"); CHECK(vs::cnt().live == 0, "every element is destroyed once"); }
TEST(elem) { history<Elem>(vs::param("K", 4)); }
TEST(ints) { history<int>(vs::param("K", 4) - 1); }
TEST(strings) { history<std::string>(3); }
template <class T> static void sizes() { long blocks = vs_heap_live(); { size_t n = vs::pick(0, 40, "n"); int x; T t = fresh<T>(x); SharedArray<T> a(n, t); SharedArray<T> b(a); SharedArray<T> c(n + 1, t); bool ok = a.size() == n; for (size_t i = 0; i < n; ++i) ok = ok & (El<T>::val(b[i]) == x); CHECK(ok, "a size and a value"); c = b; CHECK(c.size() == n && c.begin() == a.begin(), "assignment shares"); size_t e = vs::pick(0, n ? n - 1 : 0, "e"); if (n) { int y; T u = fresh<T>(y); c[e] = u; CHECK(El<T>::val(a[e]) == y && El<T>::val(b[e]) == y, "a write is seen by all owners"); } } CHECK(vs_heap_live() == blocks, "all released"); }
TEST(sizes_elem) { sizes<Elem>(); CHECK(vs::cnt().live == 0, "every element is destroyed once"); }
TEST(sizes_int) { sizes<int>(); }
TEST(lists) { long blocks = vs_heap_live(); { int x = vs::i32("x"), y = vs::i32("y"), z = vs::i32("z"); SharedArray<int> a(std::initializer_list<int>{x, y, z}); CHECK(a.size() == 3 && a[0] == x && a[1] == y && a[2] == z, "elements from a list"); SharedArray<Elem> b({Elem(x), Elem(y)}); CHECK(b.size() == 2 && b[0].get() == x && b[1].get() == y, "elements from a list"); SharedArray<Elem> e(std::initializer_list<Elem>{}); CHECK(e.size() == 0 && e.begin() == e.end(), "no elements from an empty list"); b = b; e = b; b = e; CHECK(b.size() == 2 && e.size() == 2 && e.begin() == b.begin(), "alias assignment"); } CHECK(vs_heap_live() == blocks && vs::cnt().live == 0, "all released"); }
// the same with longer arrays: every fresh array has one of the sizes B, B+1 and 0, filled with one value, and single writes go to the first, middle or last element
template <class T> static void longer(long K) { static const size_t bs[] = {3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096}; size_t B = bs[vs::pick(0, std::is_class<T>::value ? 12 : 22, "B")]; long blocks = vs_heap_live(); { typedef SharedArray<T> A; A* s[2] = {nullptr, nullptr}; int g[2] = {-1, -1}; size_t n[8]; int v[8][3], f[8]; int ng = 0;
  for (long k = 0; k < K + 2; ++k) { int i = k < 2 ? k : vs::pick(0, 1, "i"); int op = k < 2 ? 0 : s[i] ? vs::pick(2, 5, "op") : vs::pick(0, 1, "op"); int j = 1 - i;
    if (op == 0 || op == 3) { size_t m = vs::pick(0, k == 0 ? 0 : 2, "m"); m = m == 0 ? B : m == 1 ? B + 1 : 0; int q = ng++, x; T t = fresh<T>(x); n[q] = m; f[q] = v[q][0] = v[q][1] = v[q][2] = x; if (op == 0) s[i] = new A(m, t); else *s[i] = A(m, t); g[i] = q; }
    else if (op == 1 || op == 2) { if (!s[j]) continue; if (op == 1) s[i] = new A(*s[j]); else *s[i] = *s[j]; g[i] = g[j]; }
    else if (op == 4) { size_t m = n[g[i]]; if (!m) continue; int e = vs::pick(0, 2, "e"), x; T t = fresh<T>(x); (*s[i])[e == 0 ? 0 : e == 1 ? m / 2 : m - 1] = t; v[g[i]][e] = x; }
    else { delete s[i]; s[i] = nullptr; g[i] = -1; }
    for (int h = 0; h < 2; ++h) if (s[h]) { A& a = *s[h]; size_t m = n[g[h]]; CHECK(a.size() == m && (size_t)(a.end() - a.begin()) == m, "the size is the one given at construction"); bool ok = true; for (size_t e = 0; e < m; ++e) ok = ok & (El<T>::val(a[e]) == (e == 0 ? v[g[h]][0] : e == m - 1 ? v[g[h]][2] : e == m / 2 ? v[g[h]][1] : f[g[h]])); CHECK(ok, "owners of one array see its content"); }
    if (s[0] && s[1] && n[g[0]] && n[g[1]]) CHECK((s[0]->begin() == s[1]->begin()) == (g[0] == g[1]), "exactly the owners of one array share storage"); }
  delete s[0]; delete s[1]; } CHECK(vs_heap_live() == blocks, "everything allocated is released with the last owner"); CHECK(vs::cnt().live == 0, "every element is destroyed once"); }
TEST(longer_int) { longer<int>(vs::param("J", 3)); }
TEST(longer_elem) { longer<Elem>(vs::param("J", 3)); }
TEST(owners) { long blocks = vs_heap_live(); size_t n = any_size(300); if (n > 66000) n = 66000; { int x = vs::i32("x"); SharedArray<Elem>* a = new SharedArray<Elem>(3, Elem(x)); Elem* p = a->begin(); SharedArray<Elem>** q = new SharedArray<Elem>*[n + 1]; for (size_t i = 0; i < n; ++i) q[i] = i & 1 ? new SharedArray<Elem>(*q[i - 1]) : new SharedArray<Elem>(*a); delete a; CHECK(vs::cnt().live == (n ? 3 : 0), "elements live exactly while an owner exists"); for (size_t i = 0; i < n; ++i) { if (i + 1 == n) CHECK(q[i]->begin() == p && (*q[i])[0].get() == x && (*q[i])[2].get() == x && vs::cnt().live == 3, "the last owner of many sees the content"); delete q[i]; } delete[] q; CHECK(vs::cnt().live == 0, "every element is destroyed once"); } CHECK(vs_heap_live() == blocks, "everything allocated is released with the last owner"); }
TEST(sizes_large) { long blocks = vs_heap_live(); { size_t n = any_size(300); SharedArray<unsigned char> a(n, (unsigned char)9), b(a), c(n + 1), d(n); c = b; bool ok = a.size() == n && c.size() == n && d.size() == n; for (size_t i = 0; i < n; ++i) { c[i] = (unsigned char)i; d[i] = 1; } for (size_t i = 0; i < n; ++i) ok = ok & (a[i] == (unsigned char)i && d[i] == 1); CHECK(ok, "owners of one array see its content"); d = a; CHECK(d.begin() == a.begin(), "assignment shares"); } CHECK(vs_heap_live() == blocks, "all released"); }
