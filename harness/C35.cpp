//@ quick N=3 M=3
//@ thorough N=6 M=5
//@ bounds Every constructor (size; size and value; initializer list; generator; range of random-access and of list iterators; converting, implicit and explicit; with parameter; copy), copy assignment (same and other size, self), resize with and without value, reallocate, fill, assign, at every pair of sizes up to N, and sizes 9, 17, 33 (65, 129 in thorough), with a failure at every element construction, copy or assignment (element type with checked life cycle), at every generator call, at every storage allocation and at every allocation inside a string element, and without failure; all element values. SharedArray construction from a size, a size and value, and a list, at the same sizes, with a failure at the same points, next to an existing owner.
//@ outside Two failures in one operation; element destructors that throw.
#include <functional>
#include "arr.hpp"
struct Src { int v; operator Elem() const { return Elem(v); } };
struct Xsrc { int v; explicit operator Elem() const { return Elem(v); } };
struct PElem : Elem { PElem(const Src& s, int k) : Elem(s.v + k) { } PElem(double d, int k) : Elem((int)d + k) { } };
static long N() { return vs::param("N", 3); }
// every size up to N, then some larger ones
static int size() { static const int s[] = {9, 17, 33, 65, 129}; long k = vs::pick(0, N() + vs::param("M", 3), "n"); return k <= N() ? (int)k : s[k - N() - 1]; }
// builds an array in one of the ways; the array that comes out is r.v[0..r.n)
template <class F> static void interrupted(F build, long maxfail) {
  long base = vs_heap_live(), live = vs::cnt().live; int how = vs::pick(0, 2, "how"); long k = how == 0 ? -1 : maxfail > 8 && how == 2 ? vs::pick(0, 4, "k") : vs::pick(0, maxfail, "k");
  if (how == 1) vs::cnt().throw_at = k; if (how == 2) vs_fail_alloc(k);
  int r; { r = build(); }
  vs::cnt().throw_at = -1; vs_fail_alloc(-1);
  CHECK(vs_heap_live() == base, "no storage is leaked"); CHECK(vs::cnt().live == live, "every element object constructed is destroyed exactly once");
  if (how == 0) CHECK(r == 0, "nothing is thrown without a failure"); if (r == 1) vs_reach("element failure"); if (r == 2) vs_reach("allocation failure"); if (r == 1) CHECK(how == 1, "the element's exception arrives unchanged"); if (r == 2) CHECK(how == 2, "the allocator's exception arrives unchanged"); }
static void off() { vs::cnt().throw_at = -1; vs_fail_alloc(-1); }
// 0 finished and content checked, 1 Boom, 2 bad_alloc
template <class F> static int attempt(F f) { try { f(); return 0; } catch (const vs::Boom&) { off(); return 1; } catch (const std::bad_alloc&) { off(); return 2; } catch (...) { off(); CHECK(false, "the exception that was thrown arrives"); return 3; } }
// the array is readable within its size, assignable element by element and as a whole
template <class T> static void usable(Array<T>& a) { off(); for (size_t i = 0; i < a.size(); ++i) { CHECK(a.begin() + i == &a[i], "elements are at their places"); (void)El<T>::val(a[i]); } int y; T x = fresh<T>(y); for (size_t i = 0; i < a.size(); ++i) { a[i] = x; CHECK(El<T>::val(a.at(i)) == y, "elements can be assigned after a failure"); } Array<T> c(a); CHECK(c == a, "the array can be copied after a failure"); Array<T> d(a.size() + 1, x); a = d; CHECK(a == d && a.size() == c.size() + 1, "the array can be assigned to after a failure"); a.resize(1, x); CHECK(a.size() == 1, "and resized"); }

template <class MK> static void ctor(int n, const int* v, MK mk, int base) { interrupted([&]() { return attempt([&]() { Array<Elem> a(mk()); off(); content(a, v, n, "an array whose construction finishes has its elements"); usable(a); }); }, n + base); }
TEST(sized) { int z[130] = {0}; int n = size(); ctor(n, z, [&]() { return Array<Elem>((size_t)n); }, 0); }
TEST(valued) { int v[130]; int x = vs::i32("x"); for (int& i : v) i = x; int n = size(); Elem e(x); ctor(n, v, [&]() { return Array<Elem>((size_t)n, e); }, 0); }
TEST(listed) { int v[3]; for (int& i : v) i = vs::i32("v"); int n = vs::pick(0, 3, "n"); std::initializer_list<Elem> a{}, b{v[0]}, c{v[0], v[1]}, d{v[0], v[1], v[2]}; const auto& l = n == 0 ? a : n == 1 ? b : n == 2 ? c : d; ctor(n, v, [&]() { return Array<Elem>(l); }, 0); }
TEST(generated) { int v[130]; for (int& i : v) i = vs::i32("v"); int n = size(); const int* p = v; ctor(n, v, [&]() { return Array<Elem>((size_t)n, [p](size_t i) { return Elem(p[i]); }); }, 0); long g = n > N() ? (vs::flag("last") ? n - 1 : n / 2) : vs::pick(-1, N(), "g"); interrupted([&]() { int r = attempt([&]() { long left = g; Array<Elem> a((size_t)n, std::function<Elem(size_t)>([&, p](size_t i) { if (left-- == 0) throw vs::Boom(); return Elem(p[i]); })); off(); content(a, v, n, "generated"); }); return g >= 0 && r == 1 ? 0 : r; }, 2 * n); }
TEST(ranged) { int v[130]; for (int& i : v) i = vs::i32("v"); int n = size(); std::list<Elem> l; std::vector<int> w; for (int i = 0; i < n; ++i) { l.push_back(Elem(v[i])); w.push_back(v[i]); } bool list = vs::flag("list"); if (list) ctor(n, v, [&]() { return Array<Elem>(l.begin(), l.end()); }, 0); else ctor(n, v, [&]() { return Array<Elem>(w.begin(), w.end()); }, 0); }
TEST(converted) { int v[130]; for (int& i : v) i = vs::i32("v"); int n = size(); Array<Src> s(n); Array<Xsrc> x(n); for (int i = 0; i < n; ++i) { s[i].v = v[i]; x[i].v = v[i]; } if (vs::flag("explicit")) ctor(n, v, [&]() { return Array<Elem>(x); }, n); else ctor(n, v, [&]() { Array<Elem> a = s; return a; }, n); }
TEST(with_parameter) { int v[130]; for (int& i : v) i = vs::i32("v"); int n = vs::pick(0, N(), "n"); Array<Src> s(n); for (int i = 0; i < n; ++i) s[i].v = v[i] - 5; interrupted([&]() { return attempt([&]() { Array<PElem> a(s, 5); off(); bool ok = a.size() == (size_t)n; for (int i = 0; i < n; ++i) { int g = a[i].get(); ok = ok & (g == v[i]); } CHECK(ok, "an array made with a parameter"); }); }, n); interrupted([&]() { return attempt([&]() { Array<PElem> a({1.0, 2.0}, 5); off(); CHECK(a.size() == 2 && a[0].get() == 6 && a[1].get() == 7, "from numbers"); }); }, 2); }
TEST(copied) { Ref r; Array<Elem> a = make<Elem>(size(), r); ctor(r.n, r.v, [&]() { return Array<Elem>(a); }, 0); content(a, r.v, r.n, "the source is unchanged"); }

template <class T> static void modify(size_t n0, size_t m0) { long base = vs_heap_live(), live = vs::cnt().live; {
  Ref ra, rb; Array<T> a = make<T>(n0, ra), b = make<T>(m0, rb); int y; T x = fresh<T>(y); int op = vs::pick(0, 7, "op");
  int how = vs::pick(0, 2, "how"); ASSUME(how != 1 || (std::is_same<T, Elem>::value)); long k = how == 0 ? -1 : vs::pick(0, N() + 1, "k"); if (how == 1 && (n0 > 8 || m0 > 8)) { static const long ks[] = {0, 1, 7, 8, 15, 16, 31, 32, 63, 64}; long j = vs::pick(0, 13, "at"); k = j < 10 ? ks[j] : j == 10 ? (long)n0 - 1 : j == 11 ? (long)m0 - 1 : j == 12 ? (long)m0 / 2 : (long)m0 - 2; ASSUME(k >= 0); } if (how == 1) vs::cnt().throw_at = k; if (how == 2) vs_fail_alloc(k);
  Ref want = ra; size_t m = rb.n; bool keep = true;
  int r = attempt([&]() { switch (op) {
    case 0: a = b; break; case 1: { const Array<T>& s = a; a = s; break; } case 2: a.resize(m); break; case 3: a.resize(m, x); break; case 4: a.reallocate(m); break; case 5: a.fill(x); break; case 6: a.assign(b.begin(), b.end()); break; default: a = std::move(b); } });
  off();
  if (r == 0) { switch (op) { case 0: case 6: case 7: want = rb; break; case 1: break; case 2: case 3: for (size_t i = ra.n; i < m; ++i) want.v[i] = op == 2 ? dval<T>() : y; want.n = m; break; case 4: if (m != ra.n) { for (size_t i = 0; i < m; ++i) want.v[i] = dval<T>(); } want.n = m; break; default: for (size_t i = 0; i < ra.n; ++i) want.v[i] = y; }
    content(a, want.v, want.n, "an operation that finishes has its full effect"); }
  else { CHECK(how == (r == 1 ? 1 : 2), "the exception that was thrown arrives"); if (r == 1) vs_reach("element failure"); else vs_reach("allocation failure");
    keep = (op == 0 && m != ra.n) || op == 2 || op == 3 || op == 4; CHECK(op != 7, "moving does not fail");
    if (keep) { content(a, ra.v, ra.n, "a failed copy assignment to an array of another size, resize or reallocate leaves the content unchanged"); vs_reach("unchanged"); }
    else if (op != 6) CHECK(a.size() == ra.n, "the size is unchanged"); else { size_t s = a.size(); CHECK(s == ra.n || s == m, "the size is the old or the new one"); }
    if (!keep && op != 6) { for (size_t i = 0; i < ra.n; ++i) { int e = El<T>::val(a[i]), t = op == 0 ? (i < rb.n ? rb.v[i] : 0) : op == 1 ? ra.v[i] : y; CHECK((e == ra.v[i]) | (e == t), "each element has its old or its new value"); } vs_reach("partly assigned"); } }
  if (op != 7 || r != 0) content(b, rb.v, rb.n, "the other array is unchanged"); CHECK(El<T>::val(x) == y, "the value is unchanged"); usable(a); usable(b);
  } CHECK(vs_heap_live() == base, "no storage is leaked"); CHECK(vs::cnt().live == live, "every element object constructed is destroyed exactly once"); }
template <class T> static void small() { size_t n = vs::pick(0, N(), "n"), m = vs::pick(0, N(), "m"); modify<T>(n, m); }
TEST(modify_checked) { small<Elem>(); }
TEST(modify_large) { static const size_t s[] = {0, 2, 9, 17, 33, 65, 129}; size_t n = s[vs::pick(0, vs::param("M", 3) + 1, "n")], m = s[vs::pick(0, vs::param("M", 3) + 1, "m")]; ASSUME(n > 8 || m > 8); modify<Elem>(n, m); }
TEST(modify_strings) { small<std::string>(); }
// SharedArray: a construction that fails leaves nothing behind; copies and assignments do not fail
using Helper::SharedArray;
template <class MK> static void shared(int n, const int* v, MK mk, bool any) { interrupted([&]() { return attempt([&]() { SharedArray<Elem> a(mk()); off(); CHECK(a.size() == (size_t)n && a.end() - a.begin() == n, "a construction that finishes has its size"); bool ok = true; for (int i = 0; i < n; ++i) { int g = a[i].get(); ok = ok & (any | (g == v[i])); } CHECK(ok, "and its elements"); SharedArray<Elem> b(a); CHECK(b.begin() == a.begin(), "and can be shared"); }); }, 2 * n + 3); }
TEST(shared_sized) { int z[130] = {0}; int n = size(); shared(n, z, [&]() { return SharedArray<Elem>((size_t)n); }, false); }
TEST(shared_valued) { int v[130]; int x = vs::i32("x"); for (int& i : v) i = x; int n = size(); Elem e(x); shared(n, v, [&]() { return SharedArray<Elem>((size_t)n, e); }, false); CHECK(e.get() == x, "the value is unchanged"); }
TEST(shared_listed) { int v[3]; for (int& i : v) i = vs::i32("v"); int n = vs::pick(0, 3, "n"); std::initializer_list<Elem> a{}, b{v[0]}, c{v[0], v[1]}, d{v[0], v[1], v[2]}; const auto& l = n == 0 ? a : n == 1 ? b : n == 2 ? c : d; shared(n, v, [&]() { return SharedArray<Elem>(l); }, false); }
TEST(shared_assign) { long base = vs_heap_live(), live = vs::cnt().live; { int x, y; Elem e = fresh<Elem>(x), f = fresh<Elem>(y); int n = vs::pick(0, N(), "n"), m = vs::pick(0, N(), "m"), how = vs::pick(0, 2, "how"), k = vs::pick(0, N() + 1, "k"), op = vs::pick(0, 2, "op"); SharedArray<Elem> a(n, e), a2(a), b(m, f);
  if (how == 1) vs::cnt().throw_at = k; if (how == 2) vs_fail_alloc(k);
  int r = attempt([&]() { if (op == 0) { SharedArray<Elem> t(b); a = t; } else if (op == 1) a = SharedArray<Elem>((size_t)m, f); else a = a2; }); off();
  CHECK(r == 0 || op == 1, "copying and assigning do not fail"); CHECK(r == 0 || (a.begin() == a2.begin() && a.size() == a2.size()), "a failed construction leaves the target as it was"); CHECK(a2.size() == (size_t)n && b.size() == (size_t)m && a.size() == (size_t)(r || op == 2 ? n : m), "sizes"); bool ok = true; for (int i = 0; i < n; ++i) { int g = a2[i].get(); ok = ok & (g == x); } for (int i = 0; i < m; ++i) { int g = b[i].get(); ok = ok & (g == y); } for (size_t i = 0; i < a.size(); ++i) { int g = a[i].get(); ok = ok & (g == (r || op == 2 ? x : y)); } CHECK(ok, "elements"); if (r) vs_reach("shared failure");
  } CHECK(vs_heap_live() == base, "no storage is leaked"); CHECK(vs::cnt().live == live, "every element object constructed is destroyed exactly once"); }
