//@ quick N=5
//@ thorough N=40
//@ bounds Arrays of 0..N elements and shared arrays of 1..N elements of types aligned to 1, 2, 4, 8, 16, 32, 64, 128 and 256 bytes, made by every constructor and changed by every operation that allocates, with the allocator placing blocks at every multiple of 16 bytes modulo 256.
//@ outside Larger sizes; alignments above 256.
#include <vector>
#include "array.hpp"
#include "vs.hpp"
using namespace Helper;
template <size_t A> struct alignas(A) Al { unsigned char v = 0; Al() = default; Al(int i) : v((unsigned char)i) {} Al(const Al&) = default; Al& operator=(const Al&) = default; friend bool operator!=(const Al& a, const Al& b) { return a.v != b.v; } };
template <class T> static bool fits(const T* p, size_t n) { bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok && ((uintptr_t)(p + i) & (alignof(T) - 1)) == 0; return ok; }
template <class T> static void good(const Array<T>& a, size_t n, const char* w) { CHECK(a.size() == n && (n == 0 || fits(a.begin(), n)), w); }
template <class T> static void arrays() { size_t n = vs::pick(0, vs::param("N", 5), "n"), m = n / 2 + 3; long live = vs_heap_live(); vs_skew(16 * vs::pick(0, 15, "skew")); { T x(7);
    Array<T> a(n); good(a, n, "Array(n)"); Array<T> b(n, x); good(b, n, "Array(n,x)"); Array<T> c{x, x, x}; good(c, 3, "Array from an initialiser list"); Array<T> d(n, [](size_t i) { return T((int)i); }); good(d, n, "Array from a generator"); Array<T> e(d.begin(), d.end()); good(e, n, "Array from a range"); Array<T> f(d); good(f, n, "copy"); Array<int> s(n, [](size_t i) { return (int)i; }); Array<T> g(s); good(g, n, "conversion");
    f.resize(m); good(f, m, "resize(n)"); f.resize(n + 1, x); good(f, n + 1, "resize(n,t)"); f.reallocate(m + 1); good(f, m + 1, "reallocate"); f.assign(d.begin(), d.end()); good(f, n, "assign"); c = d; good(c, n, "copy assignment"); Array<T> h(std::move(c)); good(h, n, "move"); c = std::move(h); good(c, n, "move assignment"); c.swap(b); good(b, n, "swap"); good(c, n, "swap"); Array<T> u(n, Uninitialised()); good(u, n, "Array with uninitialised elements"); for (size_t i = 0; i < n; ++i) new (&u[i]) T(x); }
  vs_skew(0); CHECK(vs_heap_live() == live, "all storage is released"); }
template <class T> static void shared() { size_t n = vs::pick(1, vs::param("N", 5), "n"); long live = vs_heap_live(); vs_skew(16 * vs::pick(0, 15, "skew")); { T x(7); SharedArray<T> a(n), b(n, x), c{x, x}; CHECK(fits(a.begin(), n) && fits(b.begin(), n) && fits(c.begin(), 2), "shared arrays"); SharedArray<T> d(b); d = a; CHECK(fits(d.begin(), n), "shared array after assignment"); } vs_skew(0); CHECK(vs_heap_live() == live, "all storage is released"); }
template <template <size_t> class Z, class F> static void each(F f) { switch (vs::pick(0, 8, "alignment")) { case 0: f(Z<1>()); break; case 1: f(Z<2>()); break; case 2: f(Z<4>()); break; case 3: f(Z<8>()); break; case 4: f(Z<16>()); break; case 5: f(Z<32>()); break; case 6: f(Z<64>()); break; case 7: f(Z<128>()); break; default: f(Z<256>()); } }
template <size_t A> struct Tag { using type = Al<A>; };
TEST(array) { each<Tag>([](auto t) { arrays<typename decltype(t)::type>(); }); }
TEST(shared_array) { each<Tag>([](auto t) { shared<typename decltype(t)::type>(); }); }
