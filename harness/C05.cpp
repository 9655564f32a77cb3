//@ bounds Requested size: any 64-bit number; element sizes 1, 2, 3, 4, 8, 12, 16, 24 and 40 bytes; sizes that fit the 917504-byte allocation model are taken from 0..6, all others exceed it.
//@ outside Sizes between 7 and the largest that fits 917504 bytes (covered with real content by C01 and C03 up to their bounds).
#include <new>
#include <stdexcept>
#include "arr.hpp"
template <int N> struct Blob { unsigned char b[N]; Blob() { b[0] = 7; b[N - 1] = 7; } explicit Blob(int x) { b[0] = (unsigned char)x; b[N - 1] = (unsigned char)x; } bool is(int x) const { return b[0] == x && b[N - 1] == x; } friend bool operator==(const Blob& x, const Blob& y) { return x.b[0] == y.b[0] && x.b[N - 1] == y.b[N - 1]; } friend bool operator!=(const Blob& x, const Blob& y) { return !(x == y); } };
static uint64_t size(uint64_t lim) { uint64_t n = vs::u64("n"); if (n <= 6) { for (uint64_t k = 0; k < 6; ++k) if (n == k) { vs_reach("small"); return k; } return 6; } ASSUME(n > lim); return n; }
// f(n) either throws, or the array has n elements each usable; a size beyond the memory of the model must throw
template <int N, class F> static void attempt(F f) { long blocks = vs_heap_live(); uint64_t n = size(0xE0000 / N); bool big = n > 0xE0000 / N; int o = 0; { Array<Blob<N>> a; try { f(a, n); } catch (const std::exception&) { o = 1; } if (o == 0) { CHECK(a.size() == n, "the array has the requested size"); CHECK(!big, "an impossible size is refused with an exception"); for (uint64_t i = 0; i < n && i < 8; ++i) { CHECK(a[i].is(7), "each element is usable"); a[i] = Blob<N>(3); } vs_reach("built"); } else { CHECK(big, "a possible size is not refused"); vs_reach("refused"); CHECK(a.size() <= 2, "size unchanged after refusal"); for (auto& e : a) e = Blob<N>(1); } } CHECK(vs_heap_live() == blocks, "a refusal leaks nothing"); }
template <int N> static void all(int how) { typedef Array<Blob<N>> A; uint64_t k = 0; (void)k;
  switch (how) {
    case 0: attempt<N>([](A& a, uint64_t n) { A b(n); a.swap(b); }); break; case 1: attempt<N>([](A& a, uint64_t n) { A b(n, Blob<N>(7)); a.swap(b); }); break;
    case 2: attempt<N>([](A& a, uint64_t n) { A b(n, [](size_t) { return Blob<N>(7); }); a.swap(b); }); break; case 3: attempt<N>([](A& a, uint64_t n) { a = A(2); a.resize(n); }); break;
    case 4: attempt<N>([](A& a, uint64_t n) { a = A(2); a.resize(n, Blob<N>(7)); }); break; default: attempt<N>([](A& a, uint64_t n) { a = A(2); a.reallocate(n); }); } }
static void run(int how) { switch (vs::pick(0, 8, "elt")) { case 0: all<1>(how); break; case 1: all<2>(how); break; case 2: all<3>(how); break; case 3: all<4>(how); break; case 4: all<8>(how); break; case 5: all<12>(how); break; case 6: all<16>(how); break; case 7: all<24>(how); break; default: all<40>(how); } }
TEST(ctor) { run(0); }
TEST(ctor_value) { run(1); }
TEST(ctor_generate) { run(2); }
TEST(resize) { run(3); }
TEST(resize_value) { run(4); }
TEST(reallocate) { run(5); }
