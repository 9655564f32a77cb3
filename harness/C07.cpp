//@ quick N=8 L=40 B=300
//@ thorough N=10 L=90 B=1100
//@ bounds Every strictly increasing index array for nmax up to N; up to two indices, or all but up to two, for nmax up to L. Seven patterned index sets for every size up to B and eighteen sizes around powers of two up to 70001.
//@ outside Larger nmax.
#include "arr.hpp"
static void verify(size_t nmax, size_t m) { Array<size_t> v(m); for (size_t i = 0; i < m; ++i) { v[i] = vs::u64("var"); ASSUME(v[i] < nmax); if (i) ASSUME(v[i - 1] < v[i]); } Array<size_t> u(v); Array<size_t> c = Helper::complement(nmax, u);
  CHECK(c.size() == nmax - m, "as many indices as are missing"); bool ok = true, inc = true; for (size_t k = 0; k < c.size(); ++k) { size_t x = c[k]; ok = ok & (x < nmax); for (size_t i = 0; i < m; ++i) ok = ok & (x != v[i]); if (k) inc = inc & (c[k - 1] < x); } CHECK(ok, "exactly indices below nmax that are not in the array"); CHECK(inc, "in increasing order"); CHECK(u == v, "argument unchanged"); }
TEST(small) { size_t n = vs::pick(0, vs::param("N", 8), "nmax"), m = vs::pick(0, n, "m"); verify(n, m); }
TEST(few) { size_t n = vs::pick(2, vs::param("L", 40), "nmax"), m = vs::pick(0, 2, "m"); verify(n, m); }
TEST(most) { size_t n = vs::pick(2, vs::param("L", 40) / 2, "nmax"), m = n - vs::pick(0, 1, "m"); verify(n, m); }
// long index ranges with a patterned index array: every k-th index, a block, or all but a block
TEST(large) { size_t n = any_size(vs::param("B", 300)); if (n > 9000) n -= 3; int how = vs::pick(0, 6, "how"); size_t lo = n / 3, hi = n - n / 4, c = 0; auto in = [&](size_t i) { return how == 0 ? i % 2 == 0 : how == 1 ? i % 3 == 1 : how == 2 ? i >= lo && i < hi : how == 3 ? i < lo || i >= hi : how == 4 ? true : how == 5 ? i + 1 == n : i % 257 == 0; };
  for (size_t i = 0; i < n; ++i) c += in(i); Array<size_t> v(c); size_t k = 0; for (size_t i = 0; i < n; ++i) if (in(i)) v[k++] = i; Array<size_t> u(v); Array<size_t> r = Helper::complement(n, u); CHECK(r.size() == n - c, "as many indices as are missing"); bool ok = true; k = 0; for (size_t i = 0; i < n; ++i) if (!in(i)) ok = ok && k < r.size() && r[k++] == i; CHECK(ok && k == n - c, "exactly the missing indices in increasing order"); CHECK(u == v, "argument unchanged"); vs_observe(n); }
