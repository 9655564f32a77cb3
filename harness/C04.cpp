//@ quick N=3 K=3
//@ thorough N=4 K=4
//@ bounds Every sequence of K operations on two arrays of initial sizes 0..N (new sizes 0..N), with a lifetime-checked element class; single operations on sizes up to 40; every block and element accounted for at the end.
//@ outside Longer sequences, larger sizes.
#include <utility>
#include "arr.hpp"
template <class T> static void accounted(long blocks, const char* m) { CHECK(vs_heap_live() == blocks, m); CHECK(vs::cnt().live == 0, m); }
TEST(history) {
  long blocks = vs_heap_live(); size_t N = vs::param("N", 3); long K = vs::param("K", 3);
  { size_t na = vs::pick(0, N, "na"), nb = vs::pick(0, N, "nb"); int x = vs::i32("x"); Array<Elem> a(na), b(nb, Elem(x)); size_t sa = a.size(), sb = b.size();
    for (long k = 0; k < K; ++k) switch (vs::pick(0, 13, "op")) {
      case 0: a = b; sa = sb; break; case 1: a = std::move(b); sa = sb; sb = 0; break; case 2: a.swap(b); std::swap(sa, sb); break; case 3: { size_t n = vs::pick(0, N, "n"); a.resize(n); sa = n; break; }
      case 4: { size_t n = vs::pick(0, N, "n"); if (a.size()) a.resize(n, a[0]); else a.resize(n, Elem(5)); sa = n; break; } case 5: { size_t n = vs::pick(0, N, "n"); a.reallocate(n); sa = n; break; } case 6: a.fill(Elem(3)); break; case 7: a.assign(b.begin(), b.end()); sa = sb; break;
      case 8: { Array<Elem>& s = a; a = s; break; } case 9: { Array<Elem>& s = a; a = std::move(s); break; } case 10: { Array<Elem> c(a); b = c; sb = sa; break; } case 11: { Array<Elem> c(std::move(a)); sa = 0; a = std::move(c); sa = a.size(); break; } case 12: b = Array<Elem>{Elem(1), Elem(2)}; sb = 2; break; default: { Array<Elem> c(b.begin(), b.end()); c.swap(a); sa = sb; } }
    CHECK(a.size() == sa && b.size() == sb, "sizes after the history"); CHECK(vs::cnt().live == (long)(sa + sb), "live elements are exactly those of the arrays"); long sum = 0; for (auto& e : a) sum += e.get(); for (auto& e : b) sum += e.get(); }
  accounted<Elem>(blocks, "everything is destroyed once and released"); }
template <class T> static void ops(size_t n, size_t m) {
  { Array<T> a(n), b(m, El<T>::mk(65)); Array<T> c(a), d(std::move(b)); a = d; b = std::move(a); d.swap(c); c.resize(n); c.resize(m, El<T>::mk(66)); c.reallocate(n + 1); c.fill(El<T>::mk(67)); c.assign(d.begin(), d.end()); d = c; Array<T> e(n, [](size_t) { return El<T>::mk(68); }); e = std::move(c); c = e; a = std::move(e); e = std::move(a); } }
TEST(sizes) { size_t n = vs::pick(0, 40, "n"), m = vs::pick(0, 2, "m"); m = m == 0 ? n : m == 1 ? n + 1 : n / 2; long blocks = vs_heap_live(); ops<Elem>(n, m); accounted<Elem>(blocks, "single operations release everything"); ops<std::string>(n, m); CHECK(vs_heap_live() == blocks, "single operations release everything (strings)"); ops<int>(n, m); CHECK(vs_heap_live() == blocks, "single operations release everything (int)"); }
TEST(nested) { long blocks = vs_heap_live(); { size_t n = vs::pick(0, 4, "n"), m = vs::pick(0, 4, "m"); Array<Array<Elem>> a(n, Array<Elem>(m)); Array<Array<Elem>> b(a); b.resize(n + 1); a = b; a = std::move(b); a.resize(m, a[0]); CHECK(a.size() == m, "nested size"); } accounted<Elem>(blocks, "arrays of arrays release everything"); }
