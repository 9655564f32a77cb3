//@ quick N=7 M=4 B=300
//@ thorough N=9 M=5 B=700
//@ bounds Ordering and prefix: every pair of words with lengths up to N, and of lengths 31..33, 63..66, 127..129 (all bits arbitrary). Subword: every word up to M in every word up to N; every word up to 4 against 70-bit words with an arbitrary 4-bit window. Words of every length up to B and of twelve lengths up to 4097 that may differ in one place, against words shorter, equal or longer; subwords of 1..129 bits in words of 130..300 bits; runs of up to 40 bits.
//@ outside Longer words.
#include "bw.hpp"
static unsigned char a[9000], b[9000];
static bool r_prefix(size_t n, size_t m) { if (n > m) return false; bool r = true; for (size_t i = 0; i < n; ++i) r = r & (a[i] == b[i]); return r; }
static bool r_less(size_t n, size_t m) { bool r = n < m; for (size_t i = n < m ? n : m; i-- > 0;) r = ((a[i] < b[i]) | ((a[i] == b[i]) & r)); return r; }
static bool r_sub(size_t n, size_t m) { bool r = false; for (size_t i = 0; i + n <= m; ++i) { bool e = true; for (size_t j = 0; j < n; ++j) e = e & (a[j] == b[i + j]); r = r | e; } return r; }
static void order(size_t n, size_t m) { BinaryWord u = word(n, a, "u"), w = word(m, b, "w"); bool lt = r_less(n, m), pre = r_prefix(n, m), eq = (n == m) & pre; CHECK((u < w) == lt, "operator< is the lexicographic order, a proper prefix first"); CHECK((u == w) == eq, "equality is equality of all bits"); CHECK(u.is_prefix(w) == pre, "prefix exactly when w starts with u"); bool gt = w < u; CHECK(!(lt & gt) & ((lt | gt) != eq), "exactly one of <, >, == holds"); CHECK(!(u < u) && u.is_prefix(u) && u.is_subword(u), "every word relates to itself as it should"); same(u, a, n, "arguments unchanged"); same(w, b, m, "arguments unchanged"); }
TEST(ordering) { size_t N = vs::param("N", 7), n = vs::pick(0, N, "n"), m = vs::pick(0, N, "m"); order(n, m); }
TEST(ordering_long) { static const size_t s[] = {1, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129}; size_t n = s[vs::pick(0, 10, "n")], d = vs::pick(0, 3, "d"), m = d == 0 ? n : d == 1 ? n + 1 : d == 2 ? n - 1 : 66; order(n, m); }
TEST(subword) { size_t N = vs::param("N", 7), M = vs::param("M", 4), n = vs::pick(0, M, "n"), m = vs::pick(0, N, "m"); BinaryWord u = word(n, a, "u"), w = word(m, b, "w"); CHECK(u.is_subword(w) == r_sub(n, m), "subword exactly when u occurs contiguously"); same(u, a, n, "arguments unchanged"); same(w, b, m, "arguments unchanged"); }
TEST(subword_long) { size_t n = vs::pick(0, 4, "n"), m = 70; static const size_t at[] = {0, 1, 30, 62, 65, 66}; size_t p = at[vs::pick(0, 5, "at")]; BinaryWord u = word(n, a, "u"); bool fill = vs::boolean("fill"); fill = fill ? true : false; BinaryWord w; w.resize(m, fill); for (size_t i = 0; i < m; ++i) b[i] = fill; for (size_t i = 0; i < 4; ++i) { bool x = vs::boolean("x"); b[p + i] = x; w[p + i] = x; } CHECK(u.is_subword(w) == r_sub(n, m), "subword exactly when u occurs contiguously (long words)"); }
TEST(empty) { size_t m = vs::pick(0, 20, "m"); BinaryWord e, w = word(m, b, "w"); CHECK(e.is_prefix(w) && e.is_subword(w), "the empty word is a prefix and a subword of every word"); CHECK((e < w) == (m > 0) && !(w < e), "the empty word comes first"); if (m) CHECK(!w.is_prefix(e) && !w.is_subword(e), "only the empty word is a prefix or subword of the empty word"); }
// long words that agree except possibly in one place
static void big(size_t n, size_t m, size_t at) { BinaryWord u = wordp(n, at, a, "u"), w = wordp(m, at, b, "w"); bool lt = r_less(n, m), gt = [&] { bool r = m < n; for (size_t i = n < m ? n : m; i-- > 0;) r = ((b[i] < a[i]) | ((a[i] == b[i]) & r)); return r; }(), pre = r_prefix(n, m), eq = (n == m) & pre; CHECK((u < w) == lt && (w < u) == gt, "operator< is the lexicographic order, a proper prefix first"); CHECK((u == w) == eq, "equality is equality of all bits"); CHECK(u.is_prefix(w) == pre, "prefix exactly when w starts with u"); if (n + 3 >= m) CHECK(u.is_subword(w) == r_sub(n, m), "subword exactly when u occurs contiguously"); same(u, a, n, "arguments unchanged"); same(w, b, m, "arguments unchanged"); }
TEST(big) { size_t n = long_size(vs::param("B", 300)), d = vs::pick(0, 4, "d"), m = d == 0 ? n : d == 1 ? n + 1 : d == 2 ? (n ? n - 1 : 0) : d == 3 ? n / 2 : n + 64; size_t k = vs::pick(0, 3, "at"), l = n < m ? n : m; size_t at = k == 0 ? 0 : k == 1 ? (l ? l - 1 : 0) : k == 2 ? l / 2 : l > 256 ? 256 : l / 3; big(n, m, at); }
TEST(subword_big) { static const size_t ls[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}; size_t m = vs::pick(0, 2, "m"); m = m == 0 ? 130 : m == 1 ? 257 : 300; size_t n = ls[vs::pick(0, 16, "n")]; size_t k = vs::pick(0, 6, "off"), off = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? m - n : k == 3 ? m - n - 1 : k == 4 ? (m > n + 63 ? 63 : 0) : k == 5 ? (m > n + 64 ? 64 : 2) : (m - n) / 2;
  BinaryWord w = wordp(m, off + n / 2, b, "w", 99), u; u.resize(n); bool x = vs::boolean("x"); for (size_t i = 0; i < n; ++i) { a[i] = b[off + i]; if (i + 1 == n) a[i] = x; u[i] = (bool)a[i]; } CHECK(u.is_subword(w) == r_sub(n, m), "subword exactly when u occurs contiguously (long words)"); same(u, a, n, "arguments unchanged"); same(w, b, m, "arguments unchanged"); }
// a run of equal bits: almost-matches at every place
TEST(subword_run) { size_t m = vs::pick(0, 40, "m"), n = vs::pick(1, 8, "n"), e = vs::pick(0, 2, "e"); bool c = vs::boolean("c"); BinaryWord w, u; w.resize(m, true); u.resize(n, true); for (size_t i = 0; i < m; ++i) b[i] = 1; for (size_t i = 0; i < n; ++i) a[i] = 1; size_t p = vs::pick(0, m ? m - 1 : 0, "p"); if (m) { b[p] = c; w[p] = c; } size_t q = e == 0 ? 0 : e == 1 ? n - 1 : n / 2; a[q] = 0; u[q] = false; CHECK(u.is_subword(w) == r_sub(n, m), "subword exactly when u occurs contiguously (runs)"); }
