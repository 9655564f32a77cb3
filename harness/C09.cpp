//@ quick N=5 L=66 B=300 E=3
//@ thorough N=7 L=130 B=700 E=7
//@ bounds Words up to N arbitrary bits; erase_prefix with every int; words of length up to L with one arbitrary bit at the front, at the back or at a word boundary. Appends to words of every length up to B and twelve lengths up to 4097; prefixes of words of up to 512 bits; erase_prefix by any number on words of 257, 300 and 1025 bits.
//@ outside Longer words.
#include "bw.hpp"
static unsigned char a[20000], b[20000];
// every int: one path for each of lo..hi, and one for all below and one for all above
static int any_int(int lo, int hi) { long c = vs::pick(lo - 1, hi + 1, "which"); int k = vs::i32("k"); if (c < lo) ASSUME(k < lo); else if (c > hi) ASSUME(k > hi); else { ASSUME(k == c); return (int)c; } return k; }
TEST(append_bit) { size_t n = vs::pick(0, vs::param("L", 66), "n"); BinaryWord w = word(n, a, "w"); bool x = vs::boolean("x"); w.append(x); a[n] = x; same(w, a, n + 1, "append(bit) adds exactly that bit at the end"); }
TEST(append_bits) { BinaryWord w; size_t n = vs::pick(0, 70, "n"); unsigned h = 7; for (size_t i = 0; i < n; ++i) { h = h * 1103515245 + 12345; bool x = (h >> 16) & 1; w.append(x); a[i] = x; } bool y = vs::boolean("y"); w.append(y); a[n] = y; w.append(true); a[n + 1] = 1; same(w, a, n + 2, "repeated append"); }
TEST(append_word) { size_t N = vs::param("N", 5), n = vs::pick(0, N, "n"), m = vs::pick(0, N, "m"); BinaryWord w = word(n, a, "w"), u = word(m, b, "u"); w.append(u); for (size_t i = 0; i < m; ++i) a[n + i] = b[i]; same(w, a, n + m, "append(word) adds exactly those bits at the end"); same(u, b, m, "the appended word is unchanged"); }
TEST(append_self) { size_t n = vs::pick(0, vs::param("N", 5) + 2, "n"); BinaryWord w = word(n, a, "w"); w.append(w); for (size_t i = 0; i < n; ++i) a[n + i] = a[i]; same(w, a, 2 * n, "appending a word to itself doubles it"); }
static size_t pos(size_t n) { size_t k = vs::pick(0, 3, "at"); return k == 0 ? 0 : k == 1 ? n - 1 : k == 2 ? n / 2 : 63 < n ? 63 : 0; }
TEST(append_long) { size_t n = vs::pick(0, vs::param("L", 66), "n"), m = vs::pick(1, 3, "m"); m = m == 1 ? 64 : m == 2 ? 65 : n; BinaryWord w = word(n, a, "w"), u = word1(m, m ? pos(m) : 0, b, "u"); if (m == n && vs::boolean("self")) { w = u; w.append(w); for (size_t i = 0; i < n; ++i) a[i] = b[i]; } else w.append(u); for (size_t i = 0; i < m; ++i) a[n + i] = b[i]; same(w, a, n + m, "append of long words"); same(u, b, m, "the appended word is unchanged"); }
TEST(erase) { size_t n = vs::pick(0, vs::param("N", 5), "n"); BinaryWord w = word(n, a, "w"); int k = any_int(1, (int)n); w.erase_prefix(k); size_t e = k < 0 ? 0 : k > (int)n ? n : (size_t)k; same(w, a + e, n - e, "erase_prefix removes exactly the first bits"); if (e == n && n > 2) vs_reach("all erased"); if (e == 0 && n > 2) vs_reach("none erased"); }
TEST(erase_long) { size_t n = vs::pick(60, vs::param("L", 66), "n"); BinaryWord w = word1(n, pos(n), a, "w"); long c = vs::pick(0, 9, "which"); int k = vs::i32("k"); if (c == 0) ASSUME(k < 1); else if (c == 9) ASSUME(k > (int)n); else { int v = c < 4 ? (int)c : c == 4 ? (int)n / 2 : (int)n + (int)c - 8; ASSUME(k == v); k = v; } w.erase_prefix(k); size_t e = k < 0 ? 0 : k > (int)n ? n : (size_t)k; same(w, a + e, n - e, "erase_prefix on long words"); }
TEST(set_back) { size_t n = vs::pick(1, vs::param("L", 66), "n"); BinaryWord w = word(n, a, "w"); bool x = vs::boolean("x"); w.set_back(x); a[n - 1] = x; same(w, a, n, "set_back changes only the last bit"); }
TEST(bytes) { size_t n = vs::pick(0, 300, "n"); BinaryWord w; w.resize(n, true); CHECK(w.bytes() == n / 8 + (n % 8 != 0), "bytes is the size divided by 8 rounded up"); }
TEST(history) { size_t N = vs::param("N", 5), n = vs::pick(0, N - 2, "n"); BinaryWord w = word(n, a, "w"); for (int k = 0; k < 3; ++k) switch (vs::pick(0, 3, "op")) { case 0: { bool x = vs::boolean("x"); w.append(x); a[n++] = x; break; } case 1: { w.append(w); for (size_t i = 0; i < n; ++i) a[n + i] = a[i]; n *= 2; break; } case 2: { size_t e = vs::pick(0, 2, "k"); w.erase_prefix((int)e); if (e > n) e = n; for (size_t i = e; i < n; ++i) a[i - e] = a[i]; n -= e; break; } default: if (n) { bool x = vs::boolean("x"); w.set_back(x); a[n - 1] = x; } } same(w, a, n, "a sequence of edits"); CHECK(w.bytes() == (n + 7) / 8, "bytes after a sequence of edits"); }
TEST(append_big) { size_t n = long_size(vs::param("B", 300)), j = vs::pick(0, 9, "m"); static const size_t ms[] = {0, 1, 63, 64, 65, 255, 256, 257, 600}; size_t m = j < 9 ? ms[j] : n; BinaryWord w = wordp(n, n / 2, a, "w"), u = wordp(m, m ? m - 1 : 0, b, "u", 77); w.append(u); for (size_t i = 0; i < m; ++i) a[n + i] = b[i]; same(w, a, n + m, "append of long words"); same(u, b, m, "the appended word is unchanged"); bool x = vs::boolean("x"); w.append(x); a[n + m] = x; same(w, a, n + m + 1, "append of a bit to a long word"); CHECK(w.bytes() == (n + m + 8) / 8, "bytes of a long word"); if (j == 9) { u.append(u); for (size_t i = 0; i < m; ++i) b[m + i] = b[i]; same(u, b, 2 * m, "appending a long word to itself doubles it"); bool y = vs::boolean("y"); if (m) { u.set_back(y); b[2 * m - 1] = y; same(u, b, 2 * m, "set_back changes only the last bit"); } } }
TEST(erase_big) { static const size_t s[] = {63, 64, 65, 129, 256, 257, 300, 512}; size_t n = s[vs::pick(0, vs::param("E", 7), "n")]; static const size_t ks[] = {0, 1, 7, 8, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 258, 290}; size_t k = n < 130 ? vs::pick(0, n + 2, "k") : vs::pick(0, 20, "k"); if (n >= 130) k = k < 17 ? ks[k] : k == 17 ? n - 1 : k == 18 ? n : k == 19 ? n + 1 : n / 2; BinaryWord w = wordp(n, k < n ? k : n - 1, a, "w"); w.erase_prefix((int)k); size_t e = k < n ? k : n; same(w, a + e, n - e, "erase_prefix on long words"); CHECK(w.bytes() == (n - e + 7) / 8, "bytes after erase_prefix"); }
TEST(erase_any) { static const size_t s[] = {257, 300, 1025}; size_t n = s[vs::pick(0, 2, "n")]; BinaryWord w = wordp(n, n - 1, a, "w"); static const int ks[] = {0, 1, 64, 254, 255, 256, 257}; long c = vs::pick(0, 11, "which"); int k = vs::i32("k"); if (c == 0) ASSUME(k < 0); else if (c == 11) ASSUME(k > (int)n); else { int v = c < 8 ? ks[c - 1] : (int)n + (int)c - 10; ASSUME(k == v); k = v; } w.erase_prefix(k); size_t e = k < 0 ? 0 : k > (int)n ? n : (size_t)k; same(w, a + e, n - e, "erase_prefix on long words, any number"); }
