//@ quick N=5 L=4 B=300
//@ thorough N=7 L=5 B=700
//@ bounds Words up to N arbitrary bits (and 70 bits with one arbitrary); every input text of up to L characters that does not start with '['; bracketed words up to N bits; arbitrary setting of the boolalpha, hex, uppercase, left, skipws and unitbuf flags when writing. Words of every length up to B and twelve lengths up to 4097 with one arbitrary bit, as digits and bracketed.
//@ outside Longer texts; streams over devices other than strings; malformed bracketed text (C11).
#include "bw.hpp"
static unsigned char a[9000], b[9000];
static bool isws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static BinaryWord junk() { BinaryWord w; w.append(true); w.append(false); return w; }
TEST(round_trip) { size_t n = vs::pick(0, vs::param("N", 5), "n"); BinaryWord w = word(n, a, "w"); std::stringstream s; s << w; std::string t = s.str(); CHECK(n ? t.size() == n : t == "e", "text of a word"); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (t[i] == '0' + a[i]); CHECK(ok, "text of a word is its digits"); BinaryWord u = junk(); s >> u; same(u, a, n, "reading the written text gives the word back"); if (n) CHECK(!s.fail(), "a word ending the input leaves the stream not failed"); BinaryWord c(t); same(c, a, n, "construction from the written text"); same(Helper::make_binary_word(t), a, n, "make_binary_word of the written text"); same(w, a, n, "writing leaves the word unchanged"); }
TEST(round_trip_long) { size_t n = vs::pick(62, 70, "n"), at = vs::pick(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? 31 : n - 1; BinaryWord w = word1(n, at, a, "w"); std::stringstream s; s << w; CHECK(s.str().size() == n, "text of a long word"); BinaryWord u; s >> u; same(u, a, n, "reading a long word back"); CHECK(!s.fail(), "a long word ending the input leaves the stream not failed"); }
TEST(digits) { size_t l = vs::pick(0, vs::param("L", 4), "l"); char t[12]; for (size_t i = 0; i < l; ++i) t[i] = (char)vs::u8("t"); 
  size_t p = 0; while (p < l && isws(t[p])) ++p; if (p < l) ASSUME(t[p] != '['); size_t q = p, n = 0; while (q < l && (t[q] == '0' || t[q] == '1')) a[n++] = t[q++] == '1';
  std::string txt(t, l); std::istringstream s(txt); BinaryWord u = junk(); s >> u; same(u, a, n, "the digits of the text, and no digits the empty word");
  if (n) { vs_reach("digits"); CHECK(!s.fail(), "a successful extraction leaves the stream not failed"); int c = s.get(); if (q < l) { vs_reach("text follows"); CHECK(c == (int)(unsigned char)t[q], "exactly the digits are consumed"); } else CHECK(c == std::char_traits<char>::eof(), "exactly the digits are consumed"); }
  BinaryWord c(txt); same(c, a, n, "construction from text"); }
TEST(bracket) { size_t n = vs::pick(0, vs::param("N", 5), "n"); BinaryWord w = word(n, a, "w"); std::string t = vs::boolean("ws") ? " [" : "["; for (size_t i = 0; i < n; ++i) { if (i) t += ','; t += (char)('0' + a[i]); } t += ']'; std::string tail = vs::boolean("more") ? "x" : ""; std::istringstream s(t + tail); BinaryWord u = junk(); s >> u; same(u, a, n, "the bracketed form reads as the same word"); CHECK(!s.fail(), "a successful bracketed extraction leaves the stream not failed"); int c = s.get(); CHECK(c == (tail.empty() ? std::char_traits<char>::eof() : 'x'), "exactly the bracketed text is consumed"); same(BinaryWord(t), a, n, "construction from bracketed text"); }
TEST(several) { size_t n = vs::pick(1, 3, "n"), m = vs::pick(1, 3, "m"); BinaryWord w = word(n, a, "w"), v = word(m, b, "v"); std::stringstream s; s << w << ' ' << v << ",z"; BinaryWord u, x; s >> u >> x; same(u, a, n, "first word"); same(x, b, m, "second word"); char c = 0, d = 0; s >> c >> d; CHECK(c == ',' && d == 'z' && !s.fail(), "the text after the words is still readable"); }
TEST(flags) { size_t n = vs::pick(0, 3, "n"); BinaryWord w = word(n, a, "w"); std::stringstream s; typedef std::ios_base I; I::fmtflags f{}; if (vs::boolean("boolalpha")) f |= I::boolalpha; if (vs::boolean("hex")) f |= I::hex; else f |= I::dec; if (vs::boolean("upper")) f |= I::uppercase; if (vs::boolean("left")) f |= I::left; if (vs::boolean("unitbuf")) f |= I::unitbuf; if (vs::boolean("skipws")) f |= I::skipws; s.flags(f); s << w; CHECK(s.flags() == f, "writing leaves the formatting flags as they were"); CHECK(s.good(), "writing leaves the stream good"); std::string t = s.str(); CHECK(t.size() == (n ? n : 1), "the text does not depend on the flags"); bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (t[i] == '0' + a[i]); CHECK(ok, "the text does not depend on the flags"); s.precision(3); s << true << false; CHECK(s.str().size() == t.size() + (f & I::boolalpha ? 9 : 2), "later output of a bool is as the caller set it"); }
TEST(round_trip_big) { size_t n = long_size(vs::param("B", 300)), at = vs::pick(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : n ? n - 1 : 0; BinaryWord w = wordp(n, at, a, "w"); std::stringstream s; s << w << 'x'; CHECK(s.str().size() == (n ? n : 1) + 1, "text of a long word"); bool ok = true; std::string t = s.str(); for (size_t i = 0; i < n; ++i) ok = ok & (t[i] == '0' + a[i]); CHECK(ok, "text of a word is its digits"); BinaryWord u = junk(), v; if (n) { s >> u; same(u, a, n, "reading a long word back"); CHECK(!s.fail(), "a long word leaves the stream not failed"); CHECK(s.get() == 'x', "exactly the digits are consumed"); t.pop_back(); same(BinaryWord(t), a, n, "construction from long text"); same(Helper::make_binary_word(t), a, n, "make_binary_word of long text"); }
  std::string r = "["; for (size_t i = 0; i < n; ++i) { if (i) r += ','; r += (char)('0' + a[i]); } r += "]x"; std::istringstream q(r); q >> v; same(v, a, n, "the bracketed form of a long word"); CHECK(!q.fail() && q.get() == 'x', "exactly the bracketed text is consumed"); }
