//@ quick L=6 I=4
//@ thorough L=8 I=5
//@ bounds Every text of up to L characters (each an arbitrary byte) read into sequences of one-digit elements (vector, List and a container with other delimiters), and of up to I characters into vectors of int and bool. Sequences of 22 lengths up to 1000 elements with one arbitrary character at one of six places.
//@ outside Longer texts; element types whose own extraction fails in other ways; streams with skipws off.
#include <sstream>
#include <vector>
#include <deque>
#include "vs.hpp"
#include "container.hpp"
using Helper::List; using Helper::read_sequence;
struct Dig { int v; friend bool operator==(const Dig& a, const Dig& b) { return a.v == b.v; } friend bool operator!=(const Dig& a, const Dig& b) { return a.v != b.v; } friend bool operator<(const Dig& a, const Dig& b) { return a.v < b.v; } friend std::istream& operator>>(std::istream& is, Dig& d) { char c = 0; if (is >> c) { if (c >= '0' && c <= '9') d.v = c - '0'; else { is.putback(c); is.setstate(std::ios_base::failbit); } } return is; } };
static bool isws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool isdig(char c) { return c >= '0' && c <= '9'; }
static char t[16]; static size_t l, p; static int ref[16]; static size_t nref;
static void text(size_t L) { l = vs::pick(0, L, "l"); for (size_t i = 0; i < l; ++i) t[i] = (char)vs::u8("t"); }
static void skip() { while (p < l && isws(t[p])) ++p; }
// the grammar: blanks open blanks ( close | element blanks ( sep blanks element blanks )* close )
template <class E> static bool grammar(E element, char o, char c, char s) { p = 0; nref = 0; skip(); if (p == l || t[p] != o) return false; ++p; skip(); if (p < l && t[p] == c) { ++p; return true; } for (;;) { skip(); if (!element()) return false; skip(); if (p == l) return false; if (t[p] == c) { ++p; return true; } if (t[p] != s) return false; ++p; } }
static bool digit() { if (p == l || !isdig(t[p])) return false; ref[nref++] = t[p++] - '0'; return true; }
static bool integer() { int sg = 1; if (p < l && (t[p] == '-' || t[p] == '+')) { if (t[p] == '-') sg = -1; ++p; } if (p == l || !isdig(t[p])) return false; int v = 0; while (p < l && isdig(t[p])) v = v * 10 + (t[p++] - '0'); ref[nref++] = sg * v; return true; }
static int val(const Dig& d) { return d.v; } static int val(int x) { return x; }
template <class C, class F, class E> static void run(C& v, F f, E element, char o = '[', char c = ']', char s = ',') {
  bool ok = grammar(element, o, c, s); std::istringstream is(std::string(t, l)); int r = vs::outcome<std::ios_base::failure>([&] { f(is, v); });
  CHECK(r == (ok ? 0 : 1), "the text is accepted exactly when it follows the grammar, and refused with ios_base::failure");
  if (ok) { vs_reach("accepted"); if (nref > 1) vs_reach("several elements"); CHECK(v.size() == nref, "exactly the elements of the text"); bool same = true; size_t i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) same = same & (val(*it) == ref[i]); CHECK(same, "exactly the elements of the text, in order"); CHECK(!is.fail(), "the stream is usable"); int nx = is.get(); CHECK(nx == (p < l ? (int)(unsigned char)t[p] : -1), "the stream is just after the closing bracket"); } else vs_reach("refused"); }
TEST(vector_digits) { text(vs::param("L", 6)); std::vector<Dig> v(2); run(v, [](std::istream& is, std::vector<Dig>& v) { read_sequence(is, v); }, digit); }
TEST(list_digits) { text(vs::param("L", 6)); List<Dig> v(std::vector<Dig>(3)); run(v, [](std::istream& is, List<Dig>& v) { read_sequence(is, v); }, digit); }
TEST(delimiters) { text(vs::param("L", 6)); std::deque<Dig> v(1); run(v, [](std::istream& is, std::deque<Dig>& v) { read_sequence(is, v, '(', '>', ';'); }, digit, '(', '>', ';'); }
TEST(digit_delimiters) { text(vs::param("L", 6) - 1); char o = (char)vs::u8("o"), c = (char)vs::u8("c"), s = (char)vs::u8("s"); ASSUME(!isws(o) & !isws(c) & !isws(s) & (c != s) & !isdig(c)); std::vector<Dig> v; run(v, [=](std::istream& is, std::vector<Dig>& v) { read_sequence(is, v, o, c, s); }, digit, o, c, s); }
TEST(extraction_operator) { text(vs::param("I", 4)); using std::operator>>; std::vector<int> v(1, 7); run(v, [](std::istream& is, std::vector<int>& v) { is >> v; }, integer); }
TEST(bools) { text(vs::param("I", 4) + 1); using std::operator>>; std::vector<bool> v(1, true); for (size_t i = 0; i < l; ++i) ASSUME(t[i] == '[' || t[i] == ']' || t[i] == ',' || t[i] == '0' || t[i] == '1' || t[i] == ' ' || t[i] == 'x'); bool multi = false; for (size_t i = 1; i < l; ++i) multi = multi | (isdig(t[i]) & isdig(t[i - 1])); ASSUME(!multi); run(v, [](std::istream& is, std::vector<bool>& v) { is >> v; }, digit); }
TEST(chars) { text(vs::param("I", 4) + 1); std::vector<char> v; struct R { static bool any() { if (p == l) return false; ref[nref++] = t[p++]; return true; } }; run(v, [](std::istream& is, std::vector<char>& v) { read_sequence(is, v); }, R::any); }
// long sequences with up to two arbitrary characters in them
template <class C, class F> static void longer(F f, size_t max) { static const size_t ns[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000}; size_t n = ns[vs::pick(0, max, "n")], w = vs::pick(0, 2, "blanks"); static char u[8000]; size_t k = 0; u[k++] = '['; for (size_t i = 0; i < n; ++i) { if (i) u[k++] = ','; if (w == 1 && i % 5 == 3) u[k++] = ' '; u[k++] = (char)('0' + (i * 7 + i / 10) % 10); if (w == 2 && i % 3 == 1) { u[k++] = '\n'; u[k++] = '\t'; } } u[k++] = ']'; u[k++] = ']'; u[k++] = '7'; size_t e = k;
  size_t j = vs::pick(0, 5, "at"); size_t at = j == 0 ? 1 : j == 1 ? e - 3 : j == 2 ? e / 2 : j == 3 ? e / 2 + 1 : j == 4 ? e - 4 : e > 511 ? 511 : e - 2; if (at >= e) at = e - 1; if (n == 1 && at < 1) at = 1; unsigned char x = vs::u8("x"); ASSUME(!isdig((char)x) || !(isdig(u[at - 1]) || isdig(u[at + 1]))); ASSUME(x != '+' && x != '-'); u[at] = (char)x;
  static int r[4000]; size_t m = 0, q = 0; auto sk = [&] { while (q < e && isws(u[q])) ++q; }; bool ok = [&] { sk(); if (q == e || u[q] != '[') return false; ++q; sk(); if (q < e && u[q] == ']') { ++q; return true; } for (;;) { sk(); if (q == e || !isdig(u[q])) return false; r[m++] = u[q++] - '0'; sk(); if (q == e) return false; if (u[q] == ']') { ++q; return true; } if (u[q] != ',') return false; ++q; } }();
  std::istringstream is(std::string(u, e)); C v; int o = vs::outcome<std::ios_base::failure>([&] { f(is, v); }); CHECK(o == (ok ? 0 : 1), "a long text is accepted exactly when it follows the grammar, and refused with ios_base::failure"); if (ok) { vs_reach("accepted"); CHECK(v.size() == m, "exactly the elements of the text"); bool same = true; size_t i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) same = same & (val(*it) == r[i]); CHECK(same, "exactly the elements of the text, in order"); CHECK(!is.fail(), "the stream is usable"); int nx = is.get(); CHECK(nx == (q < e ? (int)(unsigned char)u[q] : -1), "the stream is just after the closing bracket"); } else vs_reach("refused"); }
TEST(long_digits) { longer<std::vector<Dig>>([](std::istream& is, std::vector<Dig>& v) { read_sequence(is, v); }, 21); }
TEST(long_list) { longer<List<Dig>>([](std::istream& is, List<Dig>& v) { v.push_back(Dig{3}); read_sequence(is, v); }, 17); }
TEST(long_ints) { using std::operator>>; longer<std::vector<int>>([](std::istream& is, std::vector<int>& v) { is >> v; }, 17); }
TEST(long_bools) { size_t n = vs::pick(0, 140, "n"), at = vs::pick(0, 2, "at"); at = at == 0 ? 0 : at == 1 ? n - 1 : n / 2; bool x = vs::boolean("x"); std::string s = "["; static bool b[200]; for (size_t i = 0; i < n; ++i) { b[i] = i == at ? x : i % 3 == 1; if (i) s += ','; s += (char)('0' + b[i]); } s += "]z"; std::istringstream is(s); std::vector<bool> v(5, true); is >> v; CHECK(v.size() == n, "exactly the elements of the text"); bool ok = true; for (size_t i = 0; i < n && i < v.size(); ++i) ok = ok & (v[i] == b[i]); CHECK(ok, "exactly the elements of the text, in order"); CHECK(is.get() == 'z', "the stream is just after the closing bracket"); }
TEST(large_ints) { using std::operator>>; static const char* t[] = {"[2147483647]", "[-2147483648,0]", "[ +12 , -007,1000000 ]", "[2147483648]", "[1,99999999999]", "[-2147483649]", "[1 2]", "[--1]", "[1,]", "[,1]"}; size_t k = vs::pick(0, 9, "k"); std::istringstream is(t[k]); std::vector<int> v(1, 3); int o = vs::outcome<std::ios_base::failure>([&] { is >> v; }); CHECK(o == (k >= 3 ? 1 : 0), "numbers in range are accepted, others refused"); if (k == 0) CHECK(v.size() == 1 && v[0] == 2147483647, "the elements"); if (k == 1) CHECK(v.size() == 2 && v[0] == -2147483647 - 1 && v[1] == 0, "the elements"); if (k == 2) CHECK(v.size() == 3 && v[0] == 12 && v[1] == -7 && v[2] == 1000000, "the elements"); }
