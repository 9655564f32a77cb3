//@ quick N=3
//@ thorough N=5
//@ bounds Every text of up to N arbitrary characters (including NUL), written by objects of three dynamic types through references to three static types, by writers called directly, through their interface and through Writer handles (copied, assigned, shared); numbers and characters for to_string; width, fill and base set on the stream. Texts of 23 lengths up to 5000 with one arbitrary character.
//@ outside Using the temporary of a writer after the writer or the object is gone; write functions that throw or return another stream; the generic operator<< for classes with a _write function but no WritableInterface, which no class satisfies.
#include <iostream>
#include <sstream>
#include <string>
#include <memory>
namespace Helper { using std::ostream; }
#include "vs.hpp"
#include "handle.hpp"
#include "writable.hpp"
#include "string.hpp"
using namespace Helper;
static std::string text(const char* nm = "c") { std::string s; int n = vs::pick(0, vs::param("N", 3), "n"); for (int i = 0; i < n; ++i) s.push_back((char)vs::u8(nm)); return s; }
static int writes;
struct A : WritableInterface { std::string s; explicit A(const std::string& t) : s(t) {} std::ostream& _write(std::ostream& os) const override { ++writes; return os << 'a' << s; } };
struct B : A { explicit B(const std::string& t) : A(t) {} std::ostream& _write(std::ostream& os) const override { ++writes; return os << '<' << s << '>'; } };
struct Pad { virtual ~Pad() {} int x = 0; };
struct C : Pad, WritableInterface { std::string s; explicit C(const std::string& t) : s(t) {} std::ostream& _write(std::ostream& os) const override { ++writes; for (char c : s) os.put(c); return os; } };
static std::string expected(int k, const std::string& s) { return k == 0 ? "a" + s : k == 1 ? "<" + s + ">" : s; }
static void shown(const std::ostringstream& os, const std::string& want, const char* m) { CHECK(os.str() == want, m); CHECK(os.good(), "the stream stays good"); }
TEST(writable) { std::string s = text(); int k = vs::pick(0, 2, "k"), how = vs::pick(0, 3, "how"); A a(s); B b(s); C c(s); const WritableInterface* p = k == 0 ? (const WritableInterface*)&a : k == 1 ? (const WritableInterface*)&b : (const WritableInterface*)&c; std::ostringstream os; writes = 0; std::ostream* r = &os; if (how == 0) r = &(os << *p); else if (how == 1) r = &p->write(os); else if (how == 2) { if (k == 0) r = &(os << a); else if (k == 1) r = &(os << b); else r = &(os << c); } else r = &(os << (k == 2 ? (const WritableInterface&)c : (const A&)(k == 1 ? b : a))); CHECK(r == &os, "streaming returns the stream given"); CHECK(writes == 1, "the write function is called once"); shown(os, expected(k, s), "streaming writes exactly what the dynamic type's write function writes"); os << '.' << *p << ';'; shown(os, expected(k, s) + "." + expected(k, s) + ";", "output continues after an object"); }
TEST(to_text) { std::string s = text(); int k = vs::pick(0, 2, "k"); A a(s); B b(s); C c(s); String t = k == 0 ? to_string(a) : k == 1 ? to_string((const A&)b) : to_string((const WritableInterface&)c); CHECK(t == expected(k, s), "to_string gives what streaming writes"); String u = k == 0 ? to_str(a) : k == 1 ? to_str((const WritableInterface&)b) : to_str(c); CHECK(u == expected(k, s), "to_str gives what streaming writes"); CHECK(to_string(s) == s && to_str(s) == s && to_string(String(s)) == s, "the text of a text is the text"); char ch = (char)vs::u8("d"); CHECK(to_string(ch).size() == 1 && to_string(ch)[0] == ch, "the text of a character is the character"); }
TEST(numbers) { int n = vs::pick(-12, 120, "n"); std::string w; int x = n < 0 ? -n : n; do { w.insert(w.begin(), (char)('0' + x % 10)); x /= 10; } while (x); if (n < 0) w.insert(w.begin(), '-'); CHECK(to_string(n) == w && to_str((long)n) == w && to_string((short)n) == w, "the text of a number is its decimal form"); CHECK(to_string(true) == "1" && to_string("x") == "x" && to_string(0.5) == "0.5" && to_str(n * 0.5 + 0.25 - n * 0.5) == "0.25", "other types as streamed"); }
TEST(strings) { std::string s = text(); String t(s); CHECK(t.size() == s.size() && t == s && std::string(t) == s, "a String has the text it is built from"); const std::string& b = t; CHECK(b == s, "a String is the text"); String e; CHECK(e.empty() && e == "", "an empty String"); String c(t), d; d = t; CHECK(c == s && d == s, "copies of a String"); c += "x"; CHECK(t == s && c.size() == s.size() + 1, "copies are independent"); CHECK(c_str(t) == t.c_str() && c_str(t)[t.size()] == 0, "c_str is the String's text"); bool ok = true; for (size_t i = 0; i < s.size(); ++i) ok = ok & (c_str(t)[i] == s[i]) & (t[i] == s[i]); CHECK(ok, "the characters are unchanged"); String f("abc"), g(3, 'q'), h(s.begin(), s.end()), i(std::move(c)); CHECK(f == "abc" && g == "qqq" && h == s && i.size() == s.size() + 1, "the string constructors"); std::string back = t; CHECK(back == s, "conversion back to text"); std::ostringstream os; os << t << '|'; CHECK(os.str() == s + "|", "a String is streamed as its text"); CHECK(class_name<String>() == "String", "class_name of String"); }
// writers
struct Item { std::string s; int n = 0; };
static int lives;
struct W1 : WriterInterface<Item> { char c; explicit W1(char x) : c(x) { ++lives; } W1(const W1& o) : c(o.c) { ++lives; } ~W1() { --lives; } private: std::ostream& _write(std::ostream& os, Item const& i) const override { ++writes; return os << c << i.s << c; } };
struct W2 : WriterInterface<Item> { W2() { ++lives; } W2(const W2&) { ++lives; } ~W2() { --lives; } private: std::ostream& _write(std::ostream& os, Item const& i) const override { ++writes; return os << i.s << i.s; } };
TEST(writers) { Item i{text()}; char c = (char)vs::u8("w"); { int k = vs::pick(0, 1, "k"), how = vs::pick(0, 3, "how"); W1 a(c); W2 b; const WriterInterface<Item>& w = k ? (const WriterInterface<Item>&)b : a; std::string want = k ? i.s + i.s : c + i.s + c; std::ostringstream os; std::ostream* r = &os; writes = 0;
  if (how == 0) r = &(os << w(i)); else if (how == 1) { if (k) r = &(os << b(i)); else r = &(os << a(i)); } else if (how == 2) { if (k) { Writer<Item> h(b); r = &(os << h(i)); } else { Writer<Item> h(a); r = &(os << h(i)); } } else { Writer<Item> h(std::shared_ptr<WriterInterface<Item>>(k ? (WriterInterface<Item>*)new W2() : new W1(c))), g(h); const Writer<Item> f = k ? Writer<Item>(W1('z')) : Writer<Item>(W2()); h = f; r = &(os << g(i)); }
  CHECK(r == &os, "a writer returns the stream given"); CHECK(writes == 1, "the writer is called once"); shown(os, want, "a writer applied to an object writes exactly what its dynamic type writes"); os << '.' << w(i) << w(i) << '!'; shown(os, want + "." + want + want + "!", "output continues after a writer"); CHECK(to_string(w(i)) == want, "to_string of a written object"); } CHECK(lives == 0, "writers are destroyed with their handles"); }
TEST(two_writers) { Item i{text()}, j{text("d")}; Writer<Item> h(W1('(')), g(W2{}); const Writer<Item> f(Handle<WriterInterface<Item>>(std::make_shared<W1>('|'))); std::ostringstream os; os << h(i) << g(j) << f(i); shown(os, "(" + i.s + "(" + j.s + j.s + "|" + i.s + "|", "each writer writes its own way, each object its own text"); h = g; std::ostringstream o2; o2 << h(i) << g(i) << f(j); shown(o2, i.s + i.s + i.s + i.s + "|" + j.s + "|", "an assigned writer writes as the one assigned"); }
// the stream's state is the caller's
struct D : WritableInterface { int v; explicit D(int x) : v(x) {} std::ostream& _write(std::ostream& os) const override { return os << v; } };
TEST(formatting) { int v = vs::pick(0, 20, "v"); D d(v); const WritableInterface& w = d; std::ostringstream a, b; int f = vs::pick(0, 2, "f"); auto set = [f](std::ostream& o) { if (f == 0) { o.width(4); o.fill('*'); } else if (f == 1) o.setf(std::ios::hex, std::ios::basefield); else o.setf(std::ios::showpos); }; set(a); set(b); a << w << v; b << v << v; CHECK(a.str() == b.str(), "an object is written on the stream given, with its formatting"); }
// long texts with an arbitrary character, also NUL, in them
TEST(long_text) { static const size_t ls[] = {15, 16, 17, 31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 5000}; size_t n = ls[vs::pick(0, 22, "n")], k = vs::pick(0, 2, "at"), at = k == 0 ? n - 1 : k == 1 ? n / 2 : 0; std::string s; for (size_t i = 0; i < n; ++i) s.push_back((char)('A' + i % 50)); s[at] = (char)vs::u8("x"); A a(s); B b(s); C c(s); String t(s); CHECK(t.size() == n && t == s, "a String has the text it is built from"); CHECK(to_string(a) == "a" + s && to_string((const A&)b) == "<" + s + ">" && to_string((const WritableInterface&)c) == s, "to_string gives what streaming writes"); CHECK(to_str(c) == s && to_str(s) == s && to_string(s) == s && to_string(t) == s, "the text of a text is the text"); std::ostringstream os; os << (const WritableInterface&)b << c; CHECK(os.str() == "<" + s + ">" + s, "streaming writes exactly what the write function writes"); Item i{s}; Writer<Item> h(W1('|')); CHECK(to_string(h(i)) == "|" + s + "|", "a writer writes exactly what it writes"); std::ostringstream o2; o2 << h(i) << t; CHECK(o2.str() == "|" + s + "|" + s, "output of a writer"); CHECK(c_str(t) == t.c_str(), "c_str is the String's text"); }
