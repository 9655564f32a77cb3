//@ quick N=30
//@ thorough N=60
//@ bounds Containers and ranges of 0..N elements with arbitrary element characters; arbitrary delimiter characters; nested containers up to 3x3. Containers of 20 sizes up to 1025 with one arbitrary element; tuples of 1 to 10 components. Every combination of hex, boolalpha, showpos, precision and fill character of the stream.
//@ outside More elements; streams with field width set; ranges that can be read only once.
#include <sstream>
#include "vs.hpp"
#include "container.hpp"
using namespace Helper; using Helper::operator<<; using std::operator<<; using Helper::List;
struct Ch { char c; friend bool operator<(const Ch& a, const Ch& b) { return a.c < b.c; } friend bool operator>(const Ch& a, const Ch& b) { return a.c > b.c; } friend bool operator<=(const Ch& a, const Ch& b) { return a.c <= b.c; } friend bool operator>=(const Ch& a, const Ch& b) { return a.c >= b.c; } friend bool operator==(const Ch& a, const Ch& b) { return a.c == b.c; } friend bool operator!=(const Ch& a, const Ch& b) { return a.c != b.c; } template <class OS> friend auto operator<<(OS& os, const Ch& x) -> decltype(os.put('c'), os) { os.put(x.c); return os; } };
struct Buf { char b[30000]; size_t n = 0; Buf& s(const char* t) { while (*t) b[n++] = *t++; return *this; } Buf& c(char x) { b[n++] = x; return *this; } };
static void eq(std::ostringstream& os, const Buf& e, const char* m) { std::string g = os.str(); CHECK(g.size() == e.n, m); if (g.size() != e.n) return; bool ok = true; for (size_t i = 0; i < e.n; ++i) ok = ok & (g[i] == e.b[i]); CHECK(ok, m); CHECK(os.good(), m); }
static char v[64]; static size_t n; static Buf e;
static void values() { n = vs::pick(0, vs::param("N", 12), "n"); for (size_t i = 0; i < n; ++i) v[i] = (char)vs::u8("v"); }
static void increasing() { values(); for (size_t i = 1; i < n; ++i) ASSUME(v[i - 1] < v[i]); }
static void seq(const char* o, const char* s, const char* c) { e.n = 0; e.s(o); for (size_t i = 0; i < n; ++i) { if (i) e.s(s); e.c(v[i]); } e.s(c); }
static std::vector<Ch> vec() { std::vector<Ch> r; for (size_t i = 0; i < n; ++i) r.push_back(Ch{v[i]}); return r; }
TEST(array) { values(); std::vector<Ch> w = vec(); Array<Ch> a(w.begin(), w.end()); const Array<Ch> b(a); seq("[", ",", "]"); std::ostringstream os; CHECK(&(os << b) == &os, "the stream is returned"); eq(os, e, "Array is written as [..,..]"); if (n) { SharedArray<Ch> s(n); for (size_t i = 0; i < n; ++i) s[i] = a[i]; const SharedArray<Ch> t(s); std::ostringstream o2; o2 << t; eq(o2, e, "SharedArray is written as [..,..]"); } else { SharedArray<Ch> s(0); std::ostringstream o2; o2 << s; eq(o2, e, "an empty SharedArray is written as []"); } }
TEST(vector) { values(); const std::vector<Ch> w = vec(); seq("[", ",", "]"); std::ostringstream os; CHECK(&(os << w) == &os, "the stream is returned"); eq(os, e, "vector is written as [..,..]"); const List<Ch> l(w); std::ostringstream o2; o2 << l; eq(o2, e, "List is written as [..,..]"); }
TEST(list) { values(); std::vector<Ch> w = vec(); const std::list<Ch> w2(w.begin(), w.end()); seq("[", ",", "]"); std::ostringstream os; CHECK(&(os << w2) == &os, "the stream is returned"); eq(os, e, "list is written as [..,..]"); const LinkedList<Ch> l(w2); std::ostringstream o2; o2 << l; eq(o2, e, "LinkedList is written as [..,..]"); }
TEST(set) { increasing(); std::set<Ch> s; for (size_t i = 0; i < n; ++i) s.insert(s.end(), Ch{v[i]}); seq("{", ",", "}"); std::ostringstream os; CHECK(&(os << s) == &os, "the stream is returned"); eq(os, e, "set is written as {..,..}"); const Helper::Set<Ch> h(s); std::ostringstream o2; o2 << h; eq(o2, e, "Set is written as {..,..}"); }
TEST(map) { increasing(); std::map<Ch, Ch> m; char w[64]; for (size_t i = 0; i < n; ++i) { w[i] = (char)vs::u8("w"); m.insert(m.end(), std::pair<const Ch, Ch>(Ch{v[i]}, Ch{w[i]})); } e.n = 0; e.s("{"); for (size_t i = 0; i < n; ++i) e.s(i ? ", " : " ").c(v[i]).s(":").c(w[i]); e.s(" }"); std::ostringstream os; CHECK(&(os << m) == &os, "the stream is returned"); eq(os, e, "map is written as { k:v, .. }"); const Map<Ch, Ch> h(m); std::ostringstream o2; o2 << h; eq(o2, e, "Map is written as { k:v, .. }"); }
TEST(pairs) { char a = (char)vs::u8("a"), b = (char)vs::u8("b"), c = (char)vs::u8("c"); std::ostringstream os; std::pair<Ch, char> p(Ch{a}, b); CHECK(&(os << p) == &os, "the stream is returned"); e.n = 0; e.s("(").c(a).s(",").c(b).s(")"); eq(os, e, "pair is written as (a,b)"); std::ostringstream o2; std::tuple<Ch, Ch, char> t(Ch{a}, Ch{b}, c); o2 << t << std::tuple<Ch>(Ch{c}); e.n = 0; e.s("(").c(a).s(",").c(b).s(",").c(c).s(")(").c(c).s(")"); eq(o2, e, "tuple is written as (a,b,..)"); }
TEST(nested) { size_t p = vs::pick(0, 3, "p"), q = vs::pick(0, 3, "q"); std::vector<std::vector<Ch>> w(p); e.n = 0; e.s("["); for (size_t i = 0; i < p; ++i) { e.s(i ? ",[" : "["); for (size_t j = 0; j < q; ++j) { char x = (char)vs::u8("x"); w[i].push_back(Ch{x}); if (j) e.s(","); e.c(x); } e.s("]"); } e.s("]"); std::ostringstream os; os << w; eq(os, e, "vector of vectors"); Array<std::vector<Ch>> a(w.begin(), w.end()); std::ostringstream o2; o2 << a; eq(o2, e, "Array of vectors"); std::list<std::vector<Ch>> l(w.begin(), w.end()); std::ostringstream o3; o3 << l; eq(o3, e, "list of vectors"); }
TEST(scalars) { std::vector<int> w; int k = vs::pick(0, 3, "k"); for (int i = 0; i < k; ++i) w.push_back(i * 37 - 5); static const char* exp[] = {"[]", "[-5]", "[-5,32]", "[-5,32,69]"}; std::ostringstream os; os << w; e.n = 0; e.s(exp[k]); eq(os, e, "vector of int"); std::vector<bool> b; bool x = vs::boolean("x"); b.push_back(x); b.push_back(true); std::ostringstream o2; o2 << b; e.n = 0; e.s("[").c(x ? '1' : '0').s(",1]"); eq(o2, e, "vector of bool"); std::map<int, std::string> m; m[3] = "ab"; m[-1] = ""; std::ostringstream o3; o3 << m; e.n = 0; e.s("{ -1:, 3:ab }"); eq(o3, e, "map of int to string"); std::vector<std::string> s{"", "x", ""}; std::ostringstream o4; o4 << s; e.n = 0; e.s("[,x,]"); eq(o4, e, "vector of strings"); }
static char o_, c_, s_, d_;
static void delims() { values(); o_ = (char)vs::u8("o"); c_ = (char)vs::u8("c"); s_ = (char)vs::u8("s"); d_ = (char)vs::u8("d"); }
TEST(write_sequence_range) { delims(); std::vector<Ch> w = vec(); std::ostringstream os, o2, o3; e.n = 0; e.c(o_); for (size_t i = 0; i < n; ++i) { if (i) e.c(s_); e.c(v[i]); } e.c(c_); CHECK(&Helper::write_sequence(os, w.begin(), w.end(), o_, c_, s_) == &os, "the stream is returned"); eq(os, e, "write_sequence with given delimiters"); std::vector<const Ch*> p; for (size_t i = 0; i < n; ++i) p.push_back(&w[i]); CHECK(&Helper::write_pointer_sequence(o2, p.begin(), p.end(), o_, c_, s_) == &o2, "the stream is returned"); eq(o2, e, "write_pointer_sequence writes the pointees"); const Ch* f = w.data(); Helper::write_sequence(o3, f, f + n); seq("[", ",", "]"); eq(o3, e, "write_sequence default delimiters"); std::ostringstream o4; Helper::write_pointer_sequence(o4, p.begin(), p.end()); eq(o4, e, "write_pointer_sequence default delimiters"); }
struct Term { char k, c; Ch index() const { return Ch{k}; } Ch coefficient() const { return Ch{c}; } };
TEST(write_map_range) { delims(); std::vector<std::pair<Ch, Ch>> m; std::vector<Ch> val; std::vector<Term> tm; char w[64]; for (size_t i = 0; i < n; ++i) { w[i] = (char)vs::u8("w"); m.push_back({Ch{v[i]}, Ch{w[i]}}); tm.push_back({v[i], w[i]}); } std::vector<std::pair<Ch, const Ch*>> p; for (size_t i = 0; i < n; ++i) p.push_back({Ch{v[i]}, &m[i].second});
  e.n = 0; e.c(o_); for (size_t i = 0; i < n; ++i) { if (i) e.c(s_); e.c(v[i]).c(d_).c(w[i]); } e.c(c_); std::ostringstream a, b, c; CHECK(&Helper::write_map_sequence(a, m.begin(), m.end(), o_, c_, s_, d_) == &a, "the stream is returned"); eq(a, e, "write_map_sequence with given delimiters"); Helper::write_map_pointer_sequence(b, p.begin(), p.end(), o_, c_, s_, d_); eq(b, e, "write_map_pointer_sequence writes the pointees"); Helper::write_coefficient_map_sequence(c, tm.begin(), tm.end(), o_, c_, s_, d_); eq(c, e, "write_coefficient_map_sequence with given delimiters");
  e.n = 0; e.s("{"); for (size_t i = 0; i < n; ++i) { if (i) e.s(","); e.c(v[i]).s(":").c(w[i]); } e.s("}"); std::ostringstream d, f, g; Helper::write_map_sequence(d, m.begin(), m.end()); eq(d, e, "write_map_sequence default delimiters"); Helper::write_map_pointer_sequence(f, p.begin(), p.end()); eq(f, e, "write_map_pointer_sequence default delimiters"); Helper::write_coefficient_map_sequence(g, tm.begin(), tm.end()); eq(g, e, "write_coefficient_map_sequence default delimiters"); }
template <class TP> static void tup(const TP& t, const char* v, size_t k) { e.n = 0; e.s("("); for (size_t i = 0; i < k; ++i) { if (i) e.s(","); e.c(v[i]); } e.s(")"); std::ostringstream os; CHECK(&(os << t) == &os, "the stream is returned"); eq(os, e, "tuple is written as (a,b,..)"); }
TEST(tuples) { char v[10]; Ch c[10]; for (int i = 0; i < 10; ++i) { v[i] = (char)vs::u8("v"); c[i].c = v[i]; } tup(std::make_tuple(c[0]), v, 1); tup(std::make_tuple(c[0], v[1]), v, 2); tup(std::make_tuple(c[0], c[1], c[2]), v, 3); tup(std::make_tuple(v[0], c[1], v[2], c[3]), v, 4); tup(std::make_tuple(c[0], c[1], c[2], c[3], c[4]), v, 5); tup(std::make_tuple(c[0], c[1], c[2], c[3], c[4], c[5]), v, 6); tup(std::make_tuple(c[0], c[1], c[2], c[3], v[4], c[5], c[6]), v, 7); tup(std::make_tuple(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]), v, 8); tup(std::make_tuple(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9]), v, 10); tup(std::tie(c[0], c[1], c[2], c[3]), v, 4);
  std::tuple<std::vector<Ch>, std::pair<Ch, Ch>, std::tuple<Ch, Ch>, std::string> t({c[0], c[1]}, {c[2], c[3]}, {c[4], c[5]}, "x,y"); std::ostringstream os; os << t; e.n = 0; e.s("([").c(v[0]).s(",").c(v[1]).s("],(").c(v[2]).s(",").c(v[3]).s("),(").c(v[4]).s(",").c(v[5]).s("),x,y)"); eq(os, e, "tuple of containers"); std::ostringstream o2; o2 << std::make_pair(std::make_pair(c[0], c[1]), std::map<Ch, std::vector<Ch>>{{c[2], {c[3], c[4]}}}); e.n = 0; e.s("((").c(v[0]).s(",").c(v[1]).s("),{ ").c(v[2]).s(":[").c(v[3]).s(",").c(v[4]).s("] })"); eq(o2, e, "pair of a pair and a map"); }
// many elements, one of them arbitrary
TEST(big) { static const size_t ns[] = {63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025}; size_t N = ns[vs::pick(0, 19, "n")], k = vs::pick(0, 3, "at"), at = k == 0 ? 0 : k == 1 ? N - 1 : k == 2 ? N / 2 : N > 256 ? 256 : 10; char x = (char)vs::u8("x"); auto f = [&](size_t i) { return i == at ? x : (char)('a' + i * 5 % 26); };
  std::vector<Ch> w; for (size_t i = 0; i < N; ++i) w.push_back(Ch{f(i)}); e.n = 0; e.s("["); for (size_t i = 0; i < N; ++i) { if (i) e.s(","); e.c(f(i)); } e.s("]"); { std::ostringstream os; os << w; eq(os, e, "a long vector"); } { std::ostringstream os; os << Array<Ch>(w.begin(), w.end()); eq(os, e, "a long Array"); } { std::ostringstream os; os << std::list<Ch>(w.begin(), w.end()); eq(os, e, "a long list"); } { std::ostringstream os; os << List<Ch>(w); eq(os, e, "a long List"); } { SharedArray<Ch> s(N); for (size_t i = 0; i < N; ++i) s[i] = w[i]; std::ostringstream os; os << s; eq(os, e, "a long SharedArray"); }
  std::set<unsigned short> st; std::map<unsigned short, Ch> mp; for (size_t i = 0; i < N; ++i) { st.insert(st.end(), (unsigned short)(10000 + i)); mp.insert(mp.end(), {(unsigned short)(10000 + i), Ch{f(i)}}); } auto num = [&](size_t i) { char d[6] = {'1', (char)('0' + i / 1000), (char)('0' + i / 100 % 10), (char)('0' + i / 10 % 10), (char)('0' + i % 10), 0}; e.s(d); }; e.n = 0; e.s("{"); for (size_t i = 0; i < N; ++i) { if (i) e.s(","); num(i); } e.s("}"); { std::ostringstream os; os << st; eq(os, e, "a large set"); } { std::ostringstream os; os << Helper::Set<unsigned short>(st); eq(os, e, "a large Set"); } e.n = 0; e.s("{"); for (size_t i = 0; i < N; ++i) { e.s(i ? ", " : " "); num(i); e.s(":").c(f(i)); } e.s(" }"); { std::ostringstream os; os << mp; eq(os, e, "a large map"); } { std::ostringstream os; os << Map<unsigned short, Ch>(mp); eq(os, e, "a large Map"); } }
// elements are written on the stream given, with its settings
struct Fs { int k; template <class OS> friend auto operator<<(OS& os, const Fs& x) -> decltype(os.flags(), os) { auto f = os.flags(); os.put((char)('a' + x.k)); os.put(f & std::ios_base::hex ? 'h' : 'd'); os.put(f & std::ios_base::boolalpha ? 'b' : 'n'); os.put(f & std::ios_base::showpos ? '+' : '-'); os.put((char)('0' + os.precision())); os.put(os.fill()); return os; } friend bool operator<(const Fs& a, const Fs& b) { return a.k < b.k; } };
struct Ft { Fs a, b; Fs index() const { return a; } Fs coefficient() const { return b; } };
TEST(settings) { bool hex = vs::flag("hex"), ba = vs::flag("boolalpha"), sp = vs::flag("showpos"); int pr = vs::pick(3, 6, "precision"); char fl = vs::flag("fill") ? '*' : ' '; size_t k = vs::pick(0, 3, "n"); char t[6] = {'?', hex ? 'h' : 'd', ba ? 'b' : 'n', sp ? '+' : '-', (char)('0' + pr), fl}; auto put = [&](int i) { t[0] = (char)('a' + i); for (char c : t) e.c(c); }; auto prep = [&](std::ostream& os) { if (hex) os.setf(std::ios_base::hex, std::ios_base::basefield); if (ba) os.setf(std::ios_base::boolalpha); if (sp) os.setf(std::ios_base::showpos); os.precision(pr); os.fill(fl); };
  auto run = [&](auto w, const char* o, const char* s, const char* c, const char* d, const char* m) { std::ostringstream os; prep(os); auto f0 = os.flags(); w(os); e.n = 0; e.s(o); for (size_t i = 0; i < k; ++i) { if (i) e.s(s); put((int)i); if (d) { e.s(d); put((int)(i + 5)); } } e.s(c); eq(os, e, m); CHECK(os.flags() == f0 && os.precision() == pr && os.fill() == fl, "writing leaves the stream's settings as they were"); };
  std::vector<Fs> v; std::list<Fs> l; std::set<Fs> st; std::map<Fs, Fs> mp; std::vector<std::pair<Fs, const Fs*>> pm; std::vector<const Fs*> pv; std::vector<Ft> tm; std::vector<Fs> w; for (size_t i = 0; i < k; ++i) { Fs x{(int)i}, y{(int)i + 5}; v.push_back(x); w.push_back(y); l.push_back(x); st.insert(x); mp[x] = y; tm.push_back(Ft{x, y}); } for (size_t i = 0; i < k; ++i) { pv.push_back(&v[i]); pm.push_back({v[i], &w[i]}); } SharedArray<Fs> sa(k); for (size_t i = 0; i < k; ++i) sa[i] = v[i];
  run([&](std::ostream& os) { os << v; }, "[", ",", "]", nullptr, "vector"); run([&](std::ostream& os) { os << Array<Fs>(v.begin(), v.end()); }, "[", ",", "]", nullptr, "Array"); run([&](std::ostream& os) { os << sa; }, "[", ",", "]", nullptr, "SharedArray"); run([&](std::ostream& os) { os << List<Fs>(v); }, "[", ",", "]", nullptr, "List"); run([&](std::ostream& os) { os << l; }, "[", ",", "]", nullptr, "list"); run([&](std::ostream& os) { os << st; }, "{", ",", "}", nullptr, "set"); run([&](std::ostream& os) { os << mp; }, k ? "{ " : "{", ", ", " }", ":", "map");
  run([&](std::ostream& os) { Helper::write_sequence(os, v.begin(), v.end(), '<', '>', ';'); }, "<", ";", ">", nullptr, "write_sequence"); run([&](std::ostream& os) { Helper::write_pointer_sequence(os, pv.begin(), pv.end()); }, "[", ",", "]", nullptr, "write_pointer_sequence"); run([&](std::ostream& os) { Helper::write_map_sequence(os, mp.begin(), mp.end()); }, "{", ",", "}", ":", "write_map_sequence"); run([&](std::ostream& os) { Helper::write_map_pointer_sequence(os, pm.begin(), pm.end()); }, "{", ",", "}", ":", "write_map_pointer_sequence"); run([&](std::ostream& os) { Helper::write_coefficient_map_sequence(os, tm.begin(), tm.end()); }, "{", ",", "}", ":", "write_coefficient_map_sequence");
  std::ostringstream os; prep(os); os << std::make_pair(Fs{0}, Fs{1}) << std::make_tuple(Fs{0}, Fs{1}, Fs{2}); e.n = 0; e.s("("); put(0); e.s(","); put(1); e.s(")("); put(0); e.s(","); put(1); e.s(","); put(2); e.s(")"); eq(os, e, "pair and tuple"); }
