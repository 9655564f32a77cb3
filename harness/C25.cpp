//@ quick N=6
//@ thorough N=20
//@ bounds Random-access iterators at any 61-bit position with any 61-bit step (arithmetic and comparison laws), positions 0..N of a sequence of N arbitrary values for dereference and single steps; forward iterators over sequences of up to N values; pair iterators over arrays. Equalities coarser than position and arbitrary strides; pair iterators advanced by up to 1000 either way.
//@ outside PairIterator::dereference and distance_to, which do not compile; positions whose distance is not representable.
#include <iostream>
#include <type_traits>
namespace Helper { using std::ostream; }
#include "vs.hpp"
#include "iterator.hpp"
using namespace Helper;
struct Rec { int key; int v; };
// counts positions of 8 bytes over a (possibly empty) table
struct RA : IteratorFacade<RA, Rec, RandomAccessTraversalTag> { Rec* t; int64_t p; int tag; RA(Rec* t_, int64_t p_, int g = 0) : t(t_), p(p_), tag(g) {} 
  bool equal(const RA& o) const { return p == o.p; } std::ptrdiff_t distance_to(const RA& o) const { return o.p - p; } void advance(std::ptrdiff_t n) { p += n; } Rec& dereference() const { return t[p]; } };
struct RV : IteratorFacade<RV, const int, RandomAccessTraversalTag, int> { int64_t p; explicit RV(int64_t p_) : p(p_) {} bool equal(const RV& o) const { return p == o.p; } std::ptrdiff_t distance_to(const RV& o) const { return o.p - p; } void advance(std::ptrdiff_t n) { p += n; } int dereference() const { return (int)p * 3; } };
struct FW : IteratorFacade<FW, Rec, ForwardTraversalTag> { Rec* p; explicit FW(Rec* q) : p(q) {} bool equal(const FW& o) const { return p == o.p; } void increment() { ++p; } Rec& dereference() const { return *p; } };
static int64_t pos(const char* n) { int64_t x = vs::i64(n); ASSUME(x >= -(1LL << 60) && x < (1LL << 60)); return x; }
TEST(arithmetic) { int64_t p = pos("p"), n = pos("n"); RA i(nullptr, p, 7); const RA c = i; CHECK((c + n).p == p + n && (c + n).tag == 7, "i+n is n positions after i"); CHECK(c.p == p, "i+n does not change i"); CHECK((c - n).p == p - n, "i-n is n positions before i"); CHECK((c + n) - c == n, "(i+n)-i is n"); CHECK(c - (c + n) == -n, "i-(i+n) is -n"); CHECK((c + n) - n == c && (c - n) + n == c, "stepping there and back");
  { RA j(c); RA& r = (j += n); CHECK(&r == &j && j.p == p + n && j == c + n, "i+=n moves i by n and returns it"); } { RA j(c); RA& r = (j -= n); CHECK(&r == &j && j.p == p - n && j == c - n, "i-=n moves i by -n and returns it"); } { RA j(c); RA& r = ++j; CHECK(&r == &j && j.p == p + 1 && j == c + 1, "++i moves by one and returns i"); } { RA j(c); RA& r = --j; CHECK(&r == &j && j.p == p - 1 && j == c - 1, "--i moves back by one and returns i"); } { RA j(c); ++j; --j; CHECK(j == c && j - c == 0, "++ and -- cancel"); } CHECK(c - c == 0 && c + 0 == c, "zero steps"); }
TEST(comparison) { int64_t p = pos("p"), q = pos("q"); const RA a(nullptr, p), b(nullptr, q); bool eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b; CHECK(eq == (p == q), "== is equality of position"); CHECK(ne == (p != q), "!= is its negation"); CHECK(lt == (p < q), "< agrees with the positions"); CHECK(le == (p <= q), "<= agrees with the positions"); CHECK(gt == (p > q), "> agrees with the positions"); CHECK(ge == (p >= q), ">= agrees with the positions"); CHECK((b - a > 0) == lt && (b - a == 0) == eq && (b - a < 0) == gt, "the comparisons agree with the sign of the distance"); CHECK(b - a == q - p, "b-a is the distance from a to b"); }
TEST(steps) { int n = vs::pick(0, vs::param("N", 6), "n"); int64_t p = pos("p"); RA a(nullptr, p), b(nullptr, p), c(nullptr, p), d(nullptr, p); for (int i = 0; i < n; ++i) { ++a; --b; c += 1; d -= 1; } RA e(nullptr, p); e += n; RA f(nullptr, p); f -= n; CHECK(a.p == p + n && a == e && c == e && a == RA(nullptr, p) + n, "n steps of ++ are the same as += n and + n"); CHECK(b.p == p - n && b == f && d == f && b == RA(nullptr, p) - n, "n steps of -- are the same as -= n and - n"); CHECK(a - b == 2 * n, "distance after stepping apart"); }
TEST(dereference) { static Rec t[64]; int N = vs::param("N", 6); for (int i = 0; i < N; ++i) { t[i].key = vs::i32("k"); t[i].v = vs::i32("v"); } int i = vs::pick(0, N - 1, "i"), k = vs::pick(0, N - 1, "k"); RA b(t, i); const RA j = b + (k - i); CHECK(&*j == t + k, "dereferencing gives the element itself"); CHECK((*j).key == t[k].key && j->v == t[k].v && j.operator->() == t + k, "members of the element"); (*j).v = 5; j->key = 6; CHECK(t[k].v == 5 && t[k].key == 6, "writing through the iterator"); RV v(i); CHECK(*v == 3 * i && *(v + k) == 3 * (i + k), "values by value"); CHECK((std::is_same<RV::value_type, int>::value && std::is_same<RV::reference, int>::value && std::is_same<RA::reference, Rec&>::value), "types"); }
TEST(algorithms) { static Rec t[64]; int N = vs::param("N", 6); for (int i = 0; i < N; ++i) t[i].key = vs::i32("k"); int n = vs::pick(0, N, "n"); int k = 0; bool ok = true; for (RA i(t, 0), e(t, n); i != e; ++i) { ok = ok & ((*i).key == t[k].key); if (++k > n) break; } CHECK(ok && k == n, "a loop from begin to end visits every element once, in order"); RA b(t, 0), e(t, n); CHECK(std::distance(b, e) == n, "std::distance"); k = n; for (RA i = e; i > b;) { --i; ok = ok & (i->key == t[--k].key); if (k < 0) break; } CHECK(ok && k == 0, "a loop backwards visits every element once"); }
TEST(forward) { static Rec t[64]; int N = vs::param("N", 6); for (int i = 0; i < N; ++i) { t[i].key = vs::i32("k"); t[i].v = vs::i32("v"); } int i = vs::pick(0, N - 1, "i"), j = vs::pick(0, N - 1, "j"); FW a(t + i), b(t + j); CHECK((a == b) == (i == j) && (a != b) == (i != j), "equality is equality of position"); CHECK(&*a == t + i && a->v == t[i].v && (*a).key == t[i].key, "dereferencing gives the element"); FW c(a); FW& r = ++c; CHECK(&r == &c && c.p == t + i + 1 && c != a, "++i advances by one and returns i"); FW d(a); FW o = d++; CHECK(o == a && o.p == t + i && d == c, "i++ advances by one and returns the old position"); int k = 0; for (FW w(t), e(t + j); w != e; w++) if (++k > N) break; CHECK(k == j, "a loop visits every element once"); }
TEST(pairs) { int x[8]; long y[8]; for (int i = 0; i < 8; ++i) { x[i] = i; y[i] = i; } int i = vs::pick(0, 3, "i"), j = vs::pick(0, 3, "j"), k = vs::pick(0, 4, "k"); PairIterator<int*, long*> p(x + i, y + j); CHECK(p._iter1 == x + i && p._iter2 == y + j, "a pair iterator holds both positions"); PairIterator<const int*, const long*> q(p); CHECK(q._iter1 == x + i && q._iter2 == y + j, "conversion keeps both positions"); CHECK(p.equal(q) && q.equal(p), "equal positions compare equal"); q.advance(k); CHECK(q._iter1 == x + i + k && q._iter2 == y + j + k, "advance moves both positions"); CHECK(p.equal(q) == (k == 0), "positions that differ compare unequal"); PairIterator<int*, long*> a(x + i, y + k), b(x + j, y + k), c(x + k, y + i), d(x + k, y + j); CHECK(a.equal(b) == (i == j) && c.equal(d) == (i == j), "both positions are compared"); }
// forward iterators whose step is arbitrary (also zero) and whose equality is coarser than position: one step per increment, whatever equality says
static int steps; static int64_t stride; static int rel;
struct CO : IteratorFacade<CO, const int64_t, ForwardTraversalTag, int64_t> { int64_t p; int tag; CO(int64_t q, int t) : p(q), tag(t) {} bool equal(const CO& o) const { return rel == 0 ? p == o.p : rel == 1 ? (p >> 1) == (o.p >> 1) : rel == 2 ? true : false; } void increment() { ++steps; p += stride; } int64_t dereference() const { return p; } };
TEST(coarse) { rel = vs::pick(0, 3, "rel"); stride = vs::i64("stride"); ASSUME(stride > -(1LL << 40) && stride < (1LL << 40)); int64_t p = pos("p"); CO a(p, 9); CO r = a++; CHECK(steps == 1 && a.p == p + stride && a.tag == 9, "i++ advances once"); CHECK(r.p == p && r.tag == 9 && *r == p, "i++ returns the old position"); CO& s = ++a; CHECK(&s == &a && steps == 2 && a.p == p + 2 * stride && *a == a.p, "++i advances once and returns i"); a++; a++; ++a; CHECK(steps == 5 && a.p == p + 5 * stride, "each increment is one step"); CO x(p, 0), y(pos("q"), 1); bool e = x.equal(y); CHECK((x == y) == e && (x != y) == !e, "== and != follow the given equality"); CHECK(steps == 5, "comparing does not advance"); }
// equality and distance that are not those of position: the facade uses what it is given
struct CR : IteratorFacade<CR, const int64_t, RandomAccessTraversalTag, int64_t> { int64_t p; explicit CR(int64_t q) : p(q) {} bool equal(const CR& o) const { return rel == 0 ? p == o.p : rel == 1 ? (p & 7) == (o.p & 7) : rel == 2; } std::ptrdiff_t distance_to(const CR& o) const { return stride * (o.p - p); } void advance(std::ptrdiff_t n) { p += 2 * n; } int64_t dereference() const { return p ^ 5; } };
TEST(coarse_random) { rel = vs::pick(0, 3, "rel"); int k = vs::pick(0, 2, "stride"); stride = k == 0 ? 1 : k == 1 ? -1 : 2; int64_t p = pos("p"), q = pos("q"), n = pos("n"); ASSUME(p > -(1LL << 40) && p < (1LL << 40) && q > -(1LL << 40) && q < (1LL << 40) && n > -(1LL << 40) && n < (1LL << 40)); const CR a(p), b(q); int64_t d = stride * (q - p); bool e = a.equal(b); CHECK((a == b) == e && (a != b) == !e, "== and != follow the given equality"); CHECK(b - a == d && (a < b) == (d > 0) && (a <= b) == (d >= 0) && (a > b) == (d < 0) && (a >= b) == (d <= 0), "the order comparisons follow the given distance"); CHECK((a + n).p == p + 2 * n && (a - n).p == p - 2 * n, "steps follow the given advance"); CR c(p); c += n; CHECK(c.p == p + 2 * n, "+= follows the given advance"); c -= n; ++c; CHECK(c.p == p + 2 && *c == ((p + 2) ^ 5), "++ follows the given advance"); --c; --c; CHECK(c.p == p - 2, "-- follows the given advance"); }
TEST(pairs_far) { static int x[4000]; static char y[4000]; static const long ks[] = {-1000, -257, -256, -129, -128, -3, -1, 1, 127, 128, 129, 255, 256, 257, 1000}; long k = ks[vs::pick(0, 14, "k")]; PairIterator<int*, char*> p(x + 2000, y + 1500); p.advance(k); CHECK(p._iter1 == x + 2000 + k && p._iter2 == y + 1500 + k, "advance moves both positions, by any number"); p.advance(-k); CHECK(p.equal(PairIterator<int*, char*>(x + 2000, y + 1500)), "there and back"); CHECK(!p.equal(PairIterator<int*, char*>(x + 2000, y + 1501)) && !p.equal(PairIterator<int*, char*>(x + 1999, y + 1500)), "positions that differ compare unequal"); }
