//@ quick N=3 K=10
//@ thorough N=5 K=20
//@ bounds Lists, linked lists, sets and maps of 0..N elements with N elements or another container as argument, distinct values relative to one arbitrary value; every operation that copies elements or allocates; a failure at each of the first K element constructions, copies and assignments, at each of the first K allocations and at each call of a function passed in, and without failure. Handles of a class whose cloning and copying can fail at three points, alone or shared, with every mutable accessor.
//@ outside Two failures in one operation; what a List holds after an interrupted addition of several elements (it can be destroyed and assigned); comparisons, destructors and moves that throw.
#include <optional>
#include <vector>
#include <list>
#include <set>
#include <map>
#include "hnd.hpp"
#include "container.hpp"
using namespace Helper; using vs::Elem;
static void off() { vs::cnt().throw_at = -1; vs_fail_alloc(-1); }
// runs f with a failure at some point: 0 finished, 1 Boom, 2 bad_alloc
template <class F> static int interrupted(F f) { int how = vs::pick(0, 2, "how"); long k = how == 0 ? -1 : vs::pick(0, vs::param("K", 10) - 1, "k"); if (how == 1) vs::cnt().throw_at = k; if (how == 2) vs_fail_alloc(k);
  int r; try { f(); r = 0; } catch (const vs::Boom&) { r = 1; } catch (const std::bad_alloc&) { r = 2; } catch (...) { r = 3; } off();
  CHECK(r == 0 || r == how, "the exception that was thrown arrives"); if (r == 1) vs_reach("element failure"); if (r == 2) vs_reach("allocation failure"); if (r == 0) vs_reach("no failure"); return r; }
struct Whole { long heap = vs_heap_live(), live = vs::cnt().live; void done() { CHECK(vs_heap_live() == heap, "nothing is leaked"); CHECK(vs::cnt().live == live, "every element is destroyed exactly once"); } };
struct Vals { int v[64]; int n = 0; void add(int x) { v[n++] = x; } void add(const Vals& o) { int m = o.n; for (int i = 0; i < m; ++i) add(o.v[i]); } };
template <class S> static bool same(const S& s, const Vals& e, int n) { if ((int)s.size() != n) return false; bool ok = true; int i = 0; for (const Elem& x : s) { ok = ok & (x.get() == e.v[i]); ++i; } return ok & (i == n); }
template <class S> static bool same(const S& s, const Vals& e) { return same(s, e, e.n); }
// the first k of e, for some k from lo up
template <class S> static bool start(const S& s, const Vals& e, int lo) { int n = (int)s.size(); return n >= lo && n <= e.n && same(s, e, n); }
static Vals some(int base, int n, int step) { Vals r; for (int i = 0; i < n; ++i) r.add(base + i * step); return r; }
static int size(const char* w) { return vs::pick(0, vs::param("N", 3), w); }
static List<Elem> lst(const Vals& v) { List<Elem> l; l.reserve(v.n); for (int i = 0; i < v.n; ++i) l.push_back(Elem(v.v[i])); return l; }
static int base() { int b = vs::i32("b"); ASSUME(b > -1000 && b < 1000); return b; }
template <class L> static void updates(bool lists) { Whole w; { int b = base(); Vals va = some(b, size("n"), 7), vb = some(b + 500, size("m"), 3), e = va; List<Elem> a0 = lst(va), c = lst(vb); L a(a0), d(c); Elem x(b - 1); if (lists && vs::flag("room")) { if constexpr (requires { a.reserve(20); }) a.reserve(20); }
    int op = vs::pick(0, 4, "op"); ASSUME(op != 4 || va.n > 0); int r; if (op == 0) { r = interrupted([&] { a.append(x); }); e.add(b - 1); } else if (op == 1) { r = interrupted([&] { a.append(d); }); e.add(vb); } else if (op == 2) { r = interrupted([&] { a.concatenate(d); }); e.add(vb); } else if (op == 3) { r = interrupted([&] { a.append(a); }); e.add(va); } else { r = interrupted([&] { a.append(*a.begin()); }); e.add(va.v[0]); }
    bool lost = lists && r && op >= 1 && op <= 3; CHECK(lost || (r == 0 ? same(a, e) : start(a, e, va.n)), "an interrupted append keeps what was there, followed by the first of what was to come"); if (r && (op == 0 || op == 4)) CHECK(same(a, va), "an interrupted append of one element changes nothing"); CHECK(same(d, vb) && x.get() == b - 1, "the argument is unchanged"); if (!lost) { a.append(x); e.n = (int)a.size() - 1; e.add(b - 1); CHECK(same(a, e), "appending works afterwards"); } a = d; CHECK(same(a, vb), "assigning works afterwards"); } w.done(); }
TEST(list_updates) { updates<List<Elem>>(true); }
TEST(linked_updates) { updates<LinkedList<Elem>>(false); }
struct Ex { int v; operator Elem() const { return Elem(v); } };
TEST(list_results) { Whole w; { int b = base(); int n = size("n"); Vals va = some(b, n, 7), vb = some(b + 500, n, 3), e; List<Elem> a = lst(va), d = lst(vb); std::vector<Ex> xs; xs.reserve(n); for (int i = 0; i < n; ++i) xs.push_back(Ex{vb.v[i]}); Set<Elem> s(d.begin(), d.end()); Array<Elem> y(d.begin(), d.end()); LinkedList<Elem> k(d); Elem x(b - 1); auto f = [](const Elem& u) { Elem::tick(); return Elem(u.get() + 1); }; auto g = [](const Elem& u, const Elem& v) { Elem::tick(); return Elem(u.get() + v.get()); };
    std::optional<List<Elem>> o; int r = 0; int op = vs::pick(0, 12, "op"); switch (op) {
      case 0: r = interrupted([&] { o.emplace(catenate(a, d)); }); e = va; e.add(vb); break; case 1: r = interrupted([&] { o.emplace(catenate(a, x)); }); e = va; e.add(b - 1); break;
      case 2: r = interrupted([&] { o.emplace(Helper::apply(f, a)); }); e = some(b + 1, n, 7); break; case 3: r = interrupted([&] { o.emplace(elementwise(f, a)); }); e = some(b + 1, n, 7); break; case 4: r = interrupted([&] { o.emplace(elementwise(g, a, d)); }); e = some(2 * b + 500, n, 10); break;
      case 5: r = interrupted([&] { o.emplace(List<Elem>(xs)); }); e = vb; break; case 6: r = interrupted([&] { o.emplace(make_list(s)); }); e = vb; break; case 7: r = interrupted([&] { o.emplace(make_list(y)); }); e = vb; break; case 8: r = interrupted([&] { o.emplace(make_list(x)); }); e.add(b - 1); break; case 9: r = interrupted([&] { o.emplace(List<Elem>(s)); }); e = vb; break;
      case 10: { std::optional<Array<Elem>> q; const std::vector<Elem>& v = a; r = interrupted([&] { q.emplace(make_array(v)); }); if (r == 0) CHECK(same(*q, va), "make_array"); break; } case 11: { std::optional<Set<Elem>> q; r = interrupted([&] { q.emplace(make_set(a)); }); if (r == 0) CHECK(same(*q, va), "make_set"); break; }
      default: { std::optional<LinkedList<Elem>> q; r = interrupted([&] { q.emplace(k); }); if (r == 0) CHECK(same(*q, vb), "a linked list copied"); break; } }
    CHECK(o.has_value() == (r == 0 && op < 10), "a result exactly without a failure"); if (o) CHECK(same(*o, e), "the result"); CHECK(same(a, va) && same(d, vb) && same(s, vb) && same(y, vb) && same(k, vb) && x.get() == b - 1, "the operands are unchanged"); } w.done(); }
static bool has(const Vals& v, int n, int x) { bool r = false; for (int i = 0; i < n; ++i) r = r | (v.v[i] == x); return r; }
TEST(set_updates) { Whole w; { int b = base(); Vals va = some(b, size("n"), 2), vb; int sh = vs::pick(0, 1, "shift"), m = size("m"); vb = some(b + 1 - sh, m, 3); List<Elem> la = lst(va), lb = lst(vb); Set<Elem> a(la.begin(), la.end()), d(lb.begin(), lb.end()); std::set<Elem>& sa = a; Elem x(b + 1);
    int op = vs::pick(0, 5, "op"); int r; bool grows = op == 0, shrinks = op >= 1; switch (op) { case 0: r = interrupted([&] { a.adjoin(d); }); break; case 1: r = interrupted([&] { a.remove(d); }); break; case 2: r = interrupted([&] { a.restrict(d); }); break; case 3: r = interrupted([&] { a.remove(lb); }); break; case 4: r = interrupted([&] { Helper::remove(sa, (std::set<Elem>&)d); }); break; default: r = interrupted([&] { Helper::restrict(sa, (std::set<Elem>&)d); }); }
    bool ok = true, all = true, sorted = true; const Elem* prev = nullptr; for (const Elem& y : a) { ok = ok & (has(va, va.n, y.get()) | (grows & has(vb, vb.n, y.get()))); if (prev) sorted = sorted & (prev->get() < y.get()); prev = &y; } if (grows) for (const Elem& y : la) all = all & a.contains(y); CHECK(ok && all && sorted, "an interrupted update leaves a set between the old and the new one"); size_t both = 0; for (int i = 0; i < va.n; ++i) both += has(vb, vb.n, va.v[i]); size_t want = op == 0 ? va.n + vb.n - both : op == 2 || op == 5 ? both : va.n - both; if (r == 0) CHECK(a.size() == want, "without a failure the update is complete"); if (shrinks) CHECK(a.size() >= want, "nothing else is removed"); CHECK(same(d, vb) && same(lb, vb), "the argument is unchanged");
    a.adjoin(d); a.insert(x); CHECK(a.contains(x) && d.subset(a), "updates work afterwards"); } w.done(); }
TEST(set_results) { Whole w; { int b = base(); Vals va = some(b, size("n"), 2), vb; int sh = vs::pick(0, 1, "shift"), m = size("m"); vb = some(b + 1 - sh, m, 3); List<Elem> la = lst(va), lb = lst(vb), l2 = lst(va); for (const Elem& y : lb) l2.push_back(y); Set<Elem> a(la.begin(), la.end()), d(lb.begin(), lb.end()); auto f = [](const Elem& u) { Elem::tick(); return Elem(-u.get()); }; size_t both = 0; for (int i = 0; i < va.n; ++i) both += has(vb, vb.n, va.v[i]);
    std::optional<Set<Elem>> o; int op = vs::pick(0, 6, "op"); int r; size_t want = va.n; switch (op) { case 0: r = interrupted([&] { o.emplace(join(a, d)); }); want = va.n + vb.n - both; break; case 1: r = interrupted([&] { o.emplace(intersection(a, d)); }); want = both; break; case 2: r = interrupted([&] { o.emplace(intersection((const std::set<Elem>&)a, (const std::vector<Elem>&)lb)); }); want = both; break; case 3: r = interrupted([&] { o.emplace(difference(a, d)); }); want = va.n - both; break; case 4: r = interrupted([&] { o.emplace(Helper::apply(f, a)); }); break; case 5: r = interrupted([&] { o.emplace(duplicate_elements(l2)); }); want = both; break; default: { bool u = false; r = interrupted([&] { u = unique_elements(l2); }); if (r == 0) CHECK(u == (both == 0), "unique_elements"); } }
    CHECK(o.has_value() == (r == 0 && op < 6), "a result exactly without a failure"); if (o) CHECK(o->size() == want, "the result"); CHECK(same(a, va) && same(d, vb) && same(la, va) && same(lb, vb), "the operands are unchanged"); } w.done(); }
typedef Map<Elem, Elem> M;
static bool maps(const M& m, const Vals& k, int val) { bool ok = (int)m.size() == k.n; int i = 0; for (const auto& p : m) { if (i < k.n) ok = ok & (p.first.get() == k.v[i]) & (p.second.get() == k.v[i] + val); ++i; } return ok; }
static void fillm(M& m, const Vals& k, int val) { for (int i = 0; i < k.n; ++i) m.insert(Elem(k.v[i]), Elem(k.v[i] + val)); }
TEST(map_updates) { Whole w; { int b = base(); Vals va = some(b, size("n"), 2), vb; int sh = vs::pick(0, 1, "shift"), m = size("m"); vb = some(b + 1 - sh, m, 3); M a, d; fillm(a, va, 1000); fillm(d, vb, 5000); bool in = vs::flag("present"); ASSUME(!in || va.n > 0); int key = in ? b : b + 1; Elem x(key), y(b + 9);
    int op = vs::pick(0, 4, "op"); int r; switch (op) { case 0: r = interrupted([&] { a.insert(x, y); }); break; case 1: r = interrupted([&] { a.insert(std::pair<Elem, Elem>(x, y)); }); break; case 2: r = interrupted([&] { a[x] = y; }); break; case 3: r = interrupted([&] { Helper::insert(a, x, y); }); break; default: r = interrupted([&] { a.adjoin(d); }); }
    bool ok = true, all = true; for (const auto& p : a) { int k = p.first.get(), v = p.second.get(); bool old = has(va, va.n, k), neu = op == 4 ? has(vb, vb.n, k) : k == key; bool written = op == 2 && k == key; ok = ok & (old ? (v == k + 1000) | (written & (v == b + 9)) : neu & (op == 4 ? v == k + 5000 : written ? (v == b + 9) | ((r != 0) & (v == 0)) : v == b + 9)); } for (int i = 0; i < va.n; ++i) all = all & (a.count(Elem(va.v[i])) == 1); CHECK(ok && all, "an interrupted update keeps every entry and adds only what it was to add"); if (r && op != 4 && op != 2) CHECK(maps(a, va, 1000), "an interrupted insertion changes nothing"); CHECK(maps(d, vb, 5000) && x.get() == key && y.get() == b + 9, "the argument is unchanged"); a[x] = y; CHECK(a.get(x).get() == b + 9, "updates work afterwards"); } w.done(); }
TEST(map_results) { Whole w; { int b = base(); Vals va = some(b, size("n"), 2), vb; int sh = vs::pick(0, 1, "shift"), m = size("m"); vb = some(b + 1 - sh, m, 3); M a, d; fillm(a, va, 1000); fillm(d, vb, 5000); List<Elem> lb = lst(vb); Set<Elem> s(lb.begin(), lb.end()); int both = 0; for (int i = 0; i < va.n; ++i) both += has(vb, vb.n, va.v[i]); int r; int op = vs::pick(0, 4, "op"); std::optional<M> o; std::optional<Set<Elem>> ks; std::optional<List<Elem>> vl; int want = 0;
    switch (op) { case 0: r = interrupted([&] { o.emplace(join(a, d)); }); want = va.n + vb.n - both; break; case 1: r = interrupted([&] { o.emplace(restrict_keys(a, s)); }); want = both; break; case 2: r = interrupted([&] { ks.emplace(a.keys()); }); break; case 3: r = interrupted([&] { vl.emplace(a.values()); }); break; default: r = interrupted([&] { o.emplace(a); }); want = va.n; }
    CHECK((o || ks || vl) == (r == 0), "a result exactly without a failure"); if (o) CHECK((int)o->size() == want, "the result"); if (ks) CHECK(same(*ks, va), "keys"); if (vl) CHECK(same(*vl, some(b + 1000, va.n, 2)), "values"); CHECK(maps(a, va, 1000) && maps(d, vb, 5000) && same(s, vb), "the operands are unchanged"); } w.done(); }
// cloning can fail before, within and after the copy of the object
struct Fragile : A { explicit Fragile(int v) : A(v) {} Fragile(const Fragile& o) : A(o) { Elem::tick(); } Fragile* clone() const override { Elem::tick(); return new Fragile(*this); } Fragile* _copy() const override { return clone(); } Fragile* _move() override { return clone(); } int kind() const override { return 9; } };
TEST(handles) { Whole w; { int v = vs::i32("v"), u = vs::i32("u"); Handle<I> h(new Fragile(v)), g(h); bool shared = vs::flag("shared"); if (!shared) g = Handle<I>(new Fragile(u)); Fragile f(u); std::optional<Handle<I>> o; const Handle<I>& c = h;
    int op = vs::pick(0, 10, "op"); int r; if (op <= 5) r = interrupted([&] { write(h, op, u); }); else if (op == 6) r = interrupted([&] { dynamic_handle_extract<Fragile>(h).set(u); }); else if (op == 7) r = interrupted([&] { o.emplace(f); }); else if (op == 8) r = interrupted([&] { o.emplace(static_cast<const I&>(f)); }); else if (op == 9) r = interrupted([&] { Handle<I> k(f); h = k; }); else r = interrupted([&] { o.emplace(c); });
    bool writes = op <= 6 || op == 9; if (r) CHECK(obj(h)->value() == v && obj(h)->kind() == 9, "an interrupted access leaves the handle with its value"); else CHECK(obj(h)->value() == (writes ? u : v), "the handle has the value written"); CHECK(obj(g)->value() == (shared ? v : u), "the other handle is unaffected"); CHECK(f.value() == u, "the object copied from is unchanged"); if (o) CHECK(r == 0 && obj(*o)->value() == (op == 10 ? v : u), "the new handle"); h.reference().set(3); CHECK(obj(h)->value() == 3 && obj(g)->value() == (shared ? v : u), "writing works afterwards"); } w.done(); }
