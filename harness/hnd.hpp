// a small class hierarchy for the Handle harnesses; every construction and destruction is checked
#pragma once
#include <iostream>
#include <memory>
#include <optional>
#include <typeinfo>
namespace Helper { using std::ostream; }
#include "vs.hpp"
#include "handle.hpp"
using Helper::Handle; using Helper::Wrapper;
struct Val { static constexpr unsigned ALIVE = 0x51A11FEu; int v; unsigned st; bool moved = false; explicit Val(int x) : v(x), st(ALIVE) { ++vs::cnt().live; } Val(const Val& o) : v(o.v), st(ALIVE) { vs_check(o.st == ALIVE, "only live objects are copied"); ++vs::cnt().live; } Val(Val&& o) : v(o.v), st(ALIVE) { vs_check(o.st == ALIVE, "only live objects are moved"); o.moved = true; ++vs::cnt().live; } Val& operator=(const Val& o) { v = o.v; return *this; } ~Val() { vs_check(st == ALIVE, "an object is destroyed once"); st = 0; --vs::cnt().live; } };
struct Root { virtual ~Root() = default; virtual Root* clone() const = 0; virtual int value() const = 0; virtual int kind() const = 0; };
struct I : Root { I* clone() const override = 0; virtual I* _copy() const = 0; virtual I* _move() = 0; virtual void set(int) = 0; };
struct A : I { Val x; explicit A(int v) : x(v) {} A* clone() const override { return new A(*this); } A* _copy() const override { return new A(*this); } A* _move() override { return new A(std::move(*this)); } void set(int v) override { vs_check(x.st == Val::ALIVE, "only live objects are written"); x.v = v; } int value() const override { vs_check(x.st == Val::ALIVE, "only live objects are read"); return x.v; } int kind() const override { return 1; } };
struct B : A { int extra = 77; explicit B(int v) : A(v) {} B* clone() const override { return new B(*this); } B* _copy() const override { return new B(*this); } B* _move() override { return new B(std::move(*this)); } int kind() const override { return 2; } };
struct Pad { virtual ~Pad() = default; long pad = 9; };
struct C : Pad, I { Val x; explicit C(int v) : x(v) {} C* clone() const override { return new C(*this); } C* _copy() const override { return new C(*this); } C* _move() override { return new C(std::move(*this)); } void set(int v) override { vs_check(x.st == Val::ALIVE, "only live objects are written"); x.v = v; } int value() const override { vs_check(x.st == Val::ALIVE, "only live objects are read"); return x.v; } int kind() const override { return 3; } };
// plain classes wrapped for the interface
struct T { Val x; explicit T(int v) : x(v) {} };
struct U : T { int more = 5; explicit U(int v) : T(v) {} };
template <class X, int K> struct W : Wrapper<X, I> { explicit W(const X& t) : Wrapper<X, I>(t) {} W* clone() const override { return new W(*this); } W* _copy() const override { return new W(*this); } W* _move() override { return new W(*this); } void set(int v) override { this->x.v = v; } int value() const override { vs_check(this->x.st == Val::ALIVE, "only live objects are read"); return this->x.v; } int kind() const override { return K; } };
typedef W<T, 4> WT; typedef W<U, 5> WU;
// prints itself, and does so while it is extracted
struct P : I, Helper::WritableInterface { Val x; explicit P(int v) : x(v) {} P* clone() const override { return new P(*this); } P* _copy() const override { return new P(*this); } P* _move() override { return new P(std::move(*this)); } void set(int v) override { x.v = v; } int value() const override { vs_check(x.st == Val::ALIVE, "only live objects are read"); return x.v; } int kind() const override { return 6; } std::ostream& _write(std::ostream& os) const override { return os << 'P'; } };
static I* make(int k, int v) { switch (k) { case 1: return new A(v); case 2: return new B(v); case 3: return new C(v); case 4: return new WT(T(v)); case 5: return new WU(U(v)); default: return new P(v); } }
// a write through the mutable accessor a
static void write(Handle<I>& h, int a, int v) { switch (a) { case 0: h.reference().set(v); break; case 1: h.ref().set(v); break; case 2: h.pointer()->set(v); break; case 3: h.ptr()->set(v); break; case 4: h.raw_pointer()->set(v); break; default: h.managed_pointer()->set(v); } }
// what a handle refers to, through every read-only accessor
static const I* obj(const Handle<I>& h) { const I* p = h.raw_const_pointer(); CHECK(p == h.raw_pointer() && p == h.const_pointer() && p == h.pointer() && p == h.ptr() && p == &h.const_reference() && p == &h.reference() && p == &h.ref() && p == &(I const&)h && p == h.managed_const_pointer().get() && p == h.managed_pointer().get(), "every read-only accessor refers to the same object"); return p; }
