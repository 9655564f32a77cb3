// Hash-consed bit-vector expressions with constant folding, evaluation and Z3 translation.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <algorithm>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

enum EOp : u8 { E_CONST, E_SYM, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FEQ, E_FLT, E_FLE, E_FUNO, E_FCVT /*fp->fp*/, E_SI2F, E_UI2F, E_F2SI, E_F2UI, E_FSQRT, E_FREM, E_FROUND /*aux: mode*/ };

struct Expr { EOp op; u8 aux; bool fp; u16 w; u32 id; u32 lo; Expr *a, *b, *c; u128 v; Z3_ast z; std::vector<u32>* syms; u64 evGen; u128 evVal; };

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); }

// ---- concrete floating point helpers (bits <-> host) ----
static inline long double bits2ld(u128 v, unsigned w) {
  if (w == 32) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
  if (w == 64) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
  long double f = 0; memcpy(&f, &v, 10); return f; }
static inline u128 ld2bits(long double f, unsigned w) {
  if (w == 32) { float g = (float)f; u32 x; memcpy(&x, &g, 4); return x; }
  if (w == 64) { double g = (double)f; u64 x; memcpy(&x, &g, 8); return x; }
  u128 v = 0; memcpy(&v, &f, 10); return v; }
static inline u128 fpbin(EOp op, u128 a, u128 b, unsigned w) {
#define FB(T) { T x = (T)bits2ld(a, w), y = (T)bits2ld(b, w), r = 0; switch (op) { case E_FADD: r = x + y; break; case E_FSUB: r = x - y; break; \
   case E_FMUL: r = x * y; break; case E_FDIV: r = x / y; break; case E_FREM: r = (T)fmodl(x, y); break; default: abort(); } return ld2bits(r, w); }
  if (w == 32) FB(float) if (w == 64) FB(double) FB(long double)
#undef FB
}

struct Model { std::vector<u128> v; u128 get(u32 i) const { return i < v.size() ? v[i] : 0; } };

struct ExprPool {
  std::vector<Expr*> table; size_t count = 0; u32 nextId = 1; u64 gen = 0;
  std::vector<std::string> symName; std::vector<u16> symW; std::vector<bool> symUndef;
  ExprPool() { table.assign(1 << 16, nullptr); }
  static u64 H(EOp op, u8 aux, u16 w, u32 lo, Expr* a, Expr* b, Expr* c, u128 v) {
    u64 h = op * 0x9E3779B97F4A7C15ull; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
    mix(aux); mix(w); mix(lo); mix(a ? a->id : 0); mix(b ? b->id : 0); mix(c ? c->id : 0); mix((u64)v); mix((u64)(v >> 64)); return h; }
  Expr* raw(EOp op, u16 w, Expr* a = 0, Expr* b = 0, Expr* c = 0, u128 v = 0, u32 lo = 0, u8 aux = 0) {
    u64 h = H(op, aux, w, lo, a, b, c, v); size_t m = table.size() - 1, i = h & m;
    while (table[i]) { Expr* e = table[i]; if (e->op == op && e->aux == aux && e->w == w && e->lo == lo && e->a == a && e->b == b && e->c == c && e->v == v) return e; i = (i + 1) & m; }
    Expr* e = (Expr*)calloc(1, sizeof(Expr)); e->op = op; e->aux = aux; e->w = w; e->lo = lo; e->a = a; e->b = b; e->c = c; e->v = v; e->id = nextId++; e->fp = op >= E_FADD || (a && a->fp) || (b && b->fp) || (c && c->fp);
    table[i] = e; if (++count * 2 > table.size()) grow(); return e; }
  void grow() { std::vector<Expr*> o; o.swap(table); table.assign(o.size() * 2, nullptr); size_t m = table.size() - 1;
    for (Expr* e : o) if (e) { size_t i = H(e->op, e->aux, e->w, e->lo, e->a, e->b, e->c, e->v) & m; while (table[i]) i = (i + 1) & m; table[i] = e; } }
  Expr* cst(u128 v, unsigned w) { return raw(E_CONST, w, 0, 0, 0, v & maskw(w)); }
  Expr* sym(const std::string& n, unsigned w, bool undef = false) { u32 i = symName.size(); symName.push_back(n); symW.push_back(w); symUndef.push_back(undef); return raw(E_SYM, w, 0, 0, 0, i); }
  Expr* T() { return cst(1, 1); } Expr* F() { return cst(0, 1); }
  bool isC(Expr* e) { return e->op == E_CONST; }
  bool isT(Expr* e) { return e->op == E_CONST && e->w == 1 && e->v == 1; }
  bool isF(Expr* e) { return e->op == E_CONST && e->w == 1 && e->v == 0; }

  static bool foldable(EOp op) { return true; }
  static u128 fold(EOp op, u128 a, u128 b, unsigned w /*operand width*/, bool& ok) {
    ok = true; u128 m = maskw(w);
    switch (op) {
      case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
      case E_UDIV: if (!b) return m; return (a / b) & m;
      case E_UREM: if (!b) return a; return (a % b) & m;
      case E_SDIV: { i128 x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
      case E_SREM: { i128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
      case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
      case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
      case E_ASHR: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
      case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
      case E_SLT: return sx(a, w) < sx(b, w); case E_SLE: return sx(a, w) <= sx(b, w);
      case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FREM: return fpbin(op, a, b, w);
      case E_FEQ: return bits2ld(a, w) == bits2ld(b, w); case E_FLT: return bits2ld(a, w) < bits2ld(b, w);
      case E_FLE: return bits2ld(a, w) <= bits2ld(b, w); case E_FUNO: return std::isnan(bits2ld(a, w)) || std::isnan(bits2ld(b, w));
      default: ok = false; return 0; } }
  static bool isCmp(EOp op) { return (op >= E_EQ && op <= E_SLE) || (op >= E_FEQ && op <= E_FUNO); }

  Expr* notE(Expr* e) { // width-1 negation
    if (isC(e)) return cst(!e->v, 1);
    if (e->op == E_XOR && isC(e->b) && e->b->v == 1) return e->a;
    if (e->op == E_ULT) return raw(E_ULE, 1, e->b, e->a); if (e->op == E_ULE) return raw(E_ULT, 1, e->b, e->a);
    if (e->op == E_SLT) return raw(E_SLE, 1, e->b, e->a); if (e->op == E_SLE) return raw(E_SLT, 1, e->b, e->a);
    return raw(E_XOR, 1, e, cst(1, 1)); }

  // an upper bound on log2 of the magnitude of a floating-point expression that is certainly finite, or no = 99999
  int mag(Expr* e, int depth = 8) { const int no = 99999; int lim = e->w == 32 ? 127 : 1023, r = no; if (e->w != 32 && e->w != 64 || !depth) return no;
    switch (e->op) {
      case E_CONST: { long double v = bits2ld(e->v, e->w); if (!std::isfinite(v)) return no; return v == 0 ? -2000 : std::ilogb(v) + 1; }
      case E_SI2F: case E_UI2F: r = e->a->w; break;
      case E_FCVT: r = mag(e->a, depth - 1); break;
      case E_FADD: case E_FSUB: { int x = mag(e->a, depth - 1), y = mag(e->b, depth - 1); if (x != no && y != no) r = std::max(x, y) + 1; break; }
      case E_FMUL: { int x = mag(e->a, depth - 1), y = mag(e->b, depth - 1); if (x != no && y != no) r = x + y; break; }
      case E_FDIV: { int x = mag(e->a, depth - 1); if (x == no || !isC(e->b)) break; long double v = bits2ld(e->b->v, e->w); if (v == 0 || !std::isfinite(v)) break; r = x - std::ilogb(v) + 1; break; }
      default: break; }
    return r < lim ? r : no; }
  Expr* bin(EOp op, Expr* a, Expr* b) {
    if ((op == E_FMUL || op == E_FDIV) && isC(b) && (b->w == 32 || b->w == 64) && bits2ld(b->v, b->w) == 1 && mag(a) != 99999) return a;
    if (op == E_FLT && a == b) return F();
    if ((op == E_FEQ || op == E_FLE) && a == b && mag(a) != 99999) return T();
    if (op == E_FUNO && mag(a) != 99999 && mag(b) != 99999) return F();
    unsigned w = a->w; unsigned rw = isCmp(op) ? 1 : w;
    if (isC(a) && isC(b)) { bool ok; u128 r = fold(op, a->v, b->v, w, ok); if (ok) return cst(r, rw); }
    if (a->op == E_ITE && isC(a->b) && isC(a->c) && isC(b)) { bool k1, k2; u128 r1 = fold(op, a->b->v, b->v, w, k1), r2 = fold(op, a->c->v, b->v, w, k2); if (k1 && k2) return ite(a->a, cst(r1, rw), cst(r2, rw)); }
    if (b->op == E_ITE && isC(b->b) && isC(b->c) && isC(a)) { bool k1, k2; u128 r1 = fold(op, a->v, b->b->v, w, k1), r2 = fold(op, a->v, b->c->v, w, k2); if (k1 && k2) return ite(b->a, cst(r1, rw), cst(r2, rw)); }
    if (op == E_SLT || op == E_SLE) {
      if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
      if (a->op == E_SEXT && isC(b)) { unsigned n = a->a->w; i128 k = sx(b->v, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1; if (k < lo) return F(); if (k > hi) return T(); return bin(op, a->a, cst((u128)k, n)); }
      if (b->op == E_SEXT && isC(a)) { unsigned n = b->a->w; i128 k = sx(a->v, w), lo = -((i128)1 << (n - 1)), hi = ((i128)1 << (n - 1)) - 1; if (k < lo) return T(); if (k > hi) return F(); return bin(op, cst((u128)k, n), b->a); } }
    // x/c < k for a positive constant c, without the division (truncating): x <= (k-1)c for k <= 0, x < kc otherwise
    if ((op == E_SLT || op == E_SLE) && w <= 64) { bool l = a->op == E_SDIV && isC(a->b) && sx(a->b->v, w) > 0 && isC(b), r = b->op == E_SDIV && isC(b->b) && sx(b->b->v, w) > 0 && isC(a);
      if (l || r) { Expr* d = l ? a : b; i128 k = sx((l ? b : a)->v, w), c = sx(d->b->v, w); if (l ? op == E_SLE : op == E_SLT) ++k; i128 lo = -((i128)1 << (w - 1)), hi = -lo - 1, t = k <= 0 ? (k - 1) * c + 1 : k * c; Expr* lt = t > hi ? T() : t <= lo ? F() : bin(E_SLT, d->a, cst((u128)t, w)); return l ? lt : notE(lt); } }
    if (op == E_EQ && a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
    switch (op) {
      case E_ADD: if (isC(a)) std::swap(a, b); if (isC(b) && b->v == 0) return a;
        if (isC(b) && a->op == E_ADD && isC(a->b)) return bin(E_ADD, a->a, cst(a->b->v + b->v, w)); break;
      case E_SUB: if (a == b) return cst(0, w); if (isC(b)) return bin(E_ADD, a, cst(-b->v, w));
        if (a->op == E_ADD && a->a == b) return a->b; if (a->op == E_ADD && a->b == b) return a->a;
        if (a->op == E_ADD && b->op == E_ADD && a->a == b->a) return bin(E_SUB, a->b, b->b);
        if (b->op == E_ADD && b->a == a) return bin(E_SUB, cst(0, w), b->b); break;
      case E_MUL: if (isC(a)) std::swap(a, b); if (isC(b)) { if (b->v == 0) return b; if (b->v == 1) return a;
          if ((b->v & (b->v - 1)) == 0) { unsigned k = 0; while (!((b->v >> k) & 1)) ++k; return bin(E_SHL, a, cst(k, w)); } } break;
      case E_UDIV: if (isC(b) && b->v == 1) return a; if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) { unsigned k = 0; while (!((b->v >> k) & 1)) ++k; return bin(E_LSHR, a, cst(k, w)); } break;
      case E_SDIV: if (isC(b) && b->v == 1) return a; break;
      case E_UREM: if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(E_AND, a, cst(b->v - 1, w)); break;
      case E_AND: if (isC(a)) std::swap(a, b); if (a == b) return a; if (isC(b)) { if (b->v == 0) return b; if (b->v == maskw(w)) return a;
          if (a->op == E_AND && isC(a->b)) return bin(E_AND, a->a, cst(a->b->v & b->v, w)); 
          if (a->op == E_ZEXT && (b->v & maskw(a->a->w)) == maskw(a->a->w)) return a; }
        if (w == 1 && (a->op == E_XOR && a->a == b && isC(a->b))) return cst(0, 1); if (w == 1 && (b->op == E_XOR && b->a == a && isC(b->b))) return cst(0, 1); break;
      case E_OR: if (isC(a)) std::swap(a, b); if (a == b) return a; if (isC(b)) { if (b->v == 0) return a; if (b->v == maskw(w)) return b; }
        if (w == 1 && (a->op == E_XOR && a->a == b && isC(a->b))) return cst(1, 1); if (w == 1 && (b->op == E_XOR && b->a == a && isC(b->b))) return cst(1, 1); break;
      case E_XOR: if (isC(a)) std::swap(a, b); if (a == b) return cst(0, w); if (isC(b)) { if (b->v == 0) return a; if (w == 1) return notE(a);
          if (a->op == E_XOR && isC(a->b)) return bin(E_XOR, a->a, cst(a->b->v ^ b->v, w)); } break;
      case E_SHL: case E_LSHR: case E_ASHR: if (isC(b) && b->v == 0) return a; 
        if (isC(b) && b->v >= w && op != E_ASHR) return cst(0, w);
        if (op == E_LSHR && isC(b) && a->op == E_ZEXT && b->v >= a->a->w) return cst(0, w); break;
      case E_EQ: if (a == b) return T(); if (isC(a)) std::swap(a, b);
        if (isC(b)) {
          if (w == 1) return b->v ? a : notE(a);
          if (a->op == E_ZEXT) { if (b->v & ~maskw(a->a->w)) return F(); return bin(E_EQ, a->a, cst(b->v, a->a->w)); }
          if (a->op == E_SEXT) { u128 lo = b->v & maskw(a->a->w); if (((u128)sx(lo, a->a->w) & maskw(w)) != b->v) return F(); return bin(E_EQ, a->a, cst(lo, a->a->w)); }
          if (a->op == E_ADD && isC(a->b)) return bin(E_EQ, a->a, cst(b->v - a->b->v, w));
          if (a->op == E_XOR && isC(a->b)) return bin(E_EQ, a->a, cst(b->v ^ a->b->v, w));
          if (a->op == E_ITE && (isC(a->b) || isC(a->c))) { Expr* x = bin(E_EQ, a->b, b); Expr* y = bin(E_EQ, a->c, b); return ite(a->a, x, y); }
          if (a->op == E_AND && isC(a->b)) { u128 m = a->b->v; unsigned k = 0, l = 0; while (!((m >> k) & 1)) ++k; while (k + l < w && ((m >> (k + l)) & 1)) ++l; if ((m >> k) == maskw(l) && l < w) { if (b->v & ~m) return F(); return bin(E_EQ, extract(a->a, k, l), cst(b->v >> k, l)); } }
          if (a->op == E_CONCAT) { Expr* hi = a->a; Expr* lo = a->b; return bin(E_AND, bin(E_EQ, hi, cst(b->v >> lo->w, hi->w)), bin(E_EQ, lo, cst(b->v, lo->w))); }
        }
        if (a->op == E_ADD && isC(a->b)) { if (b == a->a) return F(); if (b->op == E_ADD && isC(b->b) && b->a == a->a) return a->b == b->b ? T() : F(); } if (b->op == E_ADD && isC(b->b) && b->a == a) return F();
        if (a->id > b->id && !isC(b)) std::swap(a, b); break;
      case E_ULT: if (a == b) return F(); if (isC(b) && b->v == 0) return F(); if (isC(b) && b->v == 1) return bin(E_EQ, a, cst(0, w)); if (isC(a) && a->v == maskw(w)) return F();
        if (a->op == E_ZEXT && isC(b)) { if (b->v > maskw(a->a->w)) return T(); return bin(E_ULT, a->a, cst(b->v, a->a->w)); }
        if (b->op == E_ZEXT && isC(a)) { if (a->v > maskw(b->a->w)) return F(); return bin(E_ULT, cst(a->v, b->a->w), b->a); }
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
        if (isC(a) && a->v == 0) return notE(bin(E_EQ, b, cst(0, w))); break;
      case E_ULE: if (a == b) return T(); if (isC(a) && a->v == 0) return T(); if (isC(b) && b->v == maskw(w)) return T();
        if (isC(b) && b->v == 0) return bin(E_EQ, a, b);
        if (a->op == E_ZEXT && isC(b)) { if (b->v >= maskw(a->a->w)) return T(); return bin(E_ULE, a->a, cst(b->v, a->a->w)); }
        if (b->op == E_ZEXT && isC(a)) { if (a->v > maskw(b->a->w)) return F(); return bin(E_ULE, cst(a->v, b->a->w), b->a); }
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULE, a->a, b->a); break;
      case E_SLT: if (a == b) return F(); 
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
        if (a->op == E_ZEXT && isC(b)) { if (sx(b->v, w) < 0) return F(); return bin(E_ULT, a, b); }
        if (b->op == E_ZEXT && isC(a)) { if (sx(a->v, w) < 0) return T(); return bin(E_ULT, a, b); } break;
      case E_SLE: if (a == b) return T(); 
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULE, a->a, b->a); break;
      default: break; }
    return raw(op, rw, a, b); }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (isC(c)) return c->v ? a : b; if (a == b) return a;
    if (c->op == E_XOR && isC(c->b)) return ite(c->a, b, a);
    if (a->w == 1) { if (isT(a) && isF(b)) return c; if (isF(a) && isT(b)) return notE(c); if (isT(a)) return bin(E_OR, c, b); if (isF(b)) return bin(E_AND, c, a);
      if (isF(a)) return bin(E_AND, notE(c), b); if (isT(b)) return bin(E_OR, notE(c), a); }
    if (a->op == E_ITE && a->a == c) a = a->b; if (b->op == E_ITE && b->a == c) b = b->c; if (a == b) return a;
    return raw(E_ITE, a->w, c, a, b); }
  Expr* zext(Expr* a, unsigned w) { if (a->w == w) return a; if (a->op == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, zext(a->b, w), zext(a->c, w)); if (isC(a)) return cst(a->v, w); if (a->op == E_ZEXT) a = a->a;
    if (a->op == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, cst(a->b->v, w), cst(a->c->v, w)); return raw(E_ZEXT, w, a); }
  Expr* sext(Expr* a, unsigned w) { if (a->w == w) return a; if (a->op == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, sext(a->b, w), sext(a->c, w)); if (isC(a)) return cst((u128)sx(a->v, a->w), w); if (a->op == E_ZEXT) return zext(a->a, w);
    if (a->op == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, sext(a->b, w), sext(a->c, w)); return raw(E_SEXT, w, a); }
  Expr* extract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && a->w == w) return a; if (isC(a)) return cst(a->v >> lo, w);
    switch (a->op) {
      case E_EXTRACT: return extract(a->a, lo + a->lo, w);
      case E_ZEXT: if (lo >= a->a->w) return cst(0, w); if (lo + w <= a->a->w) return extract(a->a, lo, w); if (lo == 0) return zext(a->a, w); return zext(extract(a->a, lo, a->a->w - lo), w);
      case E_SEXT: if (lo + w <= a->a->w) return extract(a->a, lo, w); if (lo == 0 && w > a->a->w) return sext(a->a, w); break;
      case E_CONCAT: { unsigned lw = a->b->w; if (lo + w <= lw) return extract(a->b, lo, w); if (lo >= lw) return extract(a->a, lo - lw, w);
        return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo)); }
      case E_ITE: if (isC(a->b) || isC(a->c) || (a->b->op == E_CONCAT) || (a->c->op == E_CONCAT)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w)); break;
      case E_AND: case E_OR: case E_XOR: return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
      case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      case E_SHL: if (isC(a->b)) { unsigned k = (unsigned)a->b->v; if (lo >= k) { return extract(a->a, lo - k, w); } if (lo + w <= k) return cst(0, w); } break;
      case E_LSHR: if (isC(a->b)) { unsigned k = (unsigned)a->b->v; if (lo + k + w <= a->w) return extract(a->a, lo + k, w); if (lo + k >= a->w) return cst(0, w); } break;
      default: break; }
    return raw(E_EXTRACT, w, a, 0, 0, 0, lo); }
  Expr* concat(Expr* hi, Expr* lo) {
    if (isC(hi) && isC(lo)) return cst((hi->v << lo->w) | lo->v, hi->w + lo->w);
    if (isC(hi) && hi->v == 0) return zext(lo, hi->w + lo->w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return extract(lo->a, lo->lo, hi->w + lo->w);
    if (hi->op == E_EXTRACT && hi->a == lo && hi->lo == lo->w) {} 
    return raw(E_CONCAT, hi->w + lo->w, hi, lo); }
  // conversions; aux unused
  Expr* cvt(EOp op, Expr* a, unsigned w) { if (isC(a)) return cst(foldcvt(op, a->v, a->w, w, 0), w); return raw(op, w, a); }
  Expr* fround(Expr* a, u8 mode) { if (isC(a)) return cst(foldcvt(E_FROUND, a->v, a->w, a->w, mode), a->w); return raw(E_FROUND, a->w, a, 0, 0, 0, 0, mode); }
  static u128 foldcvt(EOp op, u128 v, unsigned wf, unsigned wt, u8 mode) {
    switch (op) {
      case E_FCVT: if (wf == wt) return v; if (wt == 32) return ld2bits(wf == 64 ? (float)(double)bits2ld(v, wf) : (float)bits2ld(v, wf), 32);
        if (wt == 64) return ld2bits((double)bits2ld(v, wf), 64); return ld2bits(bits2ld(v, wf), wt);
      case E_SI2F: { i64 x = (i64)sx(v, wf); if (wt == 32) return ld2bits((float)x, 32); if (wt == 64) return ld2bits((double)x, 64); return ld2bits((long double)x, wt); }
      case E_UI2F: { u64 x = (u64)v; if (wt == 32) return ld2bits((float)x, 32); if (wt == 64) return ld2bits((double)x, 64); return ld2bits((long double)x, wt); }
      case E_F2SI: { long double f = truncl(bits2ld(v, wf)); long double lim = ldexpl(1, wt - 1); if (!(f >= -lim && f < lim)) return (u128)1 << (wt - 1); return (u128)(i128)(i64)f & maskw(wt); }
      case E_F2UI: { long double f = truncl(bits2ld(v, wf)); if (!(f > -1 && f < ldexpl(1, wt))) return 0; return (u128)(u64)f & maskw(wt); }
      case E_FSQRT: if (wf == 32) return ld2bits(sqrtf((float)bits2ld(v, 32)), 32); if (wf == 64) return ld2bits(sqrt((double)bits2ld(v, 64)), 64); return ld2bits(sqrtl(bits2ld(v, wf)), wf);
      case E_FROUND: { long double f = bits2ld(v, wf); switch (mode) { case 0: f = floorl(f); break; case 1: f = ceill(f); break; case 2: f = truncl(f); break; default: f = rintl(f); } return ld2bits(f, wf); }
      default: abort(); } }

  const std::vector<u32>& syms(Expr* e) {
    if (e->syms) return *e->syms; auto* r = new std::vector<u32>();
    if (e->op == E_SYM) r->push_back((u32)e->v); else for (Expr* k : {e->a, e->b, e->c}) if (k) { auto& s = syms(k); std::vector<u32> o; std::set_union(r->begin(), r->end(), s.begin(), s.end(), std::back_inserter(o)); r->swap(o); }
    e->syms = r; return *r; }

  u128 eval(Expr* e, const Model& m) { ++gen; return ev(e, m); }
  u128 ev(Expr* e, const Model& m) {
    if (e->op == E_CONST) return e->v; if (e->op == E_SYM) return m.get((u32)e->v) & maskw(e->w);
    if (e->evGen == gen) return e->evVal; u128 r;
    switch (e->op) {
      case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
      case E_ZEXT: r = ev(e->a, m); break; case E_SEXT: r = (u128)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
      case E_EXTRACT: r = (ev(e->a, m) >> e->lo) & maskw(e->w); break;
      case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
      case E_FCVT: case E_SI2F: case E_UI2F: case E_F2SI: case E_F2UI: case E_FSQRT: case E_FROUND: r = foldcvt(e->op, ev(e->a, m), e->a->w, e->w, e->aux); break;
      default: { bool ok; r = fold(e->op, ev(e->a, m), ev(e->b, m), e->a->w, ok); if (!ok) abort(); } }
    e->evGen = gen; e->evVal = r; return r; }

  // ---- Z3 ----
  Z3_context ctx = nullptr;
  Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort(ctx, 15, 64); }
  Z3_ast tofp(Expr* e) { return Z3_mk_fpa_to_fp_bv(ctx, z(e), fps(e->w)); }
  Z3_ast fromfp(Z3_ast a) { return Z3_mk_fpa_to_ieee_bv(ctx, a); }
  Z3_ast b2bv(Z3_ast b) { Z3_sort s1 = Z3_mk_bv_sort(ctx, 1); return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1)); }
  // width-1 expression as Z3 Bool
  std::unordered_map<Expr*, Z3_ast> bcache;
  Z3_ast zb(Expr* e) {
    auto it = bcache.find(e); if (it != bcache.end()) return it->second; Z3_ast r;
    switch (e->op) {
      case E_CONST: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case E_EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, zb(e->a), zb(e->b)) : Z3_mk_eq(ctx, z(e->a), z(e->b)); break;
      case E_ULT: r = Z3_mk_bvult(ctx, z(e->a), z(e->b)); break; case E_ULE: r = Z3_mk_bvule(ctx, z(e->a), z(e->b)); break;
      case E_SLT: r = Z3_mk_bvslt(ctx, z(e->a), z(e->b)); break; case E_SLE: r = Z3_mk_bvsle(ctx, z(e->a), z(e->b)); break;
      case E_AND: { Z3_ast x[2] = {zb(e->a), zb(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
      case E_OR: { Z3_ast x[2] = {zb(e->a), zb(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
      case E_XOR: if (isC(e->b)) r = e->b->v ? Z3_mk_not(ctx, zb(e->a)) : zb(e->a); else r = Z3_mk_xor(ctx, zb(e->a), zb(e->b)); break;
      case E_ITE: r = Z3_mk_ite(ctx, zb(e->a), zb(e->b), zb(e->c)); break;
      case E_FEQ: r = Z3_mk_fpa_eq(ctx, tofp(e->a), tofp(e->b)); break; case E_FLT: r = Z3_mk_fpa_lt(ctx, tofp(e->a), tofp(e->b)); break;
      case E_FLE: r = Z3_mk_fpa_leq(ctx, tofp(e->a), tofp(e->b)); break;
      case E_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, tofp(e->a)), Z3_mk_fpa_is_nan(ctx, tofp(e->b))}; r = Z3_mk_or(ctx, 2, x); break; }
      default: r = Z3_mk_eq(ctx, z(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); }
    bcache[e] = r; return r; }
  Z3_ast num(u128 v, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
    Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64)), hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
    return Z3_mk_concat(ctx, hi, lo); }
  Z3_ast z(Expr* e) {
    if (e->z) return e->z; Z3_ast r;
    if (e->w == 1 && (isCmp(e->op))) { r = b2bv(zb(e)); e->z = r; return r; }
    switch (e->op) {
      case E_CONST: r = num(e->v, e->w); break;
      case E_SYM: { char n[32]; snprintf(n, 32, "s%u", (u32)e->v); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, e->w)); break; }
#define B2(o, f) case o: r = f(ctx, z(e->a), z(e->b)); break;
      B2(E_ADD, Z3_mk_bvadd) B2(E_SUB, Z3_mk_bvsub) B2(E_MUL, Z3_mk_bvmul) B2(E_UDIV, Z3_mk_bvudiv) B2(E_SDIV, Z3_mk_bvsdiv) B2(E_UREM, Z3_mk_bvurem) B2(E_SREM, Z3_mk_bvsrem)
      B2(E_AND, Z3_mk_bvand) B2(E_OR, Z3_mk_bvor) B2(E_XOR, Z3_mk_bvxor) B2(E_SHL, Z3_mk_bvshl) B2(E_LSHR, Z3_mk_bvlshr) B2(E_ASHR, Z3_mk_bvashr) B2(E_CONCAT, Z3_mk_concat)
#undef B2
      case E_ITE: r = Z3_mk_ite(ctx, zb(e->a), z(e->b), z(e->c)); break;
      case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, z(e->a)); break; case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, z(e->a)); break;
      case E_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, z(e->a)); break;
      case E_FADD: r = fromfp(Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), tofp(e->a), tofp(e->b))); break;
      case E_FSUB: r = fromfp(Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), tofp(e->a), tofp(e->b))); break;
      case E_FMUL: r = fromfp(Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), tofp(e->a), tofp(e->b))); break;
      case E_FDIV: r = fromfp(Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), tofp(e->a), tofp(e->b))); break;
      case E_FSQRT: r = fromfp(Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), tofp(e->a))); break;
      case E_FCVT: r = fromfp(Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), tofp(e->a), fps(e->w))); break;
      case E_SI2F: r = fromfp(Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), z(e->a), fps(e->w))); break;
      case E_UI2F: r = fromfp(Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), z(e->a), fps(e->w))); break;
      case E_F2SI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), tofp(e->a), e->w); break;
      case E_F2UI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), tofp(e->a), e->w); break;
      case E_FROUND: r = fromfp(Z3_mk_fpa_round_to_integral(ctx, e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : Z3_mk_fpa_rne(ctx), tofp(e->a))); break;
      default: fprintf(stderr, "vsx: no Z3 translation for op %d\n", e->op); abort(); }
    e->z = r; return r; }
};
