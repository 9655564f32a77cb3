// Interpreter loop (included inside struct Engine).
  std::unordered_set<Func*> hitFn; std::map<u64, u32> pathsByEnd; bool timedOut = false; u64 maxObjs = 0;

  bool unsup(State& s, const std::string& w) { unsupported.insert(w + " at " + where(s)); incomplete = true; ++nErrPaths; return false; }
  // 'bad' must be unsatisfiable: report otherwise; continue with its negation. false = path ends
  bool forbid(State& s, Expr* bad, const char* kind, const std::string& msg) {
    if (P.isC(bad)) { if (bad->v) { violation(s, kind, msg); return false; } return true; }
    std::shared_ptr<Model> m;
    if (evalB(s, bad)) { violation(s, kind, msg); int r = query(s, P.notE(bad), m); if (r != 1) return false; s.model = m; addPc(s, P.notE(bad)); }
    else { int r = query(s, bad, m); if (r == 1) violation(s, kind, msg, m); if (r != 0) addPc(s, P.notE(bad)); }
    return true; }
  bool assume(State& s, Expr* c) {
    if (P.isC(c)) { if (!c->v) ++nInfeas; return c->v != 0; }
    if (!evalB(s, c)) { std::shared_ptr<Model> m; if (query(s, c, m) != 1) { ++nInfeas; return false; } s.model = m; }
    addPc(s, c); return true; }
  static Expr* nz(const Val& v, unsigned w) { return P.notE(P.bin(E_EQ, mk(v, w), P.cst(0, w))); }
  static u64 binc(unsigned op, u64 a, u64 b, unsigned w) {
    switch (op) {
      case Instruction::Add: return a + b; case Instruction::Sub: return a - b; case Instruction::Mul: return a * b;
      case Instruction::And: return a & b; case Instruction::Or: return a | b; case Instruction::Xor: return a ^ b;
      case Instruction::Shl: return b >= w ? 0 : a << b; case Instruction::LShr: return b >= w ? 0 : a >> b;
      case Instruction::AShr: { i64 x = (i64)sx(a, w); return (u64)(x >> (b >= w ? w - 1 : b)); }
      case Instruction::UDiv: return a / b; case Instruction::URem: return a % b;
      case Instruction::SDiv: { i64 x = (i64)sx(a, w), y = (i64)sx(b, w); return y == -1 ? (u64)0 - (u64)x : (u64)(x / y); }
      default: { i64 x = (i64)sx(a, w), y = (i64)sx(b, w); return y == -1 ? 0 : (u64)(x % y); } } }
  static EOp eop(unsigned op) { switch (op) { case Instruction::Add: return E_ADD; case Instruction::Sub: return E_SUB; case Instruction::Mul: return E_MUL; case Instruction::And: return E_AND; case Instruction::Or: return E_OR; case Instruction::Xor: return E_XOR;
      case Instruction::Shl: return E_SHL; case Instruction::LShr: return E_LSHR; case Instruction::AShr: return E_ASHR; case Instruction::UDiv: return E_UDIV; case Instruction::URem: return E_UREM; case Instruction::SDiv: return E_SDIV; case Instruction::SRem: return E_SREM;
      case Instruction::FAdd: return E_FADD; case Instruction::FSub: return E_FSUB; case Instruction::FMul: return E_FMUL; case Instruction::FDiv: return E_FDIV; default: return E_FREM; } }
  static Expr* icmp(unsigned p, Expr* a, Expr* b) {
    switch (p) { case CmpInst::ICMP_EQ: return P.bin(E_EQ, a, b); case CmpInst::ICMP_NE: return P.notE(P.bin(E_EQ, a, b)); case CmpInst::ICMP_ULT: return P.bin(E_ULT, a, b); case CmpInst::ICMP_ULE: return P.bin(E_ULE, a, b); case CmpInst::ICMP_UGT: return P.bin(E_ULT, b, a); case CmpInst::ICMP_UGE: return P.bin(E_ULE, b, a);
      case CmpInst::ICMP_SLT: return P.bin(E_SLT, a, b); case CmpInst::ICMP_SLE: return P.bin(E_SLE, a, b); case CmpInst::ICMP_SGT: return P.bin(E_SLT, b, a); default: return P.bin(E_SLE, b, a); } }
  static bool icmpc(unsigned p, u64 a, u64 b, unsigned w) { i64 x = (i64)sx(a, w), y = (i64)sx(b, w);
    switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; default: return x >= y; } }
  static Expr* fcmp(unsigned p, Expr* a, Expr* b) {
    switch (p) { case 0: return P.F(); case 1: return P.bin(E_FEQ, a, b); case 2: return P.bin(E_FLT, b, a); case 3: return P.bin(E_FLE, b, a); case 4: return P.bin(E_FLT, a, b); case 5: return P.bin(E_FLE, a, b); case 6: return P.bin(E_OR, P.bin(E_FLT, a, b), P.bin(E_FLT, b, a)); case 7: return P.notE(P.bin(E_FUNO, a, b)); case 15: return P.T(); default: return P.notE(fcmp(15 - p, a, b)); } }
  static Val padd(const Val& p, i64 k) { if (!k) return p; if (isConst(p)) return Val((u64)cval(p) + k); return Val::E(P.bin(E_ADD, p.e, P.cst((u64)k, 64))); }

  inline void set(State& s, Inst& x, Val v, u32 j = 0) { if (x.dest >= 0) s.regs[s.fr.back().base + x.dest + j] = v; }
  inline bool adv(State& s, Inst& x) { if (x.invoke) jump(s, x.tg[0]); else ++s.fr.back().ip; return true; }
  inline bool ret1(State& s, Inst& x, Val v) { if (x.dest >= 0 && x.nd) set(s, x, v); return adv(s, x); }

  // c ? a : b, as b|(c?m:0) when a is x|m and b is x&~m
  static Expr* mergeVal(Expr* c, Expr* a, Expr* b) {
    if (P.isC(a) || P.isC(b)) return P.ite(c, a, b); unsigned w = a->w;
    if (a->op == E_OR && P.isC(a->b) && P.bin(E_AND, a->a, P.cst(~a->b->v & maskw(w), w)) == b) return P.bin(E_OR, b, P.ite(c, a->b, P.cst(0, w)));
    if (b->op == E_OR && P.isC(b->b) && P.bin(E_AND, b->a, P.cst(~b->b->v & maskw(w), w)) == a) return P.bin(E_OR, a, P.ite(c, P.cst(0, w), b->b));
    return P.ite(c, a, b); }
  // if (c) {A} else {B} where A and B write the same places: run both, write c ? a : b. false: nothing was done
  bool mergeBranch(State& s, Inst& br, Expr* c) {
    struct W { u64 a; Val v; unsigned w; }; std::vector<W> ws[2]; Frame& f = s.fr.back(); int bb = f.bb, ip = f.ip, join = 0; bool ok = true; u64 n0 = s.instrs;
    for (int k = 0; k < 2 && ok; ++k) { f.bb = br.tg[k]; f.ip = 0;
      for (;;) { Inst& x = f.f->bbs[f.bb].in[f.ip]; if (x.op == Instruction::Br) { join = x.tg[0]; break; }
        if (x.op == Instruction::Load || x.op == Instruction::Store) { const Val p = rd(s, f, x.o[0]); u64 a = (u64)cval(p), nb = (x.lv[0].w + 7) / 8; std::string m; bool wrt = x.op == Instruction::Store; if (!isConst(p) || accessErr(s, a, nb, wrt, m)) { ok = false; break; }
          Obj* o = objAt(s, a); u32 off = (a & ((1ull << SLOT) - 1)) - BASE; for (u64 i = 0; i < nb && ok; ++i) ok = o->st[off + i] != 2; if (!ok) break;
          if (wrt) { ws[k].push_back({a, rd(s, f, x.o[1]), x.lv[0].w}); ++f.ip; ++s.instrs; locHit[x.loc] = 1; continue; } }
        if (!step(s)) { ok = false; break; } } }
    for (size_t i = 0; ok && i < ws[0].size(); ++i) ok = ws[0][i].a == ws[1][i].a && ws[0][i].w == ws[1][i].w;
    if (!ok) { f.bb = bb; f.ip = ip; s.instrs = n0; return false; }
    for (size_t i = 0; i < ws[0].size(); ++i) { auto &x = ws[0][i], &y = ws[1][i]; storeAt(s, x.a, Val::E(mergeVal(c, mk(x.v, x.w), mk(y.v, x.w))), x.w); }
    ++nMerged; f.bb = join; f.ip = 0; return true; }
  // if (c) {A} (or if (!c) {A}, when half is 2) where A computes and writes: run it, write c ? a : the old value; not when both are concrete, which would only move the fork
  bool mergeHalf(State& s, Inst& br, Expr* c) {
    struct W { u64 a; Val v; unsigned w; Val old; }; std::vector<W> ws; Frame& f = s.fr.back(); int bb = f.bb, ip = f.ip; bool ok = true; u64 n0 = s.instrs; f.bb = br.tg[br.half - 1]; f.ip = 0;
    while (ok) { Inst& x = f.f->bbs[f.bb].in[f.ip]; if (x.op == Instruction::Br) break;
      if (x.op == Instruction::Load || x.op == Instruction::Store) { const Val p = rd(s, f, x.o[0]); u64 a = (u64)cval(p), nb = (x.lv[0].w + 7) / 8; std::string m; bool wrt = x.op == Instruction::Store; if (!isConst(p) || accessErr(s, a, nb, wrt, m)) { ok = false; break; }
        Obj* o = objAt(s, a); u32 off = (a & ((1ull << SLOT) - 1)) - BASE; for (u64 i = 0; i < nb && ok; ++i) ok = o->st[off + i] != 2; if (!ok) break;
        if (wrt) { Val v = rd(s, f, x.o[1]), old; if (!load(s, p, x.lv[0].w, old) || (v.conc() && old.conc())) { ok = false; break; } for (auto& y : ws) if (y.a < a + nb && a < y.a + (y.w + 7) / 8) ok = false; ws.push_back({a, v, x.lv[0].w, old}); ++f.ip; ++s.instrs; locHit[x.loc] = 1; continue; } }
      if (!step(s)) { ok = false; break; } }
    if (!ok) { f.bb = bb; f.ip = ip; s.instrs = n0; return false; }
    for (auto& x : ws) { Expr *v = mk(x.v, x.w), *o = mk(x.old, x.w); storeAt(s, x.a, Val::E(br.half == 1 ? mergeVal(c, v, o) : mergeVal(c, o, v)), x.w); }
    ++nMerged; f.bb = br.tg[2 - br.half]; f.ip = 0; return true; }
  u64 nMerged = 0;

  bool step(State& s) {
    Frame& f = s.fr.back(); Inst& x = f.f->bbs[f.bb].in[f.ip]; ++s.instrs; locHit[x.loc] = 1;
    switch (x.op) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        for (u32 i = 0; i < x.n; ++i) { const Val &a = rd(s, f, x.o[0], i), &b = rd(s, f, x.o[1], i); Val r; if (a.conc() && b.conc() && x.w <= 64) r = Val(binc(x.op, a.c, b.c, x.w) & mask64(x.w)); else r = Val::E(P.bin(eop(x.op), mk(a, x.w), mk(b, x.w))); s.regs[f.base + x.dest + i] = r; } break;
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        for (u32 i = 0; i < x.n; ++i) { Val a = rd(s, f, x.o[0], i), b = rd(s, f, x.o[1], i); if (!forbid(s, P.bin(E_EQ, mk(b, x.w), P.cst(0, x.w)), "division-by-zero", "integer division by zero")) return false;
          Val r; if (a.conc() && b.conc() && x.w <= 64) r = Val(binc(x.op, a.c, b.c, x.w) & mask64(x.w)); else r = Val::E(P.bin(eop(x.op), mk(a, x.w), mk(b, x.w))); s.regs[f.base + x.dest + i] = r; } break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        for (u32 i = 0; i < x.n; ++i) { const Val &a = rd(s, f, x.o[0], i), &b = rd(s, f, x.o[1], i); if (x.op == Instruction::FRem && !(isConst(a) && isConst(b))) return unsup(s, "symbolic frem"); s.regs[f.base + x.dest + i] = Val::E(P.bin(eop(x.op), mk(a, x.w), mk(b, x.w))); } break;
      case Instruction::FNeg: for (u32 i = 0; i < x.n; ++i) { s.regs[f.base + x.dest + i] = Val::E(P.bin(E_XOR, mk(rd(s, f, x.o[0], i), x.w), P.cst((u128)1 << (x.w - 1), x.w))); } break;
      case Instruction::Freeze: { u32 n = x.nd; for (u32 i = 0; i < n; ++i) s.regs[f.base + x.dest + i] = rd(s, f, x.o[0], i); break; }
      case Instruction::ICmp: for (u32 i = 0; i < x.n; ++i) { const Val &a = rd(s, f, x.o[0], i), &b = rd(s, f, x.o[1], i); Val r; if (a.conc() && b.conc() && x.w <= 64) r = Val(icmpc(x.pred, a.c, b.c, x.w)); else r = Val::E(icmp(x.pred, mk(a, x.w), mk(b, x.w))); s.regs[f.base + x.dest + i] = r; } break;
      case Instruction::FCmp: for (u32 i = 0; i < x.n; ++i) s.regs[f.base + x.dest + i] = Val::E(fcmp(x.pred, mk(rd(s, f, x.o[0], i), x.w), mk(rd(s, f, x.o[1], i), x.w))); break;
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::AddrSpaceCast: case Instruction::BitCast: {
        if (x.op == Instruction::BitCast && x.nd != x.n) { Expr* t = nullptr; for (u32 i = 0; i < x.n; ++i) { Expr* e = mk(rd(s, f, x.o[0], i), x.w); t = t ? P.concat(e, t) : e; } for (u32 i = 0; i < x.nd; ++i) s.regs[f.base + x.dest + i] = Val::E(P.extract(t, i * x.w2, x.w2)); break; }
        for (u32 i = 0; i < x.n; ++i) { const Val a = rd(s, f, x.o[0], i); Val r; 
          switch (x.op) {
            case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: if (x.w2 <= x.w) r = a.conc() ? Val(a.c & mask64(x.w2)) : Val::E(P.extract(a.e, 0, x.w2)); else r = a.conc() && x.w2 <= 64 ? a : Val::E(P.zext(mk(a, x.w), x.w2)); break;
            case Instruction::SExt: r = a.conc() && x.w2 <= 64 ? Val((u64)(i64)sx(a.c, x.w) & mask64(x.w2)) : Val::E(P.sext(mk(a, x.w), x.w2)); break;
            case Instruction::FPTrunc: case Instruction::FPExt: r = Val::E(P.cvt(E_FCVT, mk(a, x.w), x.w2)); break;
            case Instruction::FPToUI: r = Val::E(P.cvt(E_F2UI, mk(a, x.w), x.w2)); break; case Instruction::FPToSI: r = Val::E(P.cvt(E_F2SI, mk(a, x.w), x.w2)); break;
            case Instruction::UIToFP: r = Val::E(P.cvt(E_UI2F, mk(a, x.w), x.w2)); break; case Instruction::SIToFP: r = Val::E(P.cvt(E_SI2F, mk(a, x.w), x.w2)); break;
            default: r = a; }
          s.regs[f.base + x.dest + i] = r; } break; }
      case Instruction::Alloca: { u64 n; if (!concretize(s, rd(s, f, x.o[0]), x.w, n, &x)) return false; u64 sz = (u64)x.goff * n; if (sz > MAXALLOC) { violation(s, "stack-overflow", "stack allocation too large"); return false; } u64 a = alloc(s, sz, K_STACK, true); f.allocas.push_back(a >> SLOT); s.regs[f.base + x.dest] = Val(a); break; }
      case Instruction::Load: { Val p = rd(s, f, x.o[0]); if (x.lv.size() == 1) { Val v; if (!load(s, p, x.lv[0].w, v)) return false; s.regs[f.base + x.dest] = v; } else for (u32 i = 0; i < x.lv.size(); ++i) { Val v; if (!load(s, padd(p, x.lv[i].off), x.lv[i].w, v)) return false; s.regs[f.base + x.dest + i] = v; } break; }
      case Instruction::Store: { Val p = rd(s, f, x.o[0]); for (u32 i = 0; i < x.lv.size(); ++i) { if (!store(s, padd(p, x.lv[i].off), rd(s, f, x.o[1], i), x.lv[i].w)) return false; } break; }
      case Instruction::GetElementPtr: { Val p = rd(s, f, x.o[0]); if (isConst(p)) { u64 a = (u64)cval(p) + x.goff; Expr* se = nullptr; for (auto& g : x.gs) { const Val& i = rd(s, f, x.o[g.first]); unsigned w = x.ow[g.first]; if (isConst(i)) a += (u64)((i64)sx(cval(i), w) * g.second); else { Expr* t = P.bin(E_MUL, P.sext(i.e, 64), P.cst((u64)g.second, 64)); se = se ? P.bin(E_ADD, se, t) : t; } } s.regs[f.base + x.dest] = se ? Val::E(P.bin(E_ADD, se, P.cst(a, 64))) : Val(a); }
        else { Expr* e = p.e; u64 k = x.goff; for (auto& g : x.gs) { const Val& i = rd(s, f, x.o[g.first]); unsigned w = x.ow[g.first]; if (isConst(i)) k += (u64)((i64)sx(cval(i), w) * g.second); else e = P.bin(E_ADD, e, P.bin(E_MUL, P.sext(i.e, 64), P.cst((u64)g.second, 64))); } s.regs[f.base + x.dest] = Val::E(P.bin(E_ADD, e, P.cst(k, 64))); } break; }
      case Instruction::Br: {
        if (x.o.empty()) { jump(s, x.tg[0]); return true; }
        const Val c = rd(s, f, x.o[0]); if (c.conc()) { jump(s, x.tg[c.c ? 0 : 1]); return true; }
        if (x.merge && mergeBranch(s, x, c.e)) return true; if (x.half && mergeHalf(s, x, c.e)) return true;
        bool b = branchOn(s, c.e, [&](State& n, bool taken) { jump(n, x.tg[taken ? 0 : 1]); }); jump(s, x.tg[b ? 0 : 1]); return true; }
      case Instruction::Switch: {
        const Val c = rd(s, f, x.o[0]); if (c.conc()) { int t = x.tg[0]; for (size_t i = 0; i < x.cases.size(); ++i) if (x.cases[i] == c.c) { t = x.tg[i + 1]; break; } jump(s, t); return true; }
        std::map<int, Expr*> by; Expr* def = P.T(); for (size_t i = 0; i < x.cases.size(); ++i) { Expr* q = P.bin(E_EQ, c.e, P.cst(x.cases[i], x.w)); def = P.bin(E_AND, def, P.notE(q)); auto& t = by[x.tg[i + 1]]; t = t ? P.bin(E_OR, t, q) : q; } { auto& t = by[x.tg[0]]; t = t ? P.bin(E_OR, t, def) : def; }
        int taken = -1; for (auto& p : by) if (evalB(s, p.second)) taken = p.first; if (taken < 0) return unsup(s, "switch");
        for (auto& p : by) if (p.first != taken) { std::shared_ptr<Model> m; if (query(s, p.second, m) == 1) { State* n = fork(s); n->model = m; addPc(*n, p.second); jump(*n, p.first); work.push_back(n); } }
        addPc(s, by[taken]); jump(s, taken); return true; }
      case Instruction::Select: { const Val c = rd(s, f, x.o[0]); for (u32 i = 0; i < x.lv.size(); ++i) { const Val ci = x.n ? rd(s, f, x.o[0], i) : c; const Val a = rd(s, f, x.o[1], i), b = rd(s, f, x.o[2], i); s.regs[f.base + x.dest + i] = ci.conc() ? (ci.c ? a : b) : Val::E(P.ite(ci.e, mk(a, x.lv[i].w), mk(b, x.lv[i].w))); } break; }
      case Instruction::ExtractValue: for (u32 i = 0; i < x.nd; ++i) s.regs[f.base + x.dest + i] = rd(s, f, x.o[0], x.goff + i); break;
      case Instruction::InsertValue: for (u32 i = 0; i < x.nd; ++i) s.regs[f.base + x.dest + i] = (i >= (u64)x.goff && i < (u64)x.goff + x.n) ? rd(s, f, x.o[1], i - x.goff) : rd(s, f, x.o[0], i); break;
      case Instruction::ExtractElement: { u64 k; if (!concretize(s, rd(s, f, x.o[1]), 64, k, &x)) return false; s.regs[f.base + x.dest] = rd(s, f, x.o[0], (u32)k); break; }
      case Instruction::InsertElement: { u64 k; if (!concretize(s, rd(s, f, x.o[2]), 64, k, &x)) return false; for (u32 i = 0; i < x.n; ++i) s.regs[f.base + x.dest + i] = i == k ? rd(s, f, x.o[1]) : rd(s, f, x.o[0], i); break; }
      case Instruction::ShuffleVector: for (u32 i = 0; i < x.cases.size(); ++i) { i64 m = (i64)x.cases[i]; s.regs[f.base + x.dest + i] = m < 0 ? Val(0) : m < (i64)x.n ? rd(s, f, x.o[0], m) : rd(s, f, x.o[1], m - x.n); } break;
      case Instruction::AtomicRMW: { Val p = rd(s, f, x.o[0]), v = rd(s, f, x.o[1]), old; if (!load(s, p, x.w, old)) return false; Expr *a = mk(old, x.w), *b = mk(v, x.w), *r; switch (x.pred) { case AtomicRMWInst::Xchg: r = b; break; case AtomicRMWInst::Add: r = P.bin(E_ADD, a, b); break; case AtomicRMWInst::Sub: r = P.bin(E_SUB, a, b); break; case AtomicRMWInst::And: r = P.bin(E_AND, a, b); break; case AtomicRMWInst::Or: r = P.bin(E_OR, a, b); break; case AtomicRMWInst::Xor: r = P.bin(E_XOR, a, b); break; default: return unsup(s, "atomicrmw"); } if (!store(s, p, Val::E(r), x.w)) return false; s.regs[f.base + x.dest] = old; break; }
      case Instruction::AtomicCmpXchg: { Val p = rd(s, f, x.o[0]), c = rd(s, f, x.o[1]), v = rd(s, f, x.o[2]), old; if (!load(s, p, x.w, old)) return false; Expr* eq = P.bin(E_EQ, mk(old, x.w), mk(c, x.w)); if (!store(s, p, Val::E(P.ite(eq, mk(v, x.w), mk(old, x.w))), x.w)) return false; s.regs[f.base + x.dest] = old; s.regs[f.base + x.dest + 1] = Val::E(eq); break; }
      case Instruction::Fence: break;
      case Instruction::LandingPad: s.regs[f.base + x.dest] = Val(s.pendObj); s.regs[f.base + x.dest + 1] = Val(s.pendSel); break;
      case Instruction::Resume: { u64 o; if (!concretize(s, rd(s, f, x.o[0]), 64, o, &x)) return false; return unwind(s, o, true); }
      case Instruction::Unreachable: violation(s, "unreachable", "execution reached code the compiler proved unreachable (undefined behaviour)"); return false;
      case Instruction::Ret: {
        static std::vector<Val> rv; rv.clear(); for (u32 i = 0; i < x.n; ++i) rv.push_back(rd(s, f, x.o[0], i));
        popFrame(s); if (s.fr.empty()) { finish(s, "return"); return false; }
        Frame& g = s.fr.back(); Inst& c = g.f->bbs[g.bb].in[g.ip]; if (c.dest >= 0) for (u32 i = 0; i < c.nd && i < rv.size(); ++i) s.regs[g.base + c.dest + i] = rv[i]; return adv(s, c); }
      case Instruction::Call: case Instruction::Invoke: return call(s, x);
      default: return unsup(s, std::string("instruction ") + Instruction::getOpcodeName(x.op)); }
    ++s.fr.back().ip; return true; }

  bool call(State& s, Inst& x) {
    Frame& f = s.fr.back(); static std::vector<Val> args; args.clear(); Func* fn = x.callee; int bi = x.bi; size_t na = x.o.size();
    if (x.indirect) { u64 a; if (!concretize(s, rd(s, f, x.o.back()), 64, a, &x)) return false; auto it = faddr.find(a); if (it == faddr.end()) { violation(s, a < 0x10000 ? "null-call" : "bad-call", "call through an invalid function pointer"); return false; } fn = it->second; bi = fn->bi; --na; }
    if (bi == B_NOP && !fn) { for (u32 i = 0; i < x.nd; ++i) set(s, x, Val(0), i); return adv(s, x); }
    for (size_t i = 0; i < na; ++i) args.push_back(rd(s, f, x.o[i]));
    if (bi >= 0) { std::vector<Val> a = args; return builtin(s, x, fn, bi, a); }
    if (fn->F->isDeclaration()) return unsup(s, "external function " + llvm::demangle(fn->name));
    hitFn.insert(fn); return pushFrame(s, fn, args, &x); }

  bool cz(State& s, Inst& x, const Val& v, unsigned w, u64& r) { return concretize(s, v, w, r, &x); }
  bool memsetAt(State& s, u64 d, const Val& c, u64 n) {
    if (!n) return true; std::string m; const char* e; if ((e = accessErr(s, d, n, true, m))) { violation(s, e, m + " (memset)"); return false; }
    if (isConst(c)) { Obj* o = wr(s, d >> SLOT); u32 off = (d & ((1ull << SLOT) - 1)) - BASE; memset(o->data + off, (int)cval(c), n); memset(o->st + off, 0, n); } else for (u64 i = 0; i < n; ++i) storeAt(s, d + i, c, 8);
    return true; }

  bool builtin(State& s, Inst& x, Func* fn, int bi, std::vector<Val>& a) {
    switch (bi) {
      case B_SYM: { u64 bits, nm; if (!cz(s, x, a[0], 32, bits) || !cz(s, x, a[1], 64, nm)) return false; std::string n = cstr(s, nm); u32 ni = nameId(n); static std::map<std::tuple<u32, u32, u32>, std::pair<u32, Expr*>> cache; auto k = std::make_tuple(s.nsym++, (u32)bits, ni); auto it = cache.find(k); if (it == cache.end()) { u32 ix = P.symName.size(); Expr* e = P.sym(n, bits); it = cache.emplace(k, std::make_pair(ix, e)).first; } s.syms.push_back({it->second.first, ni}); return ret1(s, x, Val::E(P.zext(it->second.second, 64))); }
      case B_ASSUME: if (!assume(s, nz(a[0], 32))) return false; return adv(s, x);
      case B_CHECK: { u64 mp; if (!cz(s, x, a[1], 64, mp)) return false; std::string m = cstr(s, mp); ++nAsserts; auto& c = checks[m]; ++c.first; Expr* bad = P.notE(nz(a[0], 32)); if (!P.isC(bad)) { ++nAssertSym; ++c.second; } if (!forbid(s, bad, "check", m)) return false; return adv(s, x); }
      case B_REACH: { u64 mp; if (!cz(s, x, a[0], 64, mp)) return false; reached.insert(cstr(s, mp)); return adv(s, x); }
      case B_OBSERVE: s.obs.push_back({a[0]}); return adv(s, x);
      case B_HEAP: return ret1(s, x, Val((u64)s.heapLive));
      case B_ABORTOK: s.expectAbort = isConst(a[0]) && cval(a[0]); return adv(s, x);
      case B_OPAQUE: s.opaque = isConst(a[0]) && cval(a[0]); return adv(s, x);
      case B_ISSYM: return ret1(s, x, Val(isConst(a[0]) ? 0 : 1));
      case B_CONC: { u64 v; if (!concretize(s, a[0], 64, v, &x, 100000)) return false; return ret1(s, x, Val(v)); }
      case B_PARAM: { std::string n = cstr(s, (u64)cval(a[0])); auto it = opt.params.find(n); return ret1(s, x, it == opt.params.end() ? a[1] : Val((u64)it->second)); }
      case B_ALLOC: {
        Expr* sz = mk(a[0], 64); Expr* big = P.bin(E_ULT, P.cst(MAXALLOC, 64), sz); bool b;
        if (P.isC(big)) b = big->v; else b = branchOn(s, big, [&](State& n, bool taken) { if (taken) { n.regs[n.fr.back().base + x.dest] = Val(0); adv(n, x); } });
        if (b) return ret1(s, x, Val(0)); u64 n, k; if (!isConst(a[0])) { Expr* lo = P.bin(E_ULT, sz, P.cst(257, 64)); std::shared_ptr<Model> m; if (!P.isC(lo) && !evalB(s, lo) && query(s, lo, m) == 1) s.model = m; } if (!concretize(s, a[0], 64, n, &x, 60)) return false; k = (u64)cval(a[1]); u64 r = alloc(s, n, (Kind)k, true); if (k != K_EXN) s.heapLive++; return ret1(s, x, Val(r)); }
      case B_FREE: { u64 p; if (!cz(s, x, a[0], 64, p)) return false; if (!freeObj(s, p, (Kind)cval(a[1]))) return false; return adv(s, x); }
      case B_ALLOCSZ: { u64 p; if (!cz(s, x, a[0], 64, p)) return false; Obj* o = objAt(s, p); return ret1(s, x, Val(o ? o->size : 0)); }
      case B_RAISE: { u64 o = (u64)cval(a[0]), t = (u64)cval(a[1]); bool found = false; for (auto& e : s.exns) if (e.obj == o) { if (t) e.ti = t; found = true; } if (!found) s.exns.push_back({o, t, o}); return unwind(s, o, false); }
      case B_ADJ: { u64 o = (u64)cval(a[0]); for (auto& e : s.exns) if (e.obj == o) return ret1(s, x, Val(e.adj)); return ret1(s, x, Val(o)); }
      case B_DYNCAST: {
        u64 p; if (!cz(s, x, a[0], 64, p)) return false; u64 st = (u64)cval(a[1]), dt = (u64)cval(a[2]); if (!p) return ret1(s, x, Val(0)); Val vp; if (!load(s, Val(p), 64, vp)) return false; u64 vt; if (!cz(s, x, vp, 64, vt)) return false; Val ot, wt; if (!load(s, Val(vt - 16), 64, ot) || !load(s, Val(vt - 8), 64, wt)) return false;
        u64 whole = p + (u64)cval(ot), wti = (u64)cval(wt); std::set<u64> dst, down; bool srcPub = false;
        subobjs(s, wti, whole, true, [&](u64 ti, u64 ad, bool pub) { if (sameTI(ti, st) && ad == p && pub) srcPub = true; if (sameTI(ti, dt)) { if (pub) dst.insert(ad); bool has = false; subobjs(s, ti, ad, true, [&](u64 t2, u64 a2, bool p2) { if (sameTI(t2, st) && a2 == p && p2) has = true; }); if (has) down.insert(ad); } });
        u64 r = 0; if (down.size() == 1) r = *down.begin(); else if (down.empty() && srcPub && dst.size() == 1) r = *dst.begin(); return ret1(s, x, Val(r)); }
      case B_MEMCPY: { u64 n, d, q; if (!cz(s, x, a[2], 64, n) || !cz(s, x, a[0], 64, d) || !cz(s, x, a[1], 64, q)) return false; if (!copyMem(s, d, q, n)) return false; return ret1(s, x, a[0]); }
      case B_MEMSET: { u64 n, d; if (!cz(s, x, a[2], 64, n) || !cz(s, x, a[0], 64, d)) return false; if (!memsetAt(s, d, Val::E(P.extract(mk(a[1], 32), 0, 8)), n)) return false; return ret1(s, x, a[0]); }
      case B_MEMCMP: { u64 n, d, q; if (!cz(s, x, a[2], 64, n) || !cz(s, x, a[0], 64, d) || !cz(s, x, a[1], 64, q)) return false; if (!n) return ret1(s, x, Val(0)); std::string m; const char* e; if ((e = accessErr(s, d, n, false, m)) || (e = accessErr(s, q, n, false, m))) { violation(s, e, m + " (memcmp)"); return false; }
        Expr* r = P.cst(0, 32); for (u64 i = n; i-- > 0;) { Expr *u = mk(loadAt(s, d + i, 8), 8), *v = mk(loadAt(s, q + i, 8), 8); r = P.ite(P.bin(E_EQ, u, v), r, P.bin(E_SUB, P.zext(u, 32), P.zext(v, 32))); } return ret1(s, x, Val::E(r)); }
      case B_ABORT: case B_EXIT: case B_TERMINATE: case B_ASSERTFAIL: {
        if (s.expectAbort) { reached.insert("abort"); finish(s, "abort"); return false; }
        std::string m = bi == B_ABORT ? "abort() called" : bi == B_EXIT ? "exit() called" : bi == B_TERMINATE ? "std::terminate called" : "assertion failed: " + cstr(s, (u64)cval(a[0])); violation(s, "abort", m); return false; }
      case B_NOP: return ret1(s, x, Val(0));
      case B_UNDEF: return ret1(s, x, Val::E(undefSym(s, x.w)));
      case B_UNREACH: violation(s, "pure-virtual", "pure virtual function called"); return false;
      case B_INT2CHAR: {
        if (isConst(a[1]) || !s.opaque) { if (fn->F->isDeclaration()) return unsup(s, fn->name); hitFn.insert(fn); return pushFrame(s, fn, a, &x); }
        u64 be; if (!cz(s, x, a[0], 64, be)) return false; if (!store(s, Val(be - 1), Val('#'), 8)) return false; return ret1(s, x, Val(1)); }
      case B_FMTFP: { // std::__convert_from_v(locale, buf, size, fmt, [prec,] value)
        u64 buf, sz; if (!cz(s, x, a[1], 64, buf)) return false; sz = (u64)cval(a[2]) & 0xffffffff; std::string fmt = cstr(s, (u64)cval(a[3])); char out[600]; int len; const Val v = a.back(); unsigned w = x.ow[a.size() - 1];
        if (!isConst(v)) { if (!s.opaque) return unsup(s, "formatting a symbolic floating-point value"); strcpy(out, "#"); len = 1; }
        else { long double ld = bits2ld(cval(v), w); bool star = fmt.find('*') != std::string::npos; int prec = star ? (int)cval(a[4]) : 0; if (w == 80) len = star ? snprintf(out, 600, fmt.c_str(), prec, ld) : snprintf(out, 600, fmt.c_str(), ld); else len = star ? snprintf(out, 600, fmt.c_str(), prec, (double)ld) : snprintf(out, 600, fmt.c_str(), (double)ld); }
        for (int i = 0; i <= len && (u64)i < sz; ++i) if (!store(s, Val(buf + i), Val((u8)out[i]), 8)) return false; return ret1(s, x, Val((u32)len)); }
      case B_FLOATFN: return floatfn(s, x, fn, a);
      case B_INTRIN: return intrin(s, x, fn, a);
      default: return unsup(s, "builtin " + fn->name); } }

  bool floatfn(State& s, Inst& x, Func* fn, std::vector<Val>& a) {
    std::string n = fn->name; unsigned w = x.ow[0]; bool allc = true; for (auto& v : a) if (!isConst(v)) allc = false;
    auto endsw = [&](char c) { return n.size() > 1 && n.back() == c; }; std::string b = n; if ((w == 32 && endsw('f')) || (w == 80 && endsw('l'))) b.pop_back(); if (b == "cei") b = "ceil";
    if (!allc) {
      if (b == "fabs") return ret1(s, x, Val::E(P.bin(E_AND, mk(a[0], w), P.cst(maskw(w - 1), w)))); if (b == "sqrt") return ret1(s, x, Val::E(P.cvt(E_FSQRT, mk(a[0], w), w)));
      if (b == "floor") return ret1(s, x, Val::E(P.fround(mk(a[0], w), 0))); if (b == "ceil") return ret1(s, x, Val::E(P.fround(mk(a[0], w), 1))); if (b == "trunc") return ret1(s, x, Val::E(P.fround(mk(a[0], w), 2)));
      return unsup(s, "symbolic " + n); }
    long double v = bits2ld(cval(a[0]), w), u = a.size() > 1 ? bits2ld(cval(a[1]), x.ow[1]) : 0, r;
    if (w == 64) { double d = (double)v, e = (double)u; if (b == "log") r = log(d); else if (b == "log2") r = log2(d); else if (b == "exp") r = exp(d); else if (b == "pow") r = pow(d, e); else if (b == "sqrt") r = sqrt(d); else if (b == "floor") r = floor(d); else if (b == "ceil") r = ceil(d); else if (b == "fabs") r = fabs(d); else if (b == "nextafter") r = nextafter(d, e); else if (b == "fmod") r = fmod(d, e); else if (b == "trunc") r = trunc(d); else if (b == "round") r = round(d); else return unsup(s, n); }
    else if (w == 32) { float d = (float)v, e = (float)u; if (b == "log") r = logf(d); else if (b == "log2") r = log2f(d); else if (b == "sqrt") r = sqrtf(d); else if (b == "floor") r = floorf(d); else if (b == "ceil") r = ceilf(d); else if (b == "fabs") r = fabsf(d); else if (b == "nextafter") r = nextafterf(d, e); else if (b == "fmod") r = fmodf(d, e); else return unsup(s, n); }
    else { if (b == "log") r = logl(v); else if (b == "sqrt") r = sqrtl(v); else if (b == "floor") r = floorl(v); else if (b == "ceil") r = ceill(v); else if (b == "fabs") r = fabsl(v); else if (b == "nextafter") r = nextafterl(v, u); else if (b == "fmod") r = fmodl(v, u); else return unsup(s, n); }
    return ret1(s, x, Val::E(P.cst(ld2bits(r, w), w))); }

  bool intrin(State& s, Inst& x, Func* fn, std::vector<Val>& a) {
    unsigned w = x.ow.size() ? x.ow[0] : 0; auto E = [&](int i) { return mk(a[i], x.ow[i]); };
    switch (fn->F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n, d, q; if (!cz(s, x, a[2], x.ow[2], n) || !cz(s, x, a[0], 64, d) || !cz(s, x, a[1], 64, q)) return false; if (!copyMem(s, d, q, n)) return false; return adv(s, x); }
      case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n, d; if (!cz(s, x, a[2], x.ow[2], n) || !cz(s, x, a[0], 64, d)) return false; if (!memsetAt(s, d, a[1], n)) return false; return adv(s, x); }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: if (isConst(a[1])) { u64 p = (u64)cval(a[1]); Obj* o = objAt(s, p); if (o && o->kind == K_STACK) { Obj* q = wr(s, p >> SLOT); memset(q->st, 2, q->size); } } return adv(s, x);
      case Intrinsic::umul_with_overflow: { Expr* p = P.bin(E_MUL, P.zext(E(0), 2 * w), P.zext(E(1), 2 * w)); Expr* lo = P.bin(E_MUL, E(0), E(1)); 
        Expr* ov; if (w == 64 && P.isC(E(1)) && E(1)->v) ov = P.bin(E_ULT, P.cst((u64)(mask64(64) / (u64)E(1)->v), 64), E(0)); else if (w == 64 && P.isC(E(0)) && E(0)->v) ov = P.bin(E_ULT, P.cst((u64)(mask64(64) / (u64)E(0)->v), 64), E(1)); else ov = P.notE(P.bin(E_EQ, P.extract(p, w, w), P.cst(0, w))); set(s, x, Val::E(lo), 0); set(s, x, Val::E(ov), 1); return adv(s, x); }
      case Intrinsic::uadd_with_overflow: { Expr* r = P.bin(E_ADD, E(0), E(1)); set(s, x, Val::E(r), 0); set(s, x, Val::E(P.bin(E_ULT, r, E(0))), 1); return adv(s, x); }
      case Intrinsic::usub_with_overflow: { set(s, x, Val::E(P.bin(E_SUB, E(0), E(1))), 0); set(s, x, Val::E(P.bin(E_ULT, E(0), E(1))), 1); return adv(s, x); }
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned ww = 2 * w; auto id = fn->F->getIntrinsicID(); EOp op = id == Intrinsic::sadd_with_overflow ? E_ADD : id == Intrinsic::ssub_with_overflow ? E_SUB : E_MUL; Expr* p = P.bin(op, P.sext(E(0), ww), P.sext(E(1), ww)); Expr* lo = P.extract(p, 0, w); set(s, x, Val::E(lo), 0); set(s, x, Val::E(P.notE(P.bin(E_EQ, P.sext(lo, ww), p))), 1); return adv(s, x); }
      case Intrinsic::ctlz: { Expr* r = P.cst(w, w); Expr* v = E(0); for (unsigned i = 0; i < w; ++i) r = P.ite(P.extract(v, i, 1), P.cst(w - 1 - i, w), r); return ret1(s, x, Val::E(r)); }
      case Intrinsic::cttz: { Expr* r = P.cst(w, w); Expr* v = E(0); for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(v, i, 1), P.cst(i, w), r); return ret1(s, x, Val::E(r)); }
      case Intrinsic::ctpop: { Expr* r = P.cst(0, w); Expr* v = E(0); for (unsigned i = 0; i < w; ++i) r = P.bin(E_ADD, r, P.zext(P.extract(v, i, 1), w)); return ret1(s, x, Val::E(r)); }
      case Intrinsic::bswap: { Expr* v = E(0); Expr* r = P.extract(v, 0, 8); for (unsigned i = 8; i < w; i += 8) r = P.concat(r, P.extract(v, i, 8)); return ret1(s, x, Val::E(r)); }
      case Intrinsic::fshl: case Intrinsic::fshr: { Expr* k = P.bin(E_UREM, E(2), P.cst(w, w)); Expr* c = P.concat(E(0), E(1)); Expr* kk = P.zext(k, 2 * w); if (fn->F->getIntrinsicID() == Intrinsic::fshl) return ret1(s, x, Val::E(P.extract(P.bin(E_SHL, c, kk), w, w))); return ret1(s, x, Val::E(P.extract(P.bin(E_LSHR, c, kk), 0, w))); }
      case Intrinsic::abs: { u32 n = x.nd ? x.nd : 1; for (u32 i = 0; i < n; ++i) { Expr* v = mk(a[i], w); set(s, x, Val::E(P.ite(P.bin(E_SLT, v, P.cst(0, w)), P.bin(E_SUB, P.cst(0, w), v), v)), i); } return adv(s, x); }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { u32 n = x.nd ? x.nd : 1; auto id = fn->F->getIntrinsicID(); for (u32 i = 0; i < n; ++i) { Expr *u = mk(a[i], w), *v = mk(a[n + i], w); Expr* lt = P.bin(id == Intrinsic::umin || id == Intrinsic::umax ? E_ULT : E_SLT, u, v); set(s, x, Val::E(id == Intrinsic::umin || id == Intrinsic::smin ? P.ite(lt, u, v) : P.ite(lt, v, u)), i); } return adv(s, x); }
      case Intrinsic::uadd_sat: { Expr* r = P.bin(E_ADD, E(0), E(1)); return ret1(s, x, Val::E(P.ite(P.bin(E_ULT, r, E(0)), P.cst(maskw(w), w), r))); }
      case Intrinsic::usub_sat: return ret1(s, x, Val::E(P.ite(P.bin(E_ULT, E(0), E(1)), P.cst(0, w), P.bin(E_SUB, E(0), E(1)))));
      case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return ret1(s, x, a[0]);
      case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::vaend: case Intrinsic::invariant_end: case Intrinsic::var_annotation: return adv(s, x);
      case Intrinsic::stacksave: case Intrinsic::invariant_start: case Intrinsic::returnaddress: case Intrinsic::frameaddress: return ret1(s, x, Val(0));
      case Intrinsic::is_constant: return ret1(s, x, Val(0));
      case Intrinsic::objectsize: return ret1(s, x, Val(cval(a[1]) ? 0 : mask64(x.w)));
      case Intrinsic::eh_typeid_for: return ret1(s, x, Val(selOf((u64)cval(a[0]))));
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violation(s, "trap", "trap instruction reached"); return false;
      case Intrinsic::vastart: { u64 va = (u64)cval(a[0]); Frame& f = s.fr.back(); std::vector<Val> v = f.va; std::vector<u16> vw = f.vaw; u64 sz = 0; for (auto q : vw) { if (q == 80) sz = ((sz + 15) & ~15ull) + 16; else sz += 8; } u64 blk = alloc(s, std::max<u64>(sz, 8), K_STACK, true); s.fr.back().allocas.push_back(blk >> SLOT); u64 o = 0; for (size_t i = 0; i < v.size(); ++i) { if (vw[i] == 80) { o = (o + 15) & ~15ull; storeAt(s, blk + o, v[i], 80); o += 16; } else { storeAt(s, blk + o, Val::E(P.zext(mk(v[i], vw[i]), 64)), 64); o += 8; } }
        if (!store(s, Val(va), Val(48), 32) || !store(s, Val(va + 4), Val(176), 32) || !store(s, Val(va + 8), Val(blk), 64) || !store(s, Val(va + 16), Val(0), 64)) return false; return adv(s, x); }
      case Intrinsic::vacopy: if (!copyMem(s, (u64)cval(a[0]), (u64)cval(a[1]), 24)) return false; return adv(s, x);
      case Intrinsic::fabs: return ret1(s, x, Val::E(P.bin(E_AND, E(0), P.cst(maskw(w - 1), w))));
      case Intrinsic::sqrt: return ret1(s, x, Val::E(P.cvt(E_FSQRT, E(0), w)));
      case Intrinsic::floor: return ret1(s, x, Val::E(P.fround(E(0), 0))); case Intrinsic::ceil: return ret1(s, x, Val::E(P.fround(E(0), 1))); case Intrinsic::trunc: return ret1(s, x, Val::E(P.fround(E(0), 2))); case Intrinsic::rint: case Intrinsic::nearbyint: return ret1(s, x, Val::E(P.fround(E(0), 3)));
      case Intrinsic::fmuladd: return ret1(s, x, Val::E(P.bin(E_FADD, P.bin(E_FMUL, E(0), E(1)), E(2))));
      case Intrinsic::copysign: return ret1(s, x, Val::E(P.bin(E_OR, P.bin(E_AND, E(0), P.cst(maskw(w - 1), w)), P.bin(E_AND, E(1), P.cst((u128)1 << (w - 1), w)))));
      case Intrinsic::minnum: case Intrinsic::maxnum: { Expr *u = E(0), *v = E(1); Expr* lt = fn->F->getIntrinsicID() == Intrinsic::minnum ? P.bin(E_FLT, u, v) : P.bin(E_FLT, v, u); return ret1(s, x, Val::E(P.ite(P.bin(E_OR, lt, P.bin(E_FUNO, v, v)), u, v))); }
      case Intrinsic::is_fpclass: { u64 m = (u64)cval(a[1]); Expr* v = E(0); if (m == 3) return ret1(s, x, Val::E(P.bin(E_FUNO, v, v))); if (m == 0x3fc) return ret1(s, x, Val::E(P.notE(P.bin(E_FUNO, v, v)))); return unsup(s, "is.fpclass"); }
      default: { std::string n = fn->name; if (n.rfind("llvm.dbg", 0) == 0) return adv(s, x); return unsup(s, "intrinsic " + n); } } }

  // ---------------- end of a path
  void finish(State& s, const char* how) {
    ++nPaths; if (s.entry == ~0u) return;
    bool keep = tests.size() < (size_t)opt.maxTests; size_t at = tests.size(); if (!keep) { u64 k = rnd() % nPaths; if (k < (u64)opt.maxTests) { keep = true; at = k; } }
    if (keep) { std::string o = "["; for (auto& b : s.obs) { if (o.size() > 1) o += ","; Expr* e = mk(b.v, 64); bool und = false; for (u32 y : P.syms(e)) if (P.symUndef[y]) und = true; char t[40]; snprintf(t, 40, "\"%llu\"", (unsigned long long)P.eval(e, *s.model)); o += und ? "null" : t; } o += "]";
      std::string j = "{\"end\":\"" + std::string(how) + "\",\"inputs\":" + inputsJson(s, *s.model) + ",\"obs\":" + o + "}"; if (at == tests.size()) tests.push_back(j); else tests[at] = j; } }

  // ---------------- exploration
  int tokR = -1, tokW = -1; double deadline = 0; bool isChild = false; std::string outBase; std::string entryName;
  bool tryToken() { char c; return tokR >= 0 && read(tokR, &c, 1) == 1; }
  void giveToken() { if (tokW >= 0) { char c = 't'; if (write(tokW, &c, 1)) {} } }
  void resetStats() { reached.clear(); unsupported.clear(); notes.clear(); viols.clear(); checks.clear(); nPaths = nForks = nQueries = nCacheHits = nInstr = nUnsat = nSat = nUnknown = nAsserts = nAssertSym = nInfeas = nErrPaths = nSecond = nExternal = 0; solverTime = 0; incomplete = false; tests.clear(); t0 = now(); hitFn.clear(); std::fill(locHit.begin(), locHit.end(), 0); }
  void explore() {
    u64 tick = 0; double lastSplit = now();
    while (!work.empty()) {
      State* s = work.back(); work.pop_back(); u64 start = s->instrs; bool go = true;
      while (go) { go = step(*s);
        if ((++tick & 0xfff) == 0 || checkTime) { checkTime = false; if (timeLeft() < 0) { timedOut = incomplete = true; go = false; notes.insert("time limit reached"); }
          if (s->instrs > opt.maxInstr) { if (go) violation(*s, "no-termination", "path exceeds the instruction limit"); go = false; }
          if (work.size() >= 2 && now() - lastSplit > 0.15) { lastSplit = now(); trySplit(); } } }
      nInstr += s->instrs - start; maxObjs = std::max<u64>(maxObjs, s->mem.size()); delete s;
      if (timedOut || (int)viols.size() >= opt.maxViol) { if (!work.empty() && !timedOut) notes.insert("stopped after the violation limit"); for (auto* q : work) delete q; work.clear(); } } }
  void trySplit() {
    if (!tryToken()) return; pid_t p = ::fork(); if (p < 0) { giveToken(); return; }
    std::deque<State*> a, b; bool k = false; for (auto* q : work) { (k ? a : b).push_back(q); k = !k; } // children take every second pending state
    if (p == 0) { isChild = true; for (auto* q : a) (void)q; work = b; resetStats(); rng ^= (u64)getpid() * 0x9E3779B97F4A7C15ull; explore(); writeOut(); giveToken(); int st, rc = 0; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 4; _exit(rc); }
    work = a; }
  void writeOut() {
    std::string fn = outBase + "/" + entryName + "." + std::to_string(getpid()) + ".json"; std::string tmp = fn + ".tmp"; FILE* o = fopen(tmp.c_str(), "w"); if (!o) { fprintf(stderr, "cannot write %s\n", tmp.c_str()); _exit(3); }
    auto arr = [&](const char* n, const std::set<std::string>& v) { fprintf(o, "\"%s\":[", n); bool c = false; for (auto& x : v) { fprintf(o, "%s\"%s\"", c ? "," : "", esc(x).c_str()); c = true; } fprintf(o, "],\n"); };
    fprintf(o, "{\"entry\":\"%s\",\"paths\":%llu,\"forks\":%llu,\"queries\":%llu,\"cached\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"external\":%llu,\"second\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"infeasible\":%llu,\"error_paths\":%llu,\"instructions\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"incomplete\":%s,\"max_objects\":%llu,\n", entryName.c_str(), (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nQueries, (unsigned long long)nCacheHits, (unsigned long long)nSat, (unsigned long long)nUnsat, (unsigned long long)nUnknown, (unsigned long long)nExternal, (unsigned long long)nSecond, (unsigned long long)nAsserts, (unsigned long long)nAssertSym, (unsigned long long)nInfeas, (unsigned long long)nErrPaths, (unsigned long long)nInstr, solverTime, now() - t0, incomplete ? "true" : "false", (unsigned long long)maxObjs);
    arr("reached", reached); arr("unsupported", unsupported); arr("notes", notes);
    std::set<std::string> fns, lines; for (auto* f : hitFn) if (auto* sp = f->F->getSubprogram()) { std::string fl = sp->getFilename().str(); if (fl.find(opt.repo) == 0 || (sp->getDirectory().str() + "/" + fl).find(opt.repo) == 0) fns.insert(demangle(f->name)); }
    for (size_t i = 1; i < locList.size(); ++i) if (locHit[i]) { std::string fl = locList[i]->getFilename().str(); if (fl.find(opt.repo) == 0) lines.insert(fl.substr(opt.repo.size()) + ":" + std::to_string(locList[i]->getLine())); }
    arr("functions", fns); arr("lines", lines);
    fprintf(o, "\"checks\":{"); bool c = false; for (auto& k : checks) { fprintf(o, "%s\"%s\":[%llu,%llu]", c ? "," : "", esc(k.first).c_str(), (unsigned long long)k.second.first, (unsigned long long)k.second.second); c = true; }
    fprintf(o, "},\n\"violations\":["); c = false; for (auto& v : viols) { fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":%s}", c ? ",\n" : "", esc(v.kind).c_str(), esc(v.msg).c_str(), esc(v.where).c_str(), v.inputs.c_str()); c = true; }
    fprintf(o, "],\n\"tests\":["); c = false; for (auto& t : tests) { fprintf(o, "%s%s", c ? ",\n" : "", t.c_str()); c = true; } fprintf(o, "]}\n"); fclose(o); rename(tmp.c_str(), fn.c_str()); }

  // ---------------- globals and start-up
  void initMem(State& s) {
    s.mem.push_back(OR()); s.model = std::make_shared<Model>(); s.entry = ~0u;
    for (auto& G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; u64 sz = DL->getTypeAllocSize(G.getValueType()); u64 a = alloc(s, sz, G.isConstant() ? K_CONST : K_GLOBAL, false); gaddr[&G] = a; }
    for (auto& F : *M) getFunc(&F);
    for (auto& G : M->globals()) { if (G.getName().starts_with("llvm.") || !G.hasInitializer()) continue; std::vector<Leaf> lv; leaves(G.getValueType(), 0, lv); std::vector<Val> v; constVals(G.getInitializer(), v); u64 a = gaddr[&G]; Obj* o = s.mem[a >> SLOT].p; for (size_t i = 0; i < lv.size(); ++i) { u128 c = cval(v[i]); memcpy(o->data + lv[i].off, &c, (lv[i].w + 7) / 8); } }
    initTI(); }
  bool runTo(State& s, Func* fn) { std::vector<Val> none; if (!pushFrame(s, fn, none, nullptr)) return false; size_t n0 = viols.size(); u64 p0 = nPaths; while (step(s)) {} return viols.size() == n0 && nPaths == p0 + 1; }
