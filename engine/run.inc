// The instruction loop (part of symx.cpp).
static u64 binC(u8 op, u64 a, u64 b, unsigned w, bool &dz) {
  u64 m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
  case E_SHL: b &= w - 1; return (a << b) & m; case E_LSHR: b &= w - 1; return a >> b; case E_ASHR: b &= w - 1; return (u64)(sextw(a, w) >> b) & m;
  case E_UDIV: if (!b) { dz = true; return 0; } return a / b; case E_UREM: if (!b) { dz = true; return 0; } return a % b;
  case E_SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (!y || (y == -1 && x == (w == 64 ? INT64_MIN : -(1LL << (w - 1))))) { dz = true; return 0; } return (u64)(x / y) & m; }
  default: { i64 x = sextw(a, w), y = sextw(b, w); if (!y || (y == -1 && x == (w == 64 ? INT64_MIN : -(1LL << (w - 1))))) { dz = true; return 0; } return (u64)(x % y) & m; }
  }
}
static bool cmpC(u8 p, u64 a, u64 b, unsigned w) { switch (p) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return sextw(a, w) < sextw(b, w); default: return sextw(a, w) <= sextw(b, w); } }
static EP cmpE(u8 p, EP a, EP b) { switch (p) { case 0: return mkEq(a, b); case 1: return mkNot(mkEq(a, b)); case 2: return mkBin(E_ULT, a, b); case 3: return mkBin(E_ULE, a, b); case 4: return mkBin(E_SLT, a, b); default: return mkBin(E_SLE, a, b); } }
static EP fcmpP(unsigned pred, EP x, EP y) { // NaN never arises from exact operands
  switch (pred) { case 1: case 9: return fcmp2(E_EQ, x, y); case 2: case 10: return fcmp2(E_SLT, y, x); case 3: case 11: return fcmp2(E_SLE, y, x); case 4: case 12: return fcmp2(E_SLT, x, y); case 5: case 13: return fcmp2(E_SLE, x, y); case 6: case 14: return mkNot(fcmp2(E_EQ, x, y)); case 7: return mkConst(1, 1); case 8: return mkConst(0, 1); case 0: return mkConst(0, 1); default: return mkConst(1, 1); } }
static bool fcmpC(unsigned pred, double a, double b) { bool un = a != a || b != b; switch (pred) { case 0: return false; case 1: return !un && a == b; case 2: return !un && a > b; case 3: return !un && a >= b; case 4: return !un && a < b; case 5: return !un && a <= b; case 6: return !un && a != b; case 7: return !un; case 8: return un; case 9: return un || a == b; case 10: return un || a > b; case 11: return un || a >= b; case 12: return un || a < b; case 13: return un || a <= b; case 14: return un || a != b; default: return true; } }
static u64 cvtF2SI(double d, unsigned w) { if (w == 64) { if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 0x8000000000000000ULL; return (u64)(i64)d; } if (!(d > -2147483649.0 && d < 2147483648.0)) return 0x80000000ULL & maskw(w); return (u64)(i64)d & maskw(w); }

// Two sides of a branch that only differ in data are executed separately up to the point where they join and merged.
struct Spec { size_t depth; i64 join; u64 budget; int lastEdge; };
static u64 g_merges;
static std::map<std::pair<DFn *, u32>, std::pair<u32, u32>> g_mergeSites; // successes, failures
static bool specSafe(int id) { return id == B_memcpy || id == B_memmove || id == B_memset || id == B___vf_is_sym || (id >= B_sin && id <= B_round) || id == B_strlen || id == B_strcmp || id == B_strcpy || id == B_memcmp; }
template <bool SPEC> static bool runT(State &s, Spec *sp);
static bool mergeMem(MemTable &A, MemTable &B, EP c) { // merges B into A
  if (B.n > A.n) { A.n = B.n; A.freeStack = B.freeStack; } size_t nc = std::max(A.ch.size(), B.ch.size()); unsigned total = 0;
  for (size_t i = 0; i < nc; i++) { Chunk *x = i < A.ch.size() ? A.ch[i] : nullptr, *y = i < B.ch.size() ? B.ch[i] : nullptr; if (x == y) continue;
    for (int k = 0; k < 64; k++) { Obj *o = x ? x->o[k] : nullptr, *p = y ? y->o[k] : nullptr; if (o == p) continue; if (!o || !p) return false; if (o->size != p->size || o->dead != p->dead) return false; if (o->dead) continue;
      u32 id = i * 64 + k;
      for (u32 g = 0; g < o->np; g++) { Page *q = o->pages[g], *r = p->pages[g]; if (q == r) continue; o = A.own(id); x = A.ch[i];
        auto cell = [&](Page *pg, u32 j) -> EP { return pg && pg->nsym ? pg->sym[j] : nullptr; }; auto dat = [&](Page *pg, u32 j) -> u8 { return pg ? pg->data[j] : o->fill; };
        u32 lim = std::min<u64>(PS, o->size - (u64)g * PS);
        for (u32 j = 0; j < lim;) { q = o->pages[g]; EP a = cell(q, j), b = cell(r, j); if (a == b && (a || dat(q, j) == dat(r, j))) { j++; continue; }
          u32 n = 1; for (EP e : {a, b}) if (e && e->op == E_EXTRACT && e->aux == 0 && (e->a->w == 16 || e->a->w == 32 || e->a->w == 64)) { u32 m = e->a->w / 8; if (j + m > lim) continue; Page *pg = e == a ? q : r; u32 t = 1; for (; t < m; t++) { EP z = cell(pg, j + t); if (!z || z->op != E_EXTRACT || z->a != e->a || z->aux != 8 * t) break; } if (t == m) { n = std::max(n, m); } }
          auto val = [&](Page *pg) -> EP { EP e = nullptr; EP f = cell(pg, j); if (n > 1 && f && f->op == E_EXTRACT && f->aux == 0 && f->a->w == 8 * n) { u32 t = 1; for (; t < n; t++) { EP z = cell(pg, j + t); if (!z || z->op != E_EXTRACT || z->a != f->a || z->aux != 8 * t) break; } if (t == n) return f->a; } for (u32 t = 0; t < n; t++) { EP z = cell(pg, j + t); if (!z) z = mkConst(dat(pg, j + t), 8); else z = simp8(z); e = e ? mkConcat(z, e) : z; } return e; };
          EP va = val(q), vb = val(r); if (isC(va) && isC(vb)) return false; EP m = mkIte(c, va, vb); if (++total > 64) return false;
          for (u32 t = 0; t < n; t++) { EP z = mkRawExtract(m, 8 * t + 7, 8 * t); if (isC(z)) writeB(o, (u64)g * PS + j + t, z->val, nullptr); else writeB(o, (u64)g * PS + j + t, 0, z); }
          j += n; } } } }
  return true;
}
static bool mergeVal(Val &a, const Val &b, EP c) {
  if (!a.e && !b.e) return a.v == b.v; if (a.e == b.e) return true; bool fp = (a.e && a.e->fp) || (b.e && b.e->fp);
  if (fp) { a = fromE(mkIte(c, toF(a), toF(b))); return true; } unsigned w = a.e ? a.e->w : b.e->w; if (w == 64 && (!a.e || !b.e)) return false; a = fromE(mkIte(c, toE(a, w), toE(b, w))); return true; }
// fr is the frame of the conditional branch at pc; on success the state stands at the join
static bool tryMerge(State &s, u32 pc, EP cond, std::vector<u64> &mt, std::vector<u64> &mf, int &lastEdge) {
  Frame &fr = PROC.fr.back(); auto &site = g_mergeSites[{fr.fn, pc}]; if (site.second > 3 && site.first < site.second) return false; if (g_specDepth >= 3) return false;
  const Inst &in = fr.fn->code[pc]; size_t depth = PROC.fr.size(); if (in.imm < 0 && depth < 2) return false;
  State t[2]; Spec sp[2]; bool ok = true; g_specDepth++;
  for (int i = 0; i < 2 && ok; i++) { t[i].pr.push_back(PROC); t[i].pc = s.pc; t[i].model = i ? mf : mt; t[i].names = s.names; addCons(t[i], i ? mkNot(cond) : cond); sp[i] = {depth, in.imm, 400, -1};
    Frame &f = t[i].pr.back().fr.back(); f.pc = pc; f.regs = fr.regs;
    try { ok = runT<true>(t[i], &sp[i]); } catch (SpecAbort &) { ok = false; } catch (Fault &) { ok = false; } catch (PathKill &) { ok = false; } catch (PathDrop &) { ok = false; } catch (PathDone &) { ok = false; } }
  g_specDepth--;
  if (ok) { Proc &a = t[0].pr.back(), &b = t[1].pr.back();
    if (a.fr.size() != b.fr.size()) ok = false;
    else if (a.fr.size() == depth) { Frame &x = a.fr.back(), &y = b.fr.back(); if (x.pc != y.pc || x.allocas != y.allocas) ok = false; else { // only the join's phis can be live and different
        if (sp[0].lastEdge >= 0) { const Edge &e = x.fn->edges[sp[0].lastEdge]; for (u32 k = 0; ok && k < e.count; k++) { int d = x.fn->phis[e.first + k].dst; ok = mergeVal(x.regs[d], y.regs[d], cond); } } } }
    else { Frame &x = a.fr.back(), &y = b.fr.back(); if (x.pc != y.pc) ok = false; else { int d = fr.retDst; if (d >= 0) ok = mergeVal(x.regs[d], y.regs[d], cond); } }
    if (ok) ok = mergeMem(a.mem, b.mem, cond);
    if (ok) { a.steps = std::max(a.steps, b.steps); PROC = std::move(a); site.first++; g_merges++; lastEdge = sp[0].lastEdge; return true; } }
  g_mergeSites[{s.pr.back().fr.back().fn, pc}].second++; return false;
}
template <bool SPEC> static bool runT(State &s, Spec *sp) { // SPEC: run to the join and return true
  u64 count = 0; std::vector<Val> tmp; std::vector<Val> args;
  Frame *fr; Proc *pr; const Inst *code; Val *R; const Val *K; u32 pc;
  auto reload = [&]() { pr = &s.pr.back(); fr = &pr->fr.back(); code = fr->fn->code.data(); R = fr->regs.data(); K = fr->fn->consts.data(); pc = fr->pc; };
  auto take = [&](u32 ei) { const Edge &e = fr->fn->edges[ei]; if (e.count == 1) { auto &c = fr->fn->phis[e.first]; R[c.dst] = c.src >= 0 ? R[c.src] : K[~c.src]; } else if (e.count) { tmp.resize(e.count); for (u32 i = 0; i < e.count; i++) { int sr = fr->fn->phis[e.first + i].src; tmp[i] = sr >= 0 ? R[sr] : K[~sr]; } for (u32 i = 0; i < e.count; i++) R[fr->fn->phis[e.first + i].dst] = tmp[i]; } pc = e.target; if (SPEC && pr->fr.size() == sp->depth) { sp->lastEdge = (int)ei; if (e.back && sp->join >= 0) throw SpecAbort{}; } };
#define V(i) ((i) >= 0 ? R[i] : K[~(i)])
#define SYNC fr->pc = pc
#define JOINED if (SPEC && (i64)pc == sp->join && pr->fr.size() == sp->depth) { SYNC; return true; }
  for (;;) {
    try {
      reload();
      for (;;) {
        const Inst &in = code[pc]; if (SPEC && sp->budget-- == 0) throw SpecAbort{};
        if ((++count & 0xfff) == 0) { g_instr += 0x1000; pr->steps += 0x1000; if ((count & 0xfffff) == 0 && now() > g_deadline) { SYNC; throw PathDrop{"time limit reached"}; } if (pr->steps > g_stepLimit) throw Fault{124, "step limit (possible endless loop)"}; }
        switch (in.op) {
        case O_BIN: { Val a = V(in.a), b = V(in.b);
          if (!a.e && !b.e) { bool dz = false; u64 x = binC(in.sub, a.v, b.v, in.w, dz); if (dz) throw Fault{136, "division by zero or overflow in " + fr->fn->name}; R[in.dst] = VC(x); }
          else { SYNC; EP x = toE(a, in.w), y = toE(b, in.w); if (in.sub == E_UDIV || in.sub == E_SDIV || in.sub == E_UREM || in.sub == E_SREM) { if (decide(s, mkEq(y, mkConst(0, in.w)))) throw Fault{136, "division by zero in " + fr->fn->name}; if (in.sub == E_SDIV || in.sub == E_SREM) { EP ov = mkAnd1(mkEq(y, mkConst(~0ULL, in.w)), mkEq(x, mkConst(1ULL << (in.w - 1), in.w))); if (decide(s, ov)) throw Fault{136, "division overflow in " + fr->fn->name}; } }
            if (in.sub == E_SHL || in.sub == E_LSHR || in.sub == E_ASHR) if (y->uhi >= in.w && (in.w == 8 || in.w == 16 || in.w == 32 || in.w == 64)) y = mkBin(E_AND, y, mkConst((in.w < 32 ? 32 : in.w) - 1, in.w));
            R[in.dst] = fromE(mkBin((EOp)in.sub, x, y)); }
          pc++; break; }
        case O_ICMP: { Val a = V(in.a), b = V(in.b); if (!a.e && !b.e) R[in.dst] = VC(cmpC(in.sub, a.v, b.v, in.w)); else R[in.dst] = fromE(cmpE(in.sub, toE(a, in.w), toE(b, in.w))); pc++; break; }
        case O_ZEXT: { Val a = V(in.a); R[in.dst] = a.e ? fromE(mkZExt(a.e, in.w)) : a; pc++; break; }
        case O_SEXT: { Val a = V(in.a); R[in.dst] = a.e ? fromE(mkSExt(a.e, in.w)) : VC((u64)sextw(a.v, in.sub) & maskw(in.w)); pc++; break; }
        case O_TRUNC: { Val a = V(in.a); R[in.dst] = a.e ? fromE(mkExtract(a.e, in.w - 1, 0)) : VC(a.v & maskw(in.w)); pc++; break; }
        case O_COPY: R[in.dst] = V(in.a); pc++; break;
        case O_SELECT: { Val c = V(in.a); if (!c.e) R[in.dst] = c.v ? V(in.b) : V(in.c); else { Val x = V(in.b), y = V(in.c); if (in.sub) R[in.dst] = fromE(mkIte(c.e, toF(x), toF(y))); else R[in.dst] = fromE(mkIte(c.e, toE(x, in.w), toE(y, in.w))); } pc++; break; }
        case O_GEP: { Val a = V(in.a); u64 off = in.imm; EP se = nullptr; const GepTerm *g = &fr->fn->geps[in.x]; for (u32 i = 0; i < in.y; i++) { Val x = V(g[i].idx); if (!x.e) off += (u64)sextw(x.v, g[i].w) * (u64)g[i].scale; else { EP t = mkBin(E_MUL, mkSExt(x.e, 64), mkConst(g[i].scale, 64)); se = se ? mkBin(E_ADD, se, t) : t; } }
          if (!a.e && !se) R[in.dst] = VC(a.v + off); else { EP r = mkBin(E_ADD, toE(a, 64), mkConst(off, 64)); if (se) r = mkBin(E_ADD, r, se); R[in.dst] = fromE(r); } pc++; break; }
        case O_LOAD: { Val p = V(in.a); Val v;
          if (!p.e) { u64 off = p.v & 0xffffffffu; Obj *o = pr->mem.get(p.v >> 32); if (o && !o->dead && off + in.x <= o->size && off % PS + in.x <= PS) { Page *pg = o->pages[off / PS]; if (pg && !pg->nsym) { u64 x = 0; memcpy(&x, pg->data + off % PS, in.x); R[in.dst] = VC(in.w < 8 ? x & maskw(in.w) : x); pc++; break; } } }
          SYNC; v = rd(s, p, in.x); if (v.e) { if (in.sub) v = fromE(bitsToF(v.e)); else if (v.e->w > in.w) v = fromE(mkExtract(v.e, in.w - 1, 0)); } else if (in.w < 8) v.v &= maskw(in.w); R[in.dst] = v; pc++; break; }
        case O_STORE: { Val p = V(in.a), v = V(in.b); 
          if (!p.e && !v.e) { u64 off = p.v & 0xffffffffu; u32 id = p.v >> 32; Obj *o = pr->mem.get(id); if (o && !o->dead && !o->ro && off + in.x <= o->size && off % PS + in.x <= PS) { o = pr->mem.own(id); Page *pg = ownPage(o, off / PS); if (!pg->nsym) { memcpy(pg->data + off % PS, &v.v, in.x); pc++; break; } } }
          SYNC; if (v.e && in.sub) v.e = mkFBits(v.e); if (v.e && v.e->w < 8) v.e = mkZExt(v.e, 8); wr(s, p, v, in.x); pc++; break; }
        case O_BR: take(in.x); JOINED break;
        case O_CONDBR: { Val c = V(in.a); bool t; if (!c.e) t = c.v & 1; else { SYNC; 
            if (SPEC && sp->lastEdge == -1 && pr->fr.size() == sp->depth) { t = modelVal(s, c.e); } // the branch being merged
            else { bool v = modelVal(s, c.e); std::vector<u64> m; Res r = solve(s, v ? mkNot(c.e) : c.e, m);
              if (r == SAT) { int le = -1; if (tryMerge(s, pc, c.e, v ? s.model : m, v ? m : s.model, le)) { reload(); if (SPEC && pr->fr.size() == sp->depth && le >= 0) sp->lastEdge = le; JOINED if (SPEC && pr->fr.size() < sp->depth) return true; break; } }
              t = decide(s, c.e); } }
          take(t ? in.x : in.y); JOINED break; }
        case O_SWITCH: { const SwitchInfo &si = fr->fn->switches[in.x]; Val c = V(in.a); u32 e = si.def;
          if (!c.e) { auto it = si.m.find(c.v); if (it != si.m.end()) e = it->second; }
          else { SYNC; u64 mv = modelVal(s, c.e); auto it = si.m.find(mv); // decide per target, grouping the values of one edge target
            u32 tgt = it != si.m.end() ? fr->fn->edges[it->second].target : fr->fn->edges[si.def].target; (void)tgt;
            if (it != si.m.end()) { e = it->second; decide(s, mkEq(c.e, mkConst(mv, in.w))); }
            else { EP any = mkConst(0, 1); for (u64 v : si.vals) any = mkOr1(any, mkEq(c.e, mkConst(v, in.w))); decide(s, any); } }
          take(e); JOINED break; }
        case O_CALL: {
          CallInfo &ci = fr->fn->calls[in.x]; DFn *fn = ci.fn; SYNC;
          if (in.sub) { u64 p = conc(s, V(ci.indirect)); u32 ix = (u32)(p >> 32) - 0x70000000u; if ((p & 0xffffffffu) || ix >= pr->m->fns.size()) throw Fault{139, "call through an invalid function pointer"}; fn = pr->m->fns[ix]; }
          args.clear(); for (size_t i = 0; i < ci.args.size(); i++) args.push_back(V(ci.args[i]));
          if (fn->builtin >= 0) { Val r; 
            if (fn->fast) { if (fastBuiltin(s, fn->builtin, args, r)) { if (in.dst >= 0) { r.v &= maskw(in.w); R[in.dst] = r; } pc++; break; } }
            else { if (SPEC && !specSafe(fn->builtin)) throw SpecAbort{}; size_t np = s.pr.size(); fr->pc = pc; BRes br = builtin(s, fn->builtin, args, ci, r, in.dst);
              if (br == BR_PROC) { if (s.pr.size() > np) s.pr[np - 1].fr.back().pc = pc + 1; reload(); break; }
              R = fr->regs.data(); if (in.dst >= 0) { if (!r.e && in.w < 64) r.v &= maskw(in.w); R[in.dst] = r; } pc++; break; } }
          if (fn->declared) { fprintf(stderr, "symx: call of unmodelled function %s\n", fn->name.c_str()); throw PathDrop{"unmodelled function " + fn->name}; }
          for (size_t i = 0; i < ci.byval.size(); i++) if (ci.byval[i]) { Obj *o = newObj(ci.byval[i], K_HEAP, 0); u64 p = (u64)pr->mem.add(o) << 32; copyMem(s, p, conc(s, args[i]), ci.byval[i]); args[i] = VC(p); }
          fr->pc = pc + 1; pushFrame(s, fn, args, in.dst, &ci.aw); reload(); break; }
        case O_RET: { Val v = in.sub ? V(in.a) : VC(0); int dst = fr->retDst; for (u32 a : fr->allocas) { pr->mem.set(a, nullptr); pr->mem.freeStack.push_back(a); }
          pr->fr.pop_back(); if (pr->fr.empty()) { if (s.pr.size() == 1) { finishPath(s); g_instr += count & 0xfff; return true; } fprintf(stderr, "symx: process returned from its start function\n"); exit(3); }
          fr = &pr->fr.back(); if (dst >= 0) fr->regs[dst] = v; if (SPEC && pr->fr.size() < sp->depth) return true; reload(); break; }
        case O_ALLOCA: { u64 n = V(in.a).e ? (SYNC, conc(s, V(in.a))) : V(in.a).v; Obj *o = newObj(in.imm * n, K_STACK, g_stackFill); u32 id = pr->mem.add(o); fr->allocas.push_back(id); R[in.dst] = VC((u64)id << 32); pc++; break; }
        case O_FBIN: { Val a = V(in.a), b = V(in.b); if (!a.e && !b.e) { double x = asD(a.v), y = asD(b.v), r; switch (in.sub) { case E_FADD: r = x + y; break; case E_FSUB: r = x - y; break; case E_FMUL: r = x * y; break; default: r = x / y; } R[in.dst] = VC(fromD(r)); }
          else { SYNC; EP x = toF(a), y = toF(b); if (in.sub == E_FDIV && y->op == E_FI2D && !isC(y->a)) { if (decide(s, mkEq(y->a, mkConst(0, 64)))) y = toF(VC(fromD(0.0))); } R[in.dst] = fromE(fop((EOp)in.sub, x, y)); } pc++; break; }
        case O_FCMP: { Val a = V(in.a), b = V(in.b); if (!a.e && !b.e) R[in.dst] = VC(fcmpC(in.sub, asD(a.v), asD(b.v))); else R[in.dst] = fromE(fcmpP(in.sub, toF(a), toF(b))); pc++; break; }
        case O_FNEG: { Val a = V(in.a); R[in.dst] = a.e ? fromE(fneg(a.e)) : VC(a.v ^ (1ULL << 63)); pc++; break; }
        case O_FABS: { Val a = V(in.a); if (!a.e) R[in.dst] = VC(a.v & ~(1ULL << 63)); else R[in.dst] = fromE(mkIte(fcmp2(E_SLT, a.e, mkFI2D(mkConst(0, 64))), fneg(a.e), a.e)); pc++; break; }
        case O_FFLOOR: { Val a = V(in.a); R[in.dst] = a.e ? fromE(ffloor(a.e)) : VC(fromD(floor(asD(a.v)))); pc++; break; }
        case O_FCEIL: { Val a = V(in.a); R[in.dst] = a.e ? fromE(fceil(a.e)) : VC(fromD(ceil(asD(a.v)))); pc++; break; }
        case O_FTRUNC: { Val a = V(in.a); R[in.dst] = a.e ? fromE(mkFI2D(ftrunc64(a.e))) : VC(fromD(trunc(asD(a.v)))); pc++; break; }
        case O_SI2F: { Val a = V(in.a); R[in.dst] = a.e ? fromE(mkFI2D(mkSExt(a.e, 64))) : VC(fromD((double)sextw(a.v, in.sub))); pc++; break; }
        case O_UI2F: { Val a = V(in.a); if (a.e && in.sub == 64) throw PathDrop{"symbolic 64-bit unsigned to real"}; R[in.dst] = a.e ? fromE(mkFI2D(mkZExt(a.e, 64))) : VC(fromD((double)a.v)); pc++; break; }
        case O_F2SI: { Val a = V(in.a); R[in.dst] = a.e ? fromE(f2si(a.e, in.w)) : VC(cvtF2SI(asD(a.v), in.w)); pc++; break; }
        case O_F2UI: { Val a = V(in.a); if (in.w == 64) throw PathDrop{"real to unsigned 64-bit"}; if (a.e) { EP t = f2si(a.e, in.w < 32 ? 32 : 64); R[in.dst] = fromE(mkExtract(t, in.w - 1, 0)); } else R[in.dst] = VC(cvtF2SI(asD(a.v), in.w < 32 ? 32 : 64) & maskw(in.w)); pc++; break; }
        case O_BITCAST_FI: { Val a = V(in.a); R[in.dst] = a.e ? fromE(mkFBits(a.e)) : a; pc++; break; }
        case O_BITCAST_IF: { Val a = V(in.a); R[in.dst] = a.e ? fromE(bitsToF(a.e)) : a; pc++; break; }
        case O_MEMCPY: { SYNC; u64 d = conc(s, V(in.a)), x = conc(s, V(in.b)), n = conc(s, V(in.c)); copyMem(s, d, x, n); pc++; break; }
        case O_MEMSET: { SYNC; u64 d = conc(s, V(in.a)), n = conc(s, V(in.c)); setMem(s, d, V(in.b), n); pc++; break; }
        case O_VASTART: { SYNC; u64 p = conc(s, V(in.a)); Obj *o = newObj(8 * fr->varargs.size() + 8, K_STACK, 0); u32 id = pr->mem.add(o); fr->allocas.push_back(id); for (size_t i = 0; i < fr->varargs.size(); i++) { Val v = fr->varargs[i]; if (v.e) { if (fr->vafp[i]) v.e = mkFBits(v.e); else if (v.e->w < 64) v.e = mkZExt(v.e, 64); } writeC(s, ((u64)id << 32) + 8 * i, v, 8); }
          writeC(s, p, VC(48), 4); writeC(s, p + 4, VC(176), 4); writeC(s, p + 8, VC((u64)id << 32), 8); writeC(s, p + 16, VC(0), 8); pc++; break; }
        case O_VACOPY: { SYNC; copyMem(s, conc(s, V(in.a)), conc(s, V(in.b)), 24); pc++; break; }
        case O_MINMAX: { Val a = V(in.a), b = V(in.b); bool sg = in.sub >= 2, mx = in.sub & 1; if (!a.e && !b.e) { bool lt = sg ? sextw(a.v, in.w) < sextw(b.v, in.w) : a.v < b.v; R[in.dst] = VC(lt != mx ? a.v : b.v); } else { EP x = toE(a, in.w), y = toE(b, in.w), lt = mkBin(sg ? E_SLT : E_ULT, x, y); R[in.dst] = fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)); } pc++; break; }
        case O_ABS: { Val a = V(in.a); if (!a.e) { i64 x = sextw(a.v, in.w); R[in.dst] = VC((u64)(x < 0 ? -x : x) & maskw(in.w)); } else R[in.dst] = fromE(mkIte(mkBin(E_SLT, a.e, mkConst(0, in.w)), mkBin(E_SUB, mkConst(0, in.w), a.e), a.e)); pc++; break; }
        case O_BSWAP: { Val a = V(in.a); EP x = toE(a, in.w), r = nullptr; for (unsigned i = 0; i < in.w / 8; i++) { EP b = mkExtract(x, 8 * i + 7, 8 * i); r = r ? mkConcat(r, b) : b; } R[in.dst] = fromE(r); pc++; break; }
        case O_CTPOP: { Val a = V(in.a); if (!a.e) R[in.dst] = VC(__builtin_popcountll(a.v)); else { EP r = mkConst(0, in.w); for (unsigned i = 0; i < in.w; i++) r = mkBin(E_ADD, r, mkZExt(mkExtract(a.e, i, i), in.w)); R[in.dst] = fromE(r); } pc++; break; }
        case O_CTLZ: { SYNC; u64 x = conc(s, V(in.a)); u64 r = in.w; if (in.sub) { for (unsigned i = 0; i < in.w; i++) if ((x >> i) & 1) { r = i; break; } } else for (int i = in.w - 1; i >= 0; i--) if ((x >> i) & 1) { r = in.w - 1 - i; break; } R[in.dst] = VC(r); pc++; break; }
        case O_FSH: { SYNC; EP a = toE(V(in.a), in.w), b = toE(V(in.b), in.w); u64 k = conc(s, V(in.c)) % in.w; EP r; if (in.sub) r = k ? mkConcat(mkExtract(a, k - 1, 0), mkExtract(b, in.w - 1, k)) : b; else r = k ? mkConcat(mkExtract(a, in.w - 1 - k, 0), mkExtract(b, in.w - 1, in.w - k)) : a; R[in.dst] = fromE(r); pc++; break; }
        case O_SATSUB: { EP a = toE(V(in.a), in.w), b = toE(V(in.b), in.w); R[in.dst] = fromE(mkIte(mkBin(E_ULT, a, b), mkConst(0, in.w), mkBin(E_SUB, a, b))); pc++; break; }
        case O_UNREACHABLE: throw Fault{132, "unreachable code executed in " + fr->fn->name};
        case O_NOP: pc++; break;
        default: throw PathDrop{"unsupported instruction in " + fr->fn->name};
        }
      }
    } catch (Fault &f) {
      if (SPEC) throw;
      if (s.pr.size() < 2) { fprintf(stderr, "symx: the scenario itself failed: %s\n", f.why.c_str()); g_dropped["scenario fault: " + f.why]++; return true; }
      g_faults++; g_faultWhy[f.why]++; if (g_trace) printf("[fault %d: %s]\n", f.code, f.why.c_str()); endProc(s, f.code);
    } catch (PathKill &) { if (SPEC) throw; g_killed++; for (auto &r : s.reached) g_reach[r]++; return true; }
    catch (PathDone &) { if (SPEC) throw; g_instr += count & 0xfff; return true; }
    catch (PathDrop &d) { if (SPEC) throw; g_dropped[d.why]++; return true; }
  }
}

static void runState(State &s) { runT<false>(s, nullptr); }
