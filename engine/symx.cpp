// The interpreter: symbolic execution of bitcode, virtual files, processes, scenario API.
#include "symx.h"
#include "solver.h"
#include <chrono>
#include <cmath>
#include <pthread.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
u8 g_heapFill = 0xbe, g_stackFill = 0xbe;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
Mod *loadModule(const std::string &name, const std::string &path); void initModule(Mod *m); void decodeFn(Mod *m, DFn *d);

// ---------------------------------------------------------------- memory
static void pageDec(Page *p) { if (p && --p->rc == 0) { delete[] p->sym; delete p; } }
static void objDec(Obj *o) { if (o && --o->rc == 0) { for (u32 i = 0; i < o->np; i++) pageDec(o->pages[i]); delete[] o->pages; delete o; } }
static void chunkDec(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) objDec(o); delete c; } }
void MemTable::drop() { for (auto c : ch) chunkDec(c); ch.clear(); }
MemTable &MemTable::operator=(const MemTable &o) { if (this != &o) { for (auto c : o.ch) if (c) c->rc++; drop(); ch = o.ch; n = o.n; freeStack = o.freeStack; heapLive = o.heapLive; } return *this; }
Obj *newObj(u64 size, u8 kind, u8 fill) { Obj *o = new Obj; o->rc = 1; o->size = size; o->np = (size + PS - 1) / PS; o->kind = kind; o->fill = fill; o->dead = false; o->ro = false; o->pages = new Page *[o->np ? o->np : 1](); return o; }
Page *ownPage(Obj *o, u32 i) {
  Page *p = o->pages[i]; if (p && p->rc == 1) return p;
  Page *q = new Page; q->rc = 1;
  if (!p) { memset(q->data, o->fill, PS); q->nsym = 0; q->sym = nullptr; }
  else { memcpy(q->data, p->data, PS); q->nsym = p->nsym; q->sym = nullptr; if (p->nsym) { q->sym = new EP[PS]; memcpy(q->sym, p->sym, PS * sizeof(EP)); } pageDec(p); }
  return o->pages[i] = q;
}
static Chunk *ownChunk(Chunk *&c) { if (!c) { c = new Chunk; memset(c, 0, sizeof *c); c->rc = 1; return c; } if (c->rc == 1) return c; Chunk *d = new Chunk; d->rc = 1; memcpy(d->o, c->o, sizeof c->o); for (auto o : d->o) if (o) o->rc++; chunkDec(c); return c = d; }
Obj *MemTable::own(u32 id) {
  Chunk *c = ownChunk(ch[id >> 6]); Obj *o = c->o[id & 63]; if (o->rc == 1) return o;
  Obj *q = new Obj(*o); q->rc = 1; q->pages = new Page *[o->np ? o->np : 1]; for (u32 i = 0; i < o->np; i++) { q->pages[i] = o->pages[i]; if (q->pages[i]) q->pages[i]->rc++; } objDec(o); return c->o[id & 63] = q;
}
u32 MemTable::add(Obj *o) { u32 id; if (o->kind == K_STACK && !freeStack.empty()) { id = freeStack.back(); freeStack.pop_back(); } else id = n++; set(id, o); return id; }
void MemTable::set(u32 id, Obj *o) { if ((id >> 6) >= ch.size()) ch.resize((id >> 6) + 1, nullptr); Chunk *c = ownChunk(ch[id >> 6]); objDec(c->o[id & 63]); c->o[id & 63] = o; }

// ---------------------------------------------------------------- globals of a run
struct Fault { int code; std::string why; };        // the guest process ends abnormally
struct PathDrop { std::string why; };               // the path cannot be explored (incomplete)
struct PathKill {}; struct PathDone {};                                 // infeasible / assumed away
static std::map<std::string, Mod *> g_mods; static std::map<std::string, std::string> g_modPath;
static std::vector<State *> g_work;
static std::map<std::string, i64> g_params;
static u64 g_paths, g_forks, g_instr, g_killed, g_asserts, g_assertSym, g_symBytes, g_runs, g_faults; static std::map<std::string, u64> g_dropped;
static std::map<std::string, u64> g_reach; static std::map<std::string, u64> g_faultWhy;
static double g_deadline; static u64 g_maxPaths = 1000000, g_stepLimit = 400000000ULL; static std::string g_outDir = "."; static int g_maxViol = 8, g_samples = 3; static bool g_trace = false; static u64 g_memLimitPages;
struct Viol { std::string msg, file; }; static std::vector<Viol> g_viols; static std::map<std::string, int> g_violCount;
static int g_sampleNo;
static std::map<std::pair<std::string,u32>, u64> g_forkSites;
static bool g_forkProf = false;

// ---------------------------------------------------------------- path condition
static EP toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static Val fromE(EP e) { if (e->op == E_CONST) return VC(e->val); if (e->op == E_FCONST) return VC(e->val); if (e->op == E_FI2D && isC(e->a)) return VC(fromD((double)(i64)e->a->val)); return Val{0, e}; }
static u64 modelVal(State &s, EP e) { if (s.model.size() < g_vars.size()) { size_t o = s.model.size(); s.model.resize(g_vars.size()); for (size_t i = o; i < g_vars.size(); i++) s.model[i] = g_vars[i].lo; } return evalE(e, s.model); }
static void addCons(State &s, EP c) {
  if (isC(c)) return;
  if (c->op == E_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
  for (Cons *k = s.pc.get(); k; k = k->prev.get()) if (k->e == c) return;
  auto n = std::make_shared<Cons>(); n->e = c; n->prev = s.pc; n->n = s.pc ? s.pc->n + 1 : 1; s.pc = n;
}
static int g_specDepth; struct SpecAbort {};
static void forkOff(State &s, EP cond, std::vector<u64> &model) {
  if (g_specDepth) throw SpecAbort{};
  State *t = new State(s); t->model = model; addCons(*t, cond); t->forks++; g_forks++; g_work.push_back(t);
  if (g_forkProf && !s.pr.empty() && !s.pr.back().fr.empty()) { auto &fr = s.pr.back().fr; std::string k; for (size_t i = fr.size(), n = 0; i-- > 0 && n < 4; n++) { k += fr[i].fn->name; if (n < 3 && i) k += "@" + std::to_string(fr[i].pc) + " < "; } g_forkSites[{k, fr.back().pc}]++; }
}
// Decide a 1-bit condition on this path; forks the other side when it is feasible.
static bool decide(State &s, EP cond) {
  if (isC(cond)) return cond->val;
  bool v = modelVal(s, cond); EP c = v ? cond : mkNot(cond), n = v ? mkNot(cond) : cond; std::vector<u64> m;
  Res r = solve(s, n, m);
  if (r == UNKNOWN) { g_dropped["solver gave no answer for a branch"]++; addCons(s, c); return v; }
  if (r == SAT) { forkOff(s, n, m); addCons(s, c); }
  return v;
}
static bool mustBe(State &s, EP cond) { // true if cond holds for every input on this path
  if (isC(cond)) return cond->val; if (!modelVal(s, cond)) return false; std::vector<u64> m; Res r = solve(s, mkNot(cond), m); if (r == UNKNOWN) { g_dropped["solver gave no answer"]++; return false; } return r == UNSAT;
}
static u64 concretise(State &s, EP e) { // fixes e to one value on this path, other values on forked paths
  if (isC(e)) return e->val; u64 v = modelVal(s, e); EP eq = mkEq(e, mkConst(v, e->w)); std::vector<u64> m; Res r = solve(s, mkNot(eq), m);
  if (r == UNKNOWN) g_dropped["solver gave no answer for an enumeration"]++;
  if (r == SAT) { forkOff(s, mkNot(eq), m); addCons(s, eq); }
  return v;
}

// ---------------------------------------------------------------- doubles
static const i64 P53 = 1LL << 53, P52 = 1LL << 52;
static EP normF(EP f) { if (f->op == E_FCONST) { double d = asD(f->val); if (d == 0 && std::signbit(d)) return f; for (int k = 0; k <= 12; k++) { double x = std::ldexp(d, k); if (std::fabs(x) > 9e15) break; if (x == std::floor(x)) { EP c = mkConst((u64)(i64)x, 64); return k ? mkFNode(E_FHALF, c, nullptr, nullptr, k) : mkFI2D(c); } } } return f; }
static EP toF(const Val &v) { if (v.e) return v.e; return normF(mkFNode(E_FCONST, nullptr, nullptr, nullptr, v.v)); }
static bool dy(EP f, EP &a, unsigned &k) { if (f->op == E_FI2D) { a = f->a; k = 0; return true; } if (f->op == E_FHALF) { a = f->a; k = f->aux; return true; } return false; }
static bool fits(i128 lo, i128 hi, i64 lim) { return lo >= -(i128)lim && hi <= lim; }
static EP mkDy(EP a, unsigned k) { while (k && trailingZeros(a) > 0) { a = mkBin(E_ASHR, a, mkConst(1, 64)); k--; } return k ? mkFNode(E_FHALF, a, nullptr, nullptr, k) : mkFI2D(a); }
static bool scaled(EP a, unsigned up, EP &out) { i128 f = (i128)1 << up; if (!fits((i128)a->slo * f, (i128)a->shi * f, P53)) return false; out = mkBin(E_MUL, a, mkConst((u64)f, 64)); return true; }
static EP fop(EOp op, EP x, EP y);
static EP fquot(EP a, EP b) { // both exact 64-bit integers, b != 0 on this path
  if (isC(b) && !isC(a) && (i64)b->val > 1) { u64 x = sumDivisor(a), y = b->val; while (y) { u64 r = x % y; x = y; y = r; } if (x > 1) return fquot(sumQuotient(a, x), mkConst(b->val / x, 64)); }
  if (isC(b)) { i64 bv = (i64)b->val; if (bv == 1) return mkFI2D(a); if (bv > 0 && (bv & (bv - 1)) == 0) { unsigned k = __builtin_ctzll(bv); if (k <= 12) return mkDy(a, k); } }
  if (isC(a) && a->val == 0) return mkFI2D(a);
  return mkFNode(E_FQUOT, a, b);
}
static EP fop(EOp op, EP x, EP y) {
  if (x->op == E_FITE && x->depth < 40) return mkIte(x->a, fop(op, x->b, y), fop(op, x->c, y));
  if (y->op == E_FITE && y->depth < 40) return mkIte(y->a, fop(op, x, y->b), fop(op, x, y->c));
  EP a, b; unsigned k, m;
  if (dy(x, a, k) && dy(y, b, m)) {
    if (op == E_FADD || op == E_FSUB) { unsigned K = std::max(k, m); EP p, q; if (scaled(a, K - k, p) && scaled(b, K - m, q)) { bool ok = op == E_FADD ? fits((i128)p->slo + q->slo, (i128)p->shi + q->shi, P53) : fits((i128)p->slo - q->shi, (i128)p->shi - q->slo, P53); if (ok) return mkDy(mkBin(op == E_FADD ? E_ADD : E_SUB, p, q), K); } }
    else if (op == E_FMUL) { i128 v[4] = {(i128)a->slo * b->slo, (i128)a->slo * b->shi, (i128)a->shi * b->slo, (i128)a->shi * b->shi}; if (fits(*std::min_element(v, v + 4), *std::max_element(v, v + 4), P53) && k + m <= 24) return mkDy(mkBin(E_MUL, a, b), k + m); }
    else if (op == E_FDIV) { EP p = a, q = b; bool ok = true; if (k > m) ok = scaled(b, k - m, q); else if (m > k) ok = scaled(a, m - k, p);
      if (ok && fits(p->slo, p->shi, P52) && fits(q->slo, q->shi, P52) && !(isC(q) && q->val == 0)) return fquot(p, q); }
  }
  return mkFNode(op, x, y);
}
static EP sgnMulCmp(EOp cmp, EP a, EP b, EP c) { // a/b cmp c (exact rationals), b != 0
  EP cb = mkBin(E_MUL, c, b), pos = mkBin(E_SLT, mkConst(0, 64), b);
  if (cmp == E_EQ) return mkEq(a, cb);
  return mkIte(pos, mkBin(cmp, a, cb), mkBin(cmp, cb, a));
}
static EP fcmp2(EOp cmp, EP x, EP y, bool swapped = false) { // cmp in EQ, SLT, SLE
  if (x->op == E_FITE && x->depth < 60) return mkIte(x->a, fcmp2(cmp, x->b, y), fcmp2(cmp, x->c, y));
  if (y->op == E_FITE && y->depth < 60) return mkIte(y->a, fcmp2(cmp, x, y->b), fcmp2(cmp, x, y->c));
  EP a, b; unsigned k, m;
  if (dy(x, a, k) && dy(y, b, m)) { unsigned K = std::max(k, m); EP p = mkBin(E_MUL, a, mkConst(1ULL << (K - k), 64)), q = mkBin(E_MUL, b, mkConst(1ULL << (K - m), 64));
    if (fits((i128)a->slo << (K - k), (i128)a->shi << (K - k), INT64_MAX) && fits((i128)b->slo << (K - m), (i128)b->shi << (K - m), INT64_MAX)) return mkBin(cmp, p, q); }
  auto small = [&](EP q, EP c, unsigned k2) { i128 f = (i128)1 << k2; i128 v[4] = {(i128)q->b->slo * c->slo, (i128)q->b->slo * c->shi, (i128)q->b->shi * c->slo, (i128)q->b->shi * c->shi};
    return fits((i128)q->a->slo * f, (i128)q->a->shi * f, P52) && fits(*std::min_element(v, v + 4), *std::max_element(v, v + 4), INT64_MAX); };
  if (x->op == E_FQUOT && dy(y, b, m) && small(x, b, m)) return sgnMulCmp(cmp, mkBin(E_MUL, x->a, mkConst(1ULL << m, 64)), x->b, b);
  if (y->op == E_FQUOT && dy(x, a, k) && small(y, a, k)) { EP aa = mkBin(E_MUL, y->a, mkConst(1ULL << k, 64)); // a cmp y
    if (cmp == E_EQ) return sgnMulCmp(E_EQ, aa, y->b, a); return mkNot(sgnMulCmp(cmp == E_SLT ? E_SLE : E_SLT, aa, y->b, a)); }
  return mkFNode(cmp == E_EQ ? E_FEQ : cmp == E_SLT ? E_FLT : E_FLE, x, y);
}
static EP fneg(EP x) { if (x->op == E_FITE) return mkIte(x->a, fneg(x->b), fneg(x->c)); EP a; unsigned k; if (dy(x, a, k)) return mkDy(mkBin(E_SUB, mkConst(0, 64), a), k); if (x->op == E_FQUOT) return mkFNode(E_FQUOT, mkBin(E_SUB, mkConst(0, 64), x->a), x->b); return mkFNode(E_FMUL, mkFNode(E_FCONST, nullptr, nullptr, nullptr, fromD(-1.0)), x); }
static EP ftrunc64(EP x) { // truncation to a 64-bit integer
  if (x->op == E_FITE) return mkIte(x->a, ftrunc64(x->b), ftrunc64(x->c));
  if (x->op == E_FI2D) return x->a; if (x->op == E_FHALF) return mkBin(E_SDIV, x->a, mkConst(1ULL << x->aux, 64)); if (x->op == E_FQUOT) return mkBin(E_SDIV, x->a, x->b);
  if (x->op == E_FCONST) { std::vector<u64> m; EP t = mkFNode(E_F2SI, x, nullptr); return mkConst(evalE(t, m), 64); }
  return mkFNode(E_F2SI, x, nullptr);
}
static EP ffloor(EP x) {
  if (x->op == E_FITE) return mkIte(x->a, ffloor(x->b), ffloor(x->c)); if (x->op == E_FI2D) return x;
  if (x->op == E_FHALF) return mkFI2D(mkBin(E_ASHR, x->a, mkConst(x->aux, 64)));
  if (x->op == E_FQUOT) { EP q = mkBin(E_SDIV, x->a, x->b), r = mkBin(E_SUB, x->a, mkBin(E_MUL, q, x->b)), z = mkConst(0, 64); EP adj = mkAnd1(mkNot(mkEq(r, z)), mkBin(E_XOR, mkBin(E_SLT, r, z), mkBin(E_SLT, x->b, z))); return mkFI2D(mkBin(E_SUB, q, mkZExt(adj, 64))); }
  return mkFNode(E_FFLOOR, x, nullptr);
}
static EP fceil(EP x) { EP a; unsigned k; if (x->op == E_FITE || x->op == E_FQUOT || dy(x, a, k)) return fneg(ffloor(fneg(x))); return mkFNode(E_FCEIL, x, nullptr); }
static EP f2si(EP x, unsigned w) {
  EP t = ftrunc64(x); if (w == 64) return t; unsigned cw = w < 32 ? 32 : w; i128 mx = ((i128)1 << (cw - 1)) - 1, mn = -((i128)1 << (cw - 1)); EP r = mkExtract(t, cw - 1, 0);
  if (!(t->slo >= mn && t->shi <= mx)) r = mkIte(mkAnd1(mkBin(E_SLE, mkConst((u64)(i64)mn, 64), t), mkBin(E_SLE, t, mkConst((u64)(i64)mx, 64))), r, mkConst(1ULL << (cw - 1), cw));
  return w < cw ? mkExtract(r, w - 1, 0) : r;
}
static EP bitsToF(EP e) { if (isC(e)) return normF(mkFNode(E_FCONST, nullptr, nullptr, nullptr, e->val)); if (e->op == E_FBITS) return e->a; if (e->op == E_ITE) return mkIte(e->a, bitsToF(e->b), bitsToF(e->c)); throw PathDrop{"symbolic bytes reinterpreted as a real number"}; }
static double concretiseF(State &s, EP f) { std::vector<EP> st{f}; std::unordered_set<EP> seen; // fix every integer leaf
  while (!st.empty()) { EP e = st.back(); st.pop_back(); if (!e || !seen.insert(e).second) continue; if (!e->fp) { concretise(s, e); continue; } st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); }
  return asD(modelVal(s, f)); }

// ---------------------------------------------------------------- guest memory access
#define PROC (s.pr.back())
static inline Obj *liveObj(State &s, u64 p, u64 n, u64 &off) { u32 id = p >> 32; off = p & 0xffffffffu; Obj *o = PROC.mem.get(id); if (!o || o->dead || off + n > o->size) return nullptr; return o; }
[[noreturn]] static void badMem(State &s, u64 p, u64 n, bool wr) {
  char b[256]; u32 id = p >> 32; Obj *o = PROC.mem.get(id); const char *k = id == 0 ? "null pointer" : !o ? "invalid pointer" : o->dead ? "use after free" : o->kind == K_GLOBAL ? "out of bounds of a global" : o->kind == K_STACK ? "out of bounds of a local" : "out of bounds of a heap block";
  snprintf(b, sizeof b, "%s of %llu bytes at offset %lld (%s, size %lld) in %s", wr ? "write" : "read", (unsigned long long)n, (long long)(p & 0xffffffffu), k, o ? (long long)o->size : -1LL, PROC.fr.empty() ? "?" : PROC.fr.back().fn->name.c_str()); throw Fault{139, b}; }
static inline EP simp8(EP e) { return e && e->op == E_EXTRACT ? mkExtract(e->a, e->aux + e->w - 1, e->aux) : e; }
static Val readC(State &s, u64 p, unsigned n) { // concrete address
  u64 off; Obj *o = liveObj(s, p, n, off); if (!o) badMem(s, p, n, false);
  u32 pi = off / PS, po = off % PS;
  if (po + n <= PS) { Page *pg = o->pages[pi]; if (!pg) { u64 v = 0; memset(&v, o->fill, n); return VC(v); }
    if (!pg->nsym) { u64 v = 0; memcpy(&v, pg->data + po, n); return VC(v); }
    bool any = false; for (unsigned i = 0; i < n; i++) if (pg->sym[po + i]) any = true; if (!any) { u64 v = 0; memcpy(&v, pg->data + po, n); return VC(v); }
    if (n == 1) return fromE(simp8(pg->sym[po]));
    EP e = pg->sym[po]; if (e && e->op == E_EXTRACT && e->aux == 0 && e->a->w == 8 * n) { unsigned i = 1; for (; i < n; i++) { EP x = pg->sym[po + i]; if (!x || x->op != E_EXTRACT || x->a != e->a || x->aux != 8 * i) break; } if (i == n) return fromE(e->a); } }
  EP e = nullptr; bool any = false; u64 v = 0;
  for (unsigned i = 0; i < n; i++) { Page *pg = o->pages[(off + i) / PS]; u32 q = (off + i) % PS; EP b = pg && pg->nsym ? pg->sym[q] : nullptr; u8 c = pg ? pg->data[q] : o->fill; if (b) any = true; else { v |= (u64)c << (8 * i); b = mkConst(c, 8); } e = e ? mkConcat(b, e) : b; }
  if (!any) return VC(v); return fromE(e);
}
static void writeB(Obj *o, u64 off, u8 c, EP e) { Page *p = ownPage(o, off / PS); u32 q = off % PS; if (p->nsym && p->sym[q]) { p->sym[q] = nullptr; if (--p->nsym == 0) { delete[] p->sym; p->sym = nullptr; } }
  if (e) { if (!p->sym) p->sym = new EP[PS](); p->sym[q] = e; p->nsym++; } else p->data[q] = c; }
static void writeC(State &s, u64 p, const Val &v, unsigned n) {
  u64 off; Obj *o = liveObj(s, p, n, off); if (!o || o->ro) badMem(s, p, n, true); o = PROC.mem.own(p >> 32);
  u32 pi = off / PS, po = off % PS;
  if (!v.e && po + n <= PS) { Page *pg = ownPage(o, pi); if (!pg->nsym) { memcpy(pg->data + po, &v.v, n); return; } }
  for (unsigned i = 0; i < n; i++) { if (v.e) { EP b = mkRawExtract(v.e, std::min<unsigned>(8 * i + 7, v.e->w - 1), 8 * i); if (b->w < 8) b = mkZExt(b, 8); if (isC(b)) writeB(o, off + i, b->val, nullptr); else writeB(o, off + i, 0, b); } else writeB(o, off + i, (u8)(v.v >> (8 * i)), nullptr); }
}
// symbolic address: fixes the object, returns the offset expression checked to be in bounds
static u32 resolvePtr(State &s, EP e, unsigned n, EP &off, u64 &lo, u64 &hi) {
  u64 mv = modelVal(s, e); u32 id = mv >> 32; EP base = mkConst((u64)id << 32, 64); off = mkBin(E_SUB, e, base);
  Obj *o = PROC.mem.get(id);
  if (!o || o->dead || (mv & 0xffffffffu) + n > o->size) { // this value faults: is it the only possibility?
    // separate values that stay inside some other object
    if (e->ulo >> 32 != e->uhi >> 32) { EP same = mkEq(mkExtract(e, 63, 32), mkConst(id, 32)); decide(s, same); }
    if (o && !o->dead && o->size >= n) { EP inb = mkBin(E_ULE, off, mkConst(o->size - n, 64)); decide(s, inb); }
    badMem(s, mv, n, false);
  }
  EP inb = mkBin(E_ULE, off, mkConst(o->size - n, 64)); if (!decide(s, inb)) badMem(s, modelVal(s, e), n, false);
  lo = std::max<u64>(0, off->slo > 0 ? off->slo : 0); hi = std::min<u64>(o->size - n, off->uhi);
  if (hi - lo > 64 && !(off->uhi <= o->size - n && hi - lo <= 4096)) { static bool notes = getenv("SYMX_NOTES") != nullptr; if (notes) { auto &fr = PROC.fr; fprintf(stderr, "symx: symbolic address into an object of %llu bytes in", (unsigned long long)o->size); for (size_t i = fr.size(), k = 0; i-- > 0 && k < 4; k++) fprintf(stderr, " %s@%u", fr[i].fn->name.c_str(), fr[i].pc); fprintf(stderr, "\n"); } // tighten with the path condition
    u64 mo = mv & 0xffffffffu; u64 a = mo, b = hi; // max
    while (a < b) { u64 mid = a + (b - a) / 2; if (mustBe(s, mkBin(E_ULE, off, mkConst(mid, 64)))) b = mid; else a = mid + 1; } hi = b;
    a = lo; b = mo; while (a < b) { u64 mid = a + (b - a + 1) / 2; if (mustBe(s, mkBin(E_ULE, mkConst(mid, 64), off))) a = mid; else b = mid - 1; } lo = a;
  }
  return id;
}
static EP iteTree(EP off, std::vector<std::pair<u64, EP>> &r, size_t i, size_t j) { // runs [i,j): value of run k applies from offset r[k].first
  if (j - i == 1) return r[i].second; size_t m = (i + j) / 2; return mkIte(mkBin(E_ULT, off, mkConst(r[m].first, 64)), iteTree(off, r, i, m), iteTree(off, r, m, j)); }
static Val readS(State &s, EP e, unsigned n) {
  EP off; u64 lo, hi; u32 id = resolvePtr(s, e, n, off, lo, hi); u64 stride = 1ULL << std::min(trailingZeros(off), 12u); if (lo % stride) lo += stride - lo % stride;
  if ((hi - lo) / stride > 70000) { u64 p = concretise(s, e); return readC(s, p, n); }
  std::vector<std::pair<u64, EP>> runs;
  for (u64 o = lo; o <= hi; o += stride) { Val v = readC(s, ((u64)id << 32) + o, n); EP x = toE(v, n * 8); if (runs.empty() || runs.back().second != x) runs.push_back({o, x}); if (runs.size() > 1024) { u64 p = concretise(s, e); return readC(s, p, n); } }
  if (lo == 0 && runs.size() >= 16 && runs.size() * stride == hi - lo + stride && !(runs.size() & (runs.size() - 1)) && (hi & (hi + stride)) == 0) { // a linear table over bits (a CRC table): the entry is an exclusive or of one constant per index bit
    bool lin = isC(runs[0].second) && runs[0].second->val == 0; for (size_t i = 1; lin && i < runs.size(); i++) lin = isC(runs[i].second) && ((i & (i - 1)) == 0 || runs[i].second->val == (runs[i & (i - 1)].second->val ^ runs[i & (0 - i)].second->val));
    if (lin) { EP r = mkConst(0, n * 8); unsigned sb = __builtin_ctzll(stride); for (size_t k = 0; (1u << k) < runs.size(); k++) r = mkBin(E_XOR, r, mkBin(E_AND, mkSExt(mkExtract(off, sb + k, sb + k), n * 8), runs[1u << k].second)); return fromE(r); }
  }
  return fromE(iteTree(off, runs, 0, runs.size()));
}
static void writeS(State &s, EP e, const Val &v, unsigned n) {
  EP off; u64 lo, hi; u32 id = resolvePtr(s, e, n, off, lo, hi); u64 stride = 1ULL << std::min(trailingZeros(off), 12u); if (lo % stride) lo += stride - lo % stride;
  if ((hi - lo) / stride > 64 || stride < n) { u64 p = concretise(s, e); writeC(s, p, v, n); return; }
  for (u64 o = lo; o <= hi; o += stride) { u64 p = ((u64)id << 32) + o; Val old = readC(s, p, n); EP nv = mkIte(mkEq(off, mkConst(o, 64)), toE(v, n * 8), toE(old, n * 8)); writeC(s, p, fromE(nv), n); }
}
static inline Val rd(State &s, const Val &p, unsigned n) { return p.e ? readS(s, p.e, n) : readC(s, p.v, n); }
static inline void wr(State &s, const Val &p, const Val &v, unsigned n) { if (p.e) writeS(s, p.e, v, n); else writeC(s, p.v, v, n); }
static u64 conc(State &s, const Val &v) { return v.e ? concretise(s, v.e) : v.v; }
static std::string cstr(State &s, u64 p, bool approx = false) { std::string r; for (;; p++) { Val v = readC(s, p, 1); u8 c; if (v.e) c = approx ? '?' : (u8)concretise(s, v.e); else c = v.v; if (!c) return r; r += (char)c; if (r.size() > 65536) throw PathDrop{"string too long"}; } }
static void copyMem(State &s, u64 d, u64 src, u64 n) {
  if (!n) return; u64 so, dof; Obj *a = liveObj(s, src, n, so); if (!a) badMem(s, src, n, false); Obj *b = liveObj(s, d, n, dof); if (!b || b->ro) badMem(s, d, n, true);
  std::vector<u8> t(n); std::vector<EP> ts; 
  for (u64 i = 0; i < n;) { u32 q = (so + i) % PS; u64 k = std::min<u64>(n - i, PS - q); Page *p = a->pages[(so + i) / PS]; if (!p) memset(&t[i], a->fill, k); else { memcpy(&t[i], p->data + q, k); if (p->nsym) { if (ts.empty()) ts.resize(n); memcpy(&ts[i], p->sym + q, k * sizeof(EP)); } } i += k; }
  b = PROC.mem.own(d >> 32);
  for (u64 i = 0; i < n;) { u32 q = (dof + i) % PS; u64 k = std::min<u64>(n - i, PS - q); Page *p = ownPage(b, (dof + i) / PS); if (!p->nsym && ts.empty()) memcpy(p->data + q, &t[i], k); else for (u64 j = 0; j < k; j++) writeB(b, dof + i + j, t[i + j], ts.empty() ? nullptr : ts[i + j]); i += k; }
}
static void setMem(State &s, u64 d, const Val &v, u64 n) { if (!n) return; u64 off; Obj *b = liveObj(s, d, n, off); if (!b || b->ro) badMem(s, d, n, true); b = PROC.mem.own(d >> 32);
  for (u64 i = 0; i < n;) { u32 q = (off + i) % PS; u64 k = std::min<u64>(n - i, PS - q); Page *p = ownPage(b, (off + i) / PS); if (!v.e && !p->nsym) memset(p->data + q, (u8)v.v, k); else for (u64 j = 0; j < k; j++) writeB(b, off + i + j, (u8)v.v, v.e); i += k; } }

// ---------------------------------------------------------------- processes
static u64 fnPtr(DFn *f) { return (u64)(0x70000000u + f->id) << 32; }
static void ensure(Mod *m, DFn *f) { if (!f->decoded) decodeFn(m, f); }
static void pushFrame(State &s, DFn *f, const std::vector<Val> &args, int retDst, const std::vector<u8> *aw = nullptr) {
  ensure(PROC.m, f); f->executed = true; if (PROC.fr.size() > 4000) throw Fault{139, "stack overflow (deep recursion) in " + f->name};
  PROC.fr.emplace_back(); Frame &r = PROC.fr.back(); r.fn = f; r.pc = 0; r.retDst = retDst; r.regs.assign(f->nregs, VC(0)); for (u32 i = 0; i < f->nargs && i < args.size(); i++) r.regs[i] = args[i];
  for (size_t i = f->nargs; i < args.size(); i++) { r.varargs.push_back(args[i]); r.vafp.push_back(aw && (*aw)[i] == 128); }
}
static Mod *getMod(const std::string &n) { auto it = g_mods.find(n); if (it != g_mods.end()) return it->second; auto p = g_modPath.find(n); if (p == g_modPath.end()) { fprintf(stderr, "symx: no module named %s\n", n.c_str()); exit(3); } Mod *m = loadModule(n, p->second); initModule(m); g_mods[n] = m; return m; }
static void startProc(State &s, const std::string &mod, const std::vector<std::string> &argv, const std::string &out, int dst) {
  Mod *m = getMod(mod); s.pr.emplace_back(); Proc &p = PROC; p.m = m; p.mem = m->init; p.outName = out; p.runDst = dst; p.fh.resize(3);
  for (int i = 1; i < 3; i++) { p.fh[i].open = p.fh[i].wr = p.fh[i].app = true; p.fh[i].name = i == 1 ? "@stdout" : "@stderr"; p.fh[i].f = std::make_shared<FileData>(); }
  Obj *av = newObj(8 * (argv.size() + 1), K_GLOBAL, 0); u32 avid = p.mem.add(av);
  for (size_t i = 0; i < argv.size(); i++) { Obj *o = newObj(argv[i].size() + 1, K_GLOBAL, 0); u32 id = p.mem.add(o); for (size_t j = 0; j < argv[i].size(); j++) ownPage(o, j / PS)->data[j % PS] = argv[i][j]; writeC(s, ((u64)avid << 32) + 8 * i, VC((u64)id << 32), 8); }
  DFn *st = m->byName.count("__vf_start") ? m->byName["__vf_start"] : nullptr; if (!st) { fprintf(stderr, "symx: module %s has no __vf_start\n", mod.c_str()); exit(3); }
  pushFrame(s, st, {VC(argv.size()), VC((u64)avid << 32)}, -1);
}
static std::string normName(std::string n) { while (n.compare(0, 2, "./") == 0) n = n.substr(2); return n; }
static void endProc(State &s, int code) { // the scenario process itself must not end here
  Proc p = std::move(PROC); s.pr.pop_back(); FileP out = p.fh[1].f; auto &err = p.fh[2].f; if (!err->d.empty()) { auto n = std::make_shared<FileData>(*out); if (n->sym() || err->sym()) { n->s.resize(n->d.size()); n->s.insert(n->s.end(), err->s.begin(), err->s.end()); } n->d.insert(n->d.end(), err->d.begin(), err->d.end()); if (n->sym()) n->s.resize(n->d.size()); out = n; }
  s.fs["@out"] = out; if (g_trace) { printf("[%s exit %d]\n%.*s\n", p.m->name.c_str(), code, (int)out->d.size(), (const char *)out->d.data()); }
  s.log.push_back({0, p.m->name, (u64)(u32)code, nullptr, nullptr}); g_runs++;
  Frame &f = PROC.fr.back(); if (p.runDst >= 0) f.regs[p.runDst] = VC((u32)code);
}

// ---------------------------------------------------------------- files
static Handle &handle(State &s, u64 h) { u32 i = (u32)(h >> 32) - 0x60000000u; if (i >= PROC.fh.size() || !PROC.fh[i].open) throw Fault{139, "operation on a closed or invalid file"}; return PROC.fh[i]; }
static FileData &ownFile(State &s, Handle &h) { // unique copy, keeping every name and handle that refers to it in step
  FileP old = h.f; long inFs = s.fs.count(h.name) && s.fs[h.name] == old; long refs = inFs; for (auto &pp : s.pr) for (auto &x : pp.fh) if (x.open && x.f == old) refs++;
  if (old.use_count() - 1 > refs) { FileP n = std::make_shared<FileData>(*old); if (inFs) s.fs[h.name] = n; for (auto &pp : s.pr) for (auto &x : pp.fh) if (x.open && x.f == old) x.f = n; return *n; }
  return *old;
}
static void putCell(State &s, FileData &f, u64 pos, u8 c, EP e) { if (pos >= f.d.size()) { f.d.resize(pos + 1); if (f.sym()) f.s.resize(pos + 1); } f.d[pos] = c; if (e && !f.sym()) f.s.resize(f.d.size()); if (f.sym()) f.s[pos] = e; }
static EP cellAt(FileData &f, u64 p) { return f.sym() ? f.s[p] : nullptr; }
// turn the pending decimal number at pos into digit characters
static void expandTok(State &s, Handle &h, u64 pos) {
  EP v = h.f->s[pos]; bool neg = decide(s, mkBin(E_SLT, v, mkConst(0, 32))); EP a = mkZExt(neg ? mkBin(E_SUB, mkConst(0, 32), v) : v, 64); int nd = 1; u64 lim = 10; while (nd < 10 && !decide(s, mkBin(E_ULT, a, mkConst(lim, 64)))) { nd++; lim *= 10; }
  std::vector<EP> ds; u64 div = 1; for (int i = 1; i < nd; i++) div *= 10; EP a32 = mkExtract(a, 31, 0);
  for (int i = 0; i < nd; i++) { EP d = mkBin(E_UREM, mkBin(E_UDIV, a32, mkConst(div, 32)), mkConst(10, 32)); ds.push_back(mkExtract(mkBin(E_ADD, d, mkConst('0', 32)), 7, 0)); div /= 10; }
  FileData &f = ownFile(s, h); std::vector<u8> nb; std::vector<EP> ns; if (neg) { nb.push_back('-'); ns.push_back(nullptr); } for (EP d : ds) { nb.push_back(isC(d) ? d->val : 0); ns.push_back(isC(d) ? nullptr : d); }
  f.d.erase(f.d.begin() + pos); f.s.erase(f.s.begin() + pos); f.d.insert(f.d.begin() + pos, nb.begin(), nb.end()); f.s.insert(f.s.begin() + pos, ns.begin(), ns.end());
}
static void expandAll(State &s, Handle &h, u64 from, u64 to) { for (u64 i = from; i < to && i < h.f->d.size(); i++) { EP e = cellAt(*h.f, i); if (e && e->w == 32) expandTok(s, h, i); } }

// ---------------------------------------------------------------- reporting
static std::string jesc(const std::string &x) { std::string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static u64 fnv(const std::vector<u8> &d) { u64 h = 1469598103934665603ULL; for (u8 c : d) { h ^= c; h *= 1099511628211ULL; } return h; }
static std::vector<u8> evalFile(FileData &f, const std::vector<u64> &m) { std::vector<u8> r; for (size_t i = 0; i < f.d.size(); i++) { EP e = cellAt(f, i); if (!e) r.push_back(f.d[i]); else if (e->w == 8) r.push_back((u8)evalE(e, m)); else { char b[16]; snprintf(b, 16, "%d", (int)(u32)evalE(e, m)); for (char *p = b; *p; p++) r.push_back(*p); } } return r; }
static std::string witness(State &s, const std::vector<u64> &model, const std::string &msg, bool events) {
  std::ostringstream o; o << "# " << msg << "\n"; for (auto &p : g_params) o << "param " << p.first << " " << p.second << "\n";
  for (auto &i : s.inputs) o << "input " << i.first << " " << (i64)sextw(evalE(i.second, model), 32) << "\n";
  if (events) for (auto &e : s.log) { if (e.kind == 0) o << "event run " << e.name << " " << (int)e.v << "\n"; else if (e.kind == 1) { if (!e.f) o << "event get " << e.name << " -1 0\n"; else { auto d = evalFile(*e.f, model); char b[64]; snprintf(b, sizeof b, "%zu %016llx", d.size(), (unsigned long long)fnv(d)); o << "event get " << e.name << " " << b << "\n"; } } else o << "event val " << e.name << " " << (i64)(int)(e.e ? evalE(e.e, model) : e.v) << "\n"; }
  return o.str();
}
static void dumpFiles(State &s, const std::vector<u64> &m, const std::string &base) { (void)s; (void)m; (void)base; }
static void violation(State &s, const std::vector<u64> &model, const std::string &msg) {
  int n = g_violCount[msg]++; if (n >= 2 || (int)g_viols.size() >= g_maxViol) return;
  std::string f = g_outDir + "/cex" + std::to_string(g_viols.size()) + ".txt"; std::ofstream(f) << witness(s, model, msg, false); dumpFiles(s, model, f); g_viols.push_back({msg, f});
}
static void finishPath(State &s) {
  g_paths++; for (auto &r : s.reached) g_reach[r]++; modelVal(s, mkConst(0, 1));
  if (g_sampleNo < g_samples || (g_paths & (g_paths - 1)) == 0) { if (g_sampleNo < g_samples * 3) { std::string f = g_outDir + "/sample" + std::to_string(g_sampleNo++) + ".txt"; std::ofstream(f) << witness(s, s.model, "sample path", true); } }
}
#include "builtins.inc"
#include "run.inc"

// ---------------------------------------------------------------- driver
static std::string g_scen, g_json; static bool g_help;
static void *mainThread(void *) {
  double t0 = now(); solverInit();
  State *s0 = new State; startProc(*s0, "scenario", {"scenario"}, "", -1); g_work.push_back(s0); bool timeout = false;
  while (!g_work.empty()) {
    if (now() > g_deadline) { timeout = true; break; } if (g_paths >= g_maxPaths) { g_dropped["path limit reached"]++; break; } if ((int)g_viols.size() >= g_maxViol) { g_dropped["stopped after the maximum number of violations"]++; break; }
    State *s = g_work.back(); g_work.pop_back(); runState(*s); delete s;
  }
  if (timeout) g_dropped["time limit reached"]++;
  std::ofstream o(g_json); o << "{\n\"paths\": " << g_paths << ", \"killed\": " << g_killed << ", \"forks\": " << g_forks << ", \"instructions\": " << g_instr << ", \"asserts\": " << g_asserts << ", \"asserts_symbolic\": " << g_assertSym << ", \"symbolic_bytes\": " << g_symBytes << ", \"runs\": " << g_runs << ", \"faults\": " << g_faults << ", \"pending\": " << g_work.size() << ",\n";
  o << "\"queries\": " << g_ss.queries << ", \"z3\": " << g_ss.z3calls << ", \"sat\": " << g_ss.sat << ", \"unsat\": " << g_ss.unsat << ", \"unknown\": " << g_ss.unknown << ", \"cached\": " << g_ss.cached << ", \"reused\": " << g_ss.reused << ", \"solver_s\": " << g_ss.time << ", \"max_query_s\": " << g_ss.maxTime << ", \"wall_s\": " << now() - t0 << ",\n\"dropped\": {";
  bool first = true; for (auto &d : g_dropped) { o << (first ? "" : ", ") << "\"" << jesc(d.first) << "\": " << d.second; first = false; } o << "},\n\"reach\": {"; first = true; for (auto &d : g_reach) { o << (first ? "" : ", ") << "\"" << jesc(d.first) << "\": " << d.second; first = false; }
  o << "},\n\"fault_kinds\": {"; first = true; for (auto &d : g_faultWhy) { o << (first ? "" : ", ") << "\"" << jesc(d.first) << "\": " << d.second; first = false; }
  o << "},\n\"violations\": ["; first = true; for (auto &v : g_viols) { o << (first ? "" : ",\n") << "{\"msg\": \"" << jesc(v.msg) << "\", \"file\": \"" << jesc(v.file) << "\", \"count\": " << g_violCount[v.msg] << "}"; first = false; }
  o << "],\n\"functions\": {"; first = true; for (auto &m : g_mods) { if (m.first == "scenario") continue; o << (first ? "" : ",\n") << "\"" << m.first << "\": ["; first = false; bool f2 = true; for (auto f : m.second->fns) if (f->executed) { o << (f2 ? "" : ", ") << "\"" << jesc(f->name) << "\""; f2 = false; } o << "]"; }
  o << "}\n}\n"; o.close();
  if (g_forkProf) { std::vector<std::pair<u64, std::string>> v; for (auto &x : g_forkSites) v.push_back({x.second, x.first.first + ":" + std::to_string(x.first.second)}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; i++) printf("fork %llu at %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
  return nullptr;
}
int main(int argc, char **argv) {
  double limit = 3600; g_json = "symx.json";
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { if (i + 1 >= argc) exit(3); return std::string(argv[++i]); };
    if (a == "-mod") { std::string m = nx(); auto e = m.find('='); g_modPath[m.substr(0, e)] = m.substr(e + 1); } else if (a == "-out") g_outDir = nx(); else if (a == "-json") g_json = nx(); else if (a == "-time") limit = atof(nx().c_str()); else if (a == "-maxpaths") g_maxPaths = atoll(nx().c_str());
    else if (a == "-param") { std::string m = nx(); auto e = m.find('='); g_params[m.substr(0, e)] = atoll(m.c_str() + e + 1); } else if (a == "-trace") g_trace = true; else if (a == "-samples") g_samples = atoi(nx().c_str()); else if (a == "-maxviol") g_maxViol = atoi(nx().c_str()); else if (a == "-qtimeout") g_queryTimeoutMs = atoi(nx().c_str()); else if (a == "-steps") g_stepLimit = atoll(nx().c_str()); else if (a == "-forkprof") g_forkProf = true; else { fprintf(stderr, "symx: unknown option %s\n", a.c_str()); return 3; } }
  g_deadline = now() + limit; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2048UL << 20); pthread_t th; if (pthread_create(&th, &at, mainThread, nullptr)) { perror("pthread_create"); return 3; } pthread_join(th, nullptr); fflush(stdout); _exit(0);
}
