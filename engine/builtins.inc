// Functions the engine provides itself (part of symx.cpp).
#define BUILTINS X(malloc) X(calloc) X(realloc) X(free) X(memcpy) X(memmove) X(memset) X(strlen) X(strcmp) X(strcpy) X(memcmp) \
  X(__vf_exit) X(__vf_open) X(__vf_close) X(__vf_write) X(__vf_read) X(__vf_getc) X(__vf_taketok) X(__vf_puttok) X(__vf_seek) X(__vf_tell) X(__vf_eof) X(__vf_remove) X(__vf_is_sym) X(__vf_fmtd) X(__vf_fault) X(__vf_strtod) \
  X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(atan2) X(sinh) X(cosh) X(tanh) X(log) X(log10) X(pow) X(sqrt) X(ceil) X(floor) X(fabs) X(fmod) X(exp) X(round) \
  X(vf_range) X(vf_u8) X(vf_choice) X(vf_assume) X(vf_assert) X(vf_reach) X(vf_put) X(vf_get) X(vf_run) X(vf_param) X(vf_note) X(vf_eqmem) X(vf_kill) X(vf_concrete) X(vf_remove) X(vf_exists) X(vf_fill) X(vf_native) X(vf_dump) X(vf_same)
enum BId {
#define X(n) B_##n,
  BUILTINS
#undef X
  B_COUNT };
static const char *bnames[] = {
#define X(n) #n,
  BUILTINS
#undef X
};
int builtinId(const std::string &n) { for (int i = 0; i < B_COUNT; i++) if (n == bnames[i]) return i; return -1; }
bool isFastBuiltin(const std::string &n) { return n == "strlen" || n == "strcmp" || n == "strcpy" || n == "memcmp"; }

struct Cur { State &s; u64 p; Obj *o; u64 off; Cur(State &st, u64 a) : s(st), p(a) { o = PROC.mem.get(a >> 32); off = a & 0xffffffffu; if (o && o->dead) o = nullptr; }
  int next() { if (!o || off >= o->size) return -2; Page *pg = o->pages[off / PS]; u32 q = off % PS; off++; if (!pg) return o->fill; if (pg->nsym && pg->sym[q]) return -1; return pg->data[q]; } };
// returns true if handled concretely
static bool fastBuiltin(State &s, int id, std::vector<Val> &a, Val &r) {
  for (auto &x : a) if (x.e) return false;
  switch (id) {
  case B_strlen: { Cur c(s, a[0].v); u64 n = 0; for (;;) { int x = c.next(); if (x < 0) return false; if (!x) { r = VC(n); return true; } n++; } }
  case B_strcmp: { Cur c(s, a[0].v), d(s, a[1].v); for (;;) { int x = c.next(), y = d.next(); if (x < 0 || y < 0) return false; if (x != y || !x) { r = VC((u32)(x < y ? -1 : x > y)); return true; } } }
  case B_strcpy: { Cur c(s, a[1].v); u64 n = 0; for (;;) { int x = c.next(); if (x < 0) return false; n++; if (!x) break; } copyMem(s, a[0].v, a[1].v, n); r = a[0]; return true; }
  case B_memcmp: { Cur c(s, a[0].v), d(s, a[1].v); for (u64 i = 0; i < a[2].v; i++) { int x = c.next(), y = d.next(); if (x < 0 || y < 0) return false; if (x != y) { r = VC((u32)(x < y ? -1 : 1)); return true; } } r = VC(0); return true; }
  }
  return false;
}
static u64 allocHeap(State &s, u64 n, u8 fill) { Obj *o = newObj(n, K_HEAP, fill); u32 id = PROC.mem.add(o); PROC.mem.heapLive += n; return (u64)id << 32; }
static EP freshVar(State &s, const std::string &name, i64 lo, i64 hi) {
  u32 seq = s.names[name]++; u64 span = (u64)(hi - lo); EP e; unsigned w = 1;
  if (lo >= 0) { while (maskw(w) < (u64)hi) w++; e = mkZExt(mkVar(name, seq, w, lo, hi), 32); }
  else if (hi == -lo - 1 && (hi & (hi + 1)) == 0) { while ((i64)(maskw(w) >> 1) < hi) w++; e = mkSExt(mkVar(name, seq, w, 0, maskw(w)), 32); }
  else { while (w < 64 && maskw(w) < span) w++; EP v = mkVar(name + "@" + std::to_string(lo), seq, w, 0, span); e = mkZExt(v, 64); e = mkBin(E_ADD, e, mkConst((u64)lo, 64)); e = mkExtract(e, 31, 0); }
  s.inputs.push_back({name + " " + std::to_string(seq), e}); return e; }
static FileP memFile(State &s, u64 p, u64 n) { auto f = std::make_shared<FileData>(); f->d.resize(n); for (u64 i = 0; i < n; i++) { Val v = readC(s, p + i, 1); if (v.e) { if (!f->sym()) f->s.resize(n); f->s[i] = v.e; } else f->d[i] = v.v; } return f; }
static EP cond1(const Val &v, unsigned w) { if (!v.e) return mkConst(v.v != 0, 1); if (v.e->w == 1) return v.e; return mkNot(mkEq(v.e, mkConst(0, w))); }
static EP mathF(State &s, int id, std::vector<Val> &a) {
  EP x = toF(a[0]);
  if (id == B_floor) return ffloor(x); if (id == B_ceil) return fceil(x);
  if (id == B_fabs) return mkIte(fcmp2(E_SLT, x, mkFI2D(mkConst(0, 64))), fneg(x), x);
  double p = concretiseF(s, x), q = a.size() > 1 ? concretiseF(s, toF(a[1])) : 0, r = 0;
  switch (id) { case B_sin: r = sin(p); break; case B_cos: r = cos(p); break; case B_tan: r = tan(p); break; case B_asin: r = asin(p); break; case B_acos: r = acos(p); break; case B_atan: r = atan(p); break; case B_atan2: r = atan2(p, q); break; case B_sinh: r = sinh(p); break; case B_cosh: r = cosh(p); break; case B_tanh: r = tanh(p); break; case B_log: r = log(p); break; case B_log10: r = log10(p); break; case B_pow: r = pow(p, q); break; case B_sqrt: r = sqrt(p); break; case B_fmod: r = fmod(p, q); break; case B_exp: r = exp(p); break; case B_round: r = round(p); break; }
  return normF(mkFNode(E_FCONST, nullptr, nullptr, nullptr, fromD(r)));
}
enum BRes { BR_NEXT, BR_PROC }; // BR_PROC: the current process changed (started or ended)
static BRes builtin(State &s, int id, std::vector<Val> &a, CallInfo &ci, Val &r, int dst) {
  r = VC(0); auto C = [&](size_t i) { return conc(s, a[i]); };
  switch (id) {
  case B_malloc: { u64 n = C(0); r = n > (1u << 30) ? VC(0) : VC(allocHeap(s, n, g_heapFill)); break; }
  case B_calloc: { u64 n = C(0), m = C(1); r = (n && m > (1u << 30) / n) ? VC(0) : VC(allocHeap(s, n * m, 0)); break; }
  case B_realloc: { u64 p = C(0), n = C(1); if (n > (1u << 30)) { r = VC(0); break; } if (!p) { r = VC(allocHeap(s, n, g_heapFill)); break; } u64 off; Obj *o = liveObj(s, p, 0, off); if (!o || off || o->kind != K_HEAP) throw Fault{139, "realloc of an invalid pointer"}; u64 os = o->size; u64 q = allocHeap(s, n, g_heapFill); copyMem(s, q, p, std::min(os, n)); PROC.mem.own(p >> 32)->dead = true; PROC.mem.heapLive -= os; r = VC(q); break; }
  case B_free: { u64 p = C(0); if (!p) break; u64 off; Obj *o = liveObj(s, p, 0, off); if (!o || off || o->kind != K_HEAP) throw Fault{139, "free of an invalid pointer (double free)"}; PROC.mem.heapLive -= o->size; Obj *q = PROC.mem.own(p >> 32); q->dead = true; for (u32 i = 0; i < q->np; i++) { pageDec(q->pages[i]); q->pages[i] = nullptr; } break; }
  case B_memcpy: case B_memmove: { u64 d = C(0), x = C(1), n = C(2); copyMem(s, d, x, n); r = VC(d); break; }
  case B_memset: { u64 d = C(0), n = C(2); Val v = a[1]; if (v.e) v = fromE(mkExtract(v.e, 7, 0)); setMem(s, d, v, n); r = VC(d); break; }
  case B___vf_exit: { int c = (int)C(0); if (s.pr.size() < 2) { if (c) { fprintf(stderr, "symx: scenario exited with %d\n", c); exit(3); } finishPath(s); throw PathDone{}; } endProc(s, c); return BR_PROC; }
  case B___vf_fault: throw Fault{(int)C(0), "runtime fault: " + cstr(s, C(1), true)};
  case B___vf_open: {
    std::string n = normName(cstr(s, C(0))), m = cstr(s, C(1)); Handle h; h.name = n; h.open = true; bool plus = m.find('+') != std::string::npos;
    if (m[0] == 'r') { auto it = s.fs.find(n); if (it == s.fs.end()) { r = VC(0); break; } h.f = it->second; h.rd = true; h.wr = plus; }
    else if (m[0] == 'w') { if (n.empty() || n.find("/") != std::string::npos && n.compare(0, 5, "/tmp/") != 0 && !s.fs.count("@dirs")) { if (n.empty()) { r = VC(0); break; } } h.f = std::make_shared<FileData>(); s.fs[n] = h.f; h.wr = true; h.rd = plus; }
    else { if (!s.fs.count(n)) s.fs[n] = std::make_shared<FileData>(); h.f = s.fs[n]; h.wr = h.app = true; h.rd = plus; h.pos = h.f->d.size(); }
    PROC.fh.push_back(h); r = VC((u64)(0x60000000u + PROC.fh.size() - 1) << 32); break; }
  case B___vf_close: { Handle &h = handle(s, C(0)); h.open = false; h.f.reset(); break; }
  case B___vf_write: { u64 p = C(1), n = C(2); Handle &h = handle(s, C(0)); if (!h.wr) { r = VC(0); break; } u64 off; Obj *o = n ? liveObj(s, p, n, off) : nullptr; if (n && !o) badMem(s, p, n, false); if (!n) break; FileData &f = ownFile(s, h); if (h.app) h.pos = f.d.size();
    if (h.pos > f.d.size()) { f.d.resize(h.pos); if (f.sym()) f.s.resize(h.pos); }
    if (h.pos < f.d.size()) for (u64 i = h.pos; i < std::min<u64>(h.pos + n, f.d.size()); i++) { EP e = cellAt(f, i); if (e && e->w == 32) throw PathDrop{"overwriting a pending number"}; }
    for (u64 i = 0; i < n; i++) { Page *pg = o->pages[(off + i) / PS]; u32 q = (off + i) % PS; putCell(s, f, h.pos++, pg ? pg->data[q] : o->fill, pg && pg->nsym ? simp8(pg->sym[q]) : nullptr); } r = VC(n); break; }
  case B___vf_read: { u64 h0 = C(0), p = C(1), n = C(2); { Handle &h = handle(s, h0); if (!h.rd) break; expandAll(s, h, h.pos, h.pos + n); } Handle &h = handle(s, h0); u64 k = h.pos < h.f->d.size() ? std::min<u64>(n, h.f->d.size() - h.pos) : 0; if (k < n) h.eof = true; if (!k) break; u64 off; Obj *o = liveObj(s, p, k, off); if (!o) badMem(s, p, k, true); o = PROC.mem.own(p >> 32); for (u64 i = 0; i < k; i++) { EP e = cellAt(*h.f, h.pos); writeB(o, off + i, h.f->d[h.pos], e); h.pos++; } r = VC(k); break; }
  case B___vf_getc: { u64 h0 = C(0); { Handle &h = handle(s, h0); if (!h.rd) { r = VC(0xffffffffu); break; } expandAll(s, h, h.pos, h.pos + 1); } Handle &h = handle(s, h0); if (h.pos >= h.f->d.size()) { h.eof = true; r = VC(0xffffffffu); break; } EP e = cellAt(*h.f, h.pos); r = e ? fromE(mkZExt(e, 32)) : VC(h.f->d[h.pos]); h.pos++; break; }
  case B___vf_taketok: { Handle &h = handle(s, C(0)); if (!h.rd || h.pos >= h.f->d.size()) break; EP e = cellAt(*h.f, h.pos); if (!e || e->w != 32) break; h.pos++; wr(s, a[1], fromE(e), 4); r = VC(1); break; }
  case B___vf_puttok: { Handle &h = handle(s, C(0)); if (!h.wr) break; FileData &f = ownFile(s, h); if (h.app) h.pos = f.d.size(); if (h.pos < f.d.size()) throw PathDrop{"a symbolic number overwrites file contents"}; putCell(s, f, h.pos++, 0, toE(a[1], 32)); break; }
  case B___vf_seek: { u64 h0 = C(0); i64 o = (i64)sextw(C(1), 64); u64 wh = C(2); { Handle &h = handle(s, h0); if (wh == 2 && !(h.rd && h.wr)) expandAll(s, h, 0, h.f->d.size()); } Handle &h = handle(s, h0); i64 b = wh == 0 ? 0 : wh == 1 ? (i64)h.pos : (i64)h.f->d.size(); if (b + o < 0) { r = VC(0xffffffffu); break; } h.pos = b + o; h.eof = false; break; }
  case B___vf_tell: { Handle &h = handle(s, C(0)); r = VC(h.pos); break; }
  case B___vf_eof: { Handle &h = handle(s, C(0)); r = VC(h.eof); break; }
  case B___vf_remove: { std::string n = normName(cstr(s, C(0))); if (!s.fs.count(n)) r = VC(0xffffffffu); else s.fs.erase(n); break; }
  case B___vf_is_sym: r = VC(a[0].e != nullptr); break;
  case B___vf_fmtd: { u64 p = C(0), n = C(1); std::string f = cstr(s, C(2)); char b[512]; if (a[3].e) snprintf(b, sizeof b, "?"); else snprintf(b, sizeof b, f.c_str(), asD(a[3].v)); size_t l = strlen(b); if (l >= n) l = n - 1; for (size_t i = 0; i < l; i++) writeC(s, p + i, VC((u8)b[i]), 1); writeC(s, p + l, VC(0), 1); r = VC(l); break; }
  case B___vf_strtod: { r = VC(fromD(strtod(cstr(s, C(0)).c_str(), nullptr))); break; }
  case B_sin: case B_cos: case B_tan: case B_asin: case B_acos: case B_atan: case B_atan2: case B_sinh: case B_cosh: case B_tanh: case B_log: case B_log10: case B_pow: case B_sqrt: case B_ceil: case B_floor: case B_fabs: case B_fmod: case B_exp: case B_round: r = fromE(mathF(s, id, a)); break;
  // ---- scenario API
  case B_vf_range: case B_vf_u8: { std::string n = cstr(s, C(0)); i64 lo = 0, hi = 255; if (id == B_vf_range) { lo = (int)C(1); hi = (int)C(2); } r = lo == hi ? VC((u32)lo) : fromE(freshVar(s, n, lo, hi)); if (lo == hi) s.inputs.push_back({n + " " + std::to_string(s.names[n]++), mkConst((u32)lo, 32)}); break; }
  case B_vf_choice: { std::string n = cstr(s, C(0)); u32 k = C(1); if (k <= 1) { s.inputs.push_back({n + " " + std::to_string(s.names[n]++), mkConst(0, 32)}); break; }
    // enumerate through the solver: the forked state re-executes this call, so undo the naming first
    u32 seq = s.names[n]; unsigned w = 1; while (maskw(w) < k - 1) w++; EP v = mkVar(n + "@c", seq, w, 0, k - 1); u64 x = concretise(s, v); s.names[n]++; s.inputs.push_back({n + " " + std::to_string(seq), mkConst(x, 32)}); r = VC(x); break; }
  case B_vf_concrete: r = VC((u32)C(0)); break;
  case B_vf_assume: { EP c = cond1(a[0], 32); if (isC(c)) { if (!c->val) throw PathKill{}; break; } std::vector<u64> m; if (modelVal(s, c)) { addCons(s, c); break; } Res q = solve(s, c, m); if (q == UNSAT) throw PathKill{}; if (q == UNKNOWN) throw PathDrop{"solver gave no answer for an assumption"}; s.model = m; addCons(s, c); break; }
  case B_vf_assert: { EP c = cond1(a[0], 32); g_asserts++; std::string msg = cstr(s, C(1)); if (isC(c)) { if (!c->val) { modelVal(s, c); violation(s, s.model, msg); throw PathKill{}; } break; } g_assertSym++;
    std::vector<u64> m; Res q; if (!modelVal(s, c)) { q = SAT; m = s.model; } else q = solve(s, mkNot(c), m);
    if (q == UNKNOWN) throw PathDrop{"solver gave no answer for an assertion: " + msg};
    if (q == SAT) { violation(s, m, msg); std::vector<u64> m2; Res k = solve(s, c, m2); if (k != SAT) throw PathKill{}; s.model = m2; addCons(s, c); } break; }
  case B_vf_reach: s.reached.insert(cstr(s, C(0))); break;
  case B_vf_put: { std::string n = normName(cstr(s, C(0))); s.fs[n] = memFile(s, C(1), (u32)C(2)); break; }
  case B_vf_get: { std::string n = normName(cstr(s, C(0))); u64 p = C(1), cap = (u32)C(2); auto it = s.fs.find(n); if (it == s.fs.end()) { s.log.push_back({1, n, 0, nullptr, nullptr}); r = VC(0xffffffffu); break; }
    { Handle h; h.name = n; h.f = it->second; h.open = true; bool any = false; if (h.f->sym()) for (EP e : h.f->s) if (e && e->w == 32) any = true; if (any) { // numbers still pending
        s.fs[n] = h.f = std::make_shared<FileData>(*h.f); PROC.fh.push_back(h); struct Pop { State &s; ~Pop() { PROC.fh.pop_back(); } } pop{s}; expandAll(s, PROC.fh.back(), 0, ~0ULL >> 1); } }
    FileP f = s.fs[n]; u64 k = std::min<u64>(cap, f->d.size()); if (k) { u64 off; Obj *o = liveObj(s, p, k, off); if (!o) badMem(s, p, k, true); o = PROC.mem.own(p >> 32); for (u64 i = 0; i < k; i++) writeB(o, off + i, f->d[i], cellAt(*f, i)); }
    if (n != "@out") s.log.push_back({1, n, 0, nullptr, f}); r = VC(f->d.size()); break; }
  case B_vf_run: { std::string m = cstr(s, C(0)); std::vector<std::string> av{m}; for (size_t i = 1; i < a.size(); i++) { u64 p = C(i); if (!p) break; av.push_back(cstr(s, p)); } startProc(s, m, av, "", dst); return BR_PROC; }
  case B_vf_param: { std::string n = cstr(s, C(0)); auto it = g_params.find(n); r = VC((u32)(it == g_params.end() ? (i64)C(1) : it->second)); break; }
  case B_vf_note: { std::string n = cstr(s, C(0)); s.log.push_back({2, n, a[1].e ? 0 : a[1].v, a[1].e, nullptr}); break; }
  case B_vf_eqmem: { u64 p = C(0), q = C(1), n = (u32)C(2); EP e = mkConst(1, 1); for (u64 i = 0; i < n; i++) { Val x = readC(s, p + i, 1), y = readC(s, q + i, 1); if (x.e || y.e) g_symBytes++; e = mkAnd1(e, mkEq(toE(x, 8), toE(y, 8))); if (isC(e) && !e->val) break; } r = fromE(mkZExt(e, 32)); break; }
  case B_vf_same: { std::string x = normName(cstr(s, C(0))), y = normName(cstr(s, C(1))); auto i = s.fs.find(x), j = s.fs.find(y); if (i == s.fs.end() || j == s.fs.end()) { r = VC((i == s.fs.end()) == (j == s.fs.end())); break; } FileData &f = *i->second, &g = *j->second; if (f.d.size() != g.d.size()) break; EP e = mkConst(1, 1); bool odd = false; for (size_t k = 0; k < f.d.size() && !(isC(e) && !e->val); k++) { EP p = cellAt(f, k), q = cellAt(g, k); if ((p && p->w == 32) || (q && q->w == 32)) { if (p != q) odd = true; continue; } e = mkAnd1(e, mkEq(p ? p : mkConst(f.d[k], 8), q ? q : mkConst(g.d[k], 8))); } if (odd) throw PathDrop{"comparing pending numbers"}; r = fromE(mkZExt(e, 32)); break; }
  case B_vf_kill: throw PathKill{};
  case B_vf_remove: { s.fs.erase(normName(cstr(s, C(0)))); break; }
  case B_vf_exists: { r = VC(s.fs.count(normName(cstr(s, C(0))))); break; }
  case B_vf_fill: { g_heapFill = (u8)C(0); break; }
  case B_vf_native: r = VC(0); break;
  case B_vf_dump: { std::string n = cstr(s, C(0)); printf("dump %s:", n.c_str()); if (a[1].e) printf(" %s model=%lld\n", exprStr(a[1].e, 30).c_str(), (long long)(i64)sextw(modelVal(s, a[1].e), 32)); else printf(" %lld\n", (long long)(int)a[1].v); break; }
  default: fprintf(stderr, "symx: builtin %d not handled\n", id); exit(3);
  }
  return BR_NEXT;
}
