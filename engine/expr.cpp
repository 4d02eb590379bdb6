#include <map>
#include "expr.h"
#include <cmath>
std::vector<VarInfo> g_vars;
u32 g_evalEpoch = 1;
static u32 s_nextId = 1;

struct KeyHash { size_t operator()(EP e) const {
  u64 h = e->op * 0x9E3779B97F4A7C15ULL; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); };
  mix(e->w); mix(e->aux); mix(e->val); mix((u64)e->a); mix((u64)e->b); mix((u64)e->c); return h; } };
struct KeyEq { bool operator()(EP x, EP y) const { return x->op == y->op && x->w == y->w && x->aux == y->aux && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c && x->fp == y->fp; } };
static std::unordered_set<EP, KeyHash, KeyEq> s_table;

static void setFull(EP e) { unsigned w = e->w; e->ulo = 0; e->uhi = maskw(w); e->slo = w >= 64 ? INT64_MIN : -(1LL << (w - 1)); e->shi = w >= 64 ? INT64_MAX : (1LL << (w - 1)) - 1; }
static i128 SMIN(unsigned w) { return -((i128)1 << (w - 1)); }
static i128 SMAX(unsigned w) { return ((i128)1 << (w - 1)) - 1; }
static void uI(EP e, u128 lo, u128 hi) { if (hi <= maskw(e->w)) { if ((u64)lo > e->ulo) e->ulo = (u64)lo; if ((u64)hi < e->uhi) e->uhi = (u64)hi; } }
static void sI(EP e, i128 lo, i128 hi) { if (lo >= SMIN(e->w) && hi <= SMAX(e->w)) { if ((i64)lo > e->slo) e->slo = (i64)lo; if ((i64)hi < e->shi) e->shi = (i64)hi; } }
static void cross(EP e) {
  unsigned w = e->w;
  for (int i = 0; i < 2; i++) {
    if ((i128)e->uhi <= SMAX(w)) sI(e, (i128)e->ulo, (i128)e->uhi);
    else if ((i128)e->ulo > SMAX(w)) sI(e, sextw(e->ulo, w), sextw(e->uhi, w));
    if (e->slo >= 0) uI(e, (u64)e->slo, (u64)e->shi);
    else if (e->shi < 0) uI(e, (u64)e->slo & maskw(w), (u64)e->shi & maskw(w));
  }
}
static u64 pow2mask(u64 v) { u64 m = v; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; return m; }

static void fIntervals(EP e) { // rounding is monotone, so interval arithmetic in doubles bounds the rounded results
  const double INF = HUGE_VAL; e->flo = -INF; e->fhi = INF; if (!e->fp) return; EP a = e->a, b = e->b;
  auto mm = [&](double p, double q, double r, double t) { if (p != p || q != q || r != r || t != t) return; e->flo = std::min(std::min(p, q), std::min(r, t)); e->fhi = std::max(std::max(p, q), std::max(r, t)); };
  switch (e->op) {
  case E_FCONST: { double d; memcpy(&d, &e->val, 8); if (d == d) e->flo = e->fhi = d; break; }
  case E_FI2D: e->flo = (double)a->slo; e->fhi = (double)a->shi; break;
  case E_FHALF: e->flo = std::ldexp((double)a->slo, -(int)e->aux); e->fhi = std::ldexp((double)a->shi, -(int)e->aux); break;
  case E_FQUOT: { double m = std::max(std::fabs((double)a->slo), std::fabs((double)a->shi)); e->flo = -m; e->fhi = m; if (b->slo > 0) { if (a->slo >= 0) e->flo = 0; if (a->shi <= 0) e->fhi = 0; } break; }
  case E_FITE: e->flo = std::min(b->flo, e->c->flo); e->fhi = std::max(b->fhi, e->c->fhi); break;
  case E_FADD: e->flo = a->flo + b->flo; e->fhi = a->fhi + b->fhi; break;
  case E_FSUB: e->flo = a->flo - b->fhi; e->fhi = a->fhi - b->flo; break;
  case E_FMUL: if (std::isfinite(a->flo) && std::isfinite(a->fhi) && std::isfinite(b->flo) && std::isfinite(b->fhi)) mm(a->flo * b->flo, a->flo * b->fhi, a->fhi * b->flo, a->fhi * b->fhi); break;
  case E_FDIV: if (std::isfinite(a->flo) && std::isfinite(a->fhi) && (b->flo > 0 || b->fhi < 0)) mm(a->flo / b->flo, a->flo / b->fhi, a->fhi / b->flo, a->fhi / b->fhi); break;
  case E_FFLOOR: e->flo = std::floor(a->flo); e->fhi = std::floor(a->fhi); break;
  case E_FCEIL: e->flo = std::ceil(a->flo); e->fhi = std::ceil(a->fhi); break;
  case E_FTRUNC: e->flo = std::trunc(a->flo); e->fhi = std::trunc(a->fhi); break;
  default: break;
  }
  if (e->flo != e->flo || e->fhi != e->fhi) { e->flo = -INF; e->fhi = INF; }
}
static void intervals(EP e) {
  setFull(e); EP a = e->a, b = e->b; unsigned w = e->w;
  switch (e->op) {
  case E_CONST: e->ulo = e->uhi = e->val; e->slo = e->shi = sextw(e->val, w); return;
  case E_VAR: e->ulo = g_vars[e->aux].lo; e->uhi = g_vars[e->aux].hi; break;
  case E_ADD: uI(e, (u128)a->ulo + b->ulo, (u128)a->uhi + b->uhi); sI(e, (i128)a->slo + b->slo, (i128)a->shi + b->shi); break;
  case E_SUB: if (a->ulo >= b->uhi) uI(e, a->ulo - b->uhi, a->uhi - b->ulo); sI(e, (i128)a->slo - b->shi, (i128)a->shi - b->slo); break;
  case E_MUL: { uI(e, (u128)a->ulo * b->ulo, (u128)a->uhi * b->uhi);
    i128 p[4] = {(i128)a->slo * b->slo, (i128)a->slo * b->shi, (i128)a->shi * b->slo, (i128)a->shi * b->shi};
    sI(e, *std::min_element(p, p + 4), *std::max_element(p, p + 4)); break; }
  case E_UDIV: if (b->ulo > 0) uI(e, a->ulo / b->uhi, a->uhi / b->ulo); break;
  case E_UREM: if (b->ulo > 0) uI(e, 0, std::min<u64>(a->uhi, b->uhi - 1)); break;
  case E_SDIV: if (b->slo > 0) { i128 p[4] = {(i128)a->slo / b->slo, (i128)a->slo / b->shi, (i128)a->shi / b->slo, (i128)a->shi / b->shi};
    sI(e, *std::min_element(p, p + 4), *std::max_element(p, p + 4)); } break;
  case E_SREM: if (b->slo > 0) { i64 m = b->shi - 1; sI(e, a->slo >= 0 ? 0 : std::max<i64>(-m, a->slo), a->shi <= 0 ? 0 : std::min<i64>(m, a->shi)); } break;
  case E_AND: uI(e, 0, std::min(a->uhi, b->uhi)); break;
  case E_OR: uI(e, std::max(a->ulo, b->ulo), pow2mask(a->uhi | b->uhi)); break;
  case E_XOR: uI(e, 0, pow2mask(a->uhi | b->uhi)); break;
  case E_LSHR: uI(e, 0, a->uhi); break;
  case E_ASHR: sI(e, a->slo < 0 ? a->slo : 0, a->shi < 0 ? -1 : a->shi); break;
  case E_SHL: if (b->uhi < 64) { u128 h = (u128)a->uhi << b->uhi; if (h <= maskw(w)) uI(e, (u128)a->ulo << b->ulo, h); } break;
  case E_F2SI: if (a->flo > -4e18 && a->fhi < 4e18) sI(e, (i128)std::trunc(a->flo), (i128)std::trunc(a->fhi)); break;
  case E_ZEXT: uI(e, a->ulo, a->uhi); break;
  case E_SEXT: sI(e, a->slo, a->shi); break;
  case E_EXTRACT:
    if (e->aux == 0 && a->uhi <= maskw(w)) uI(e, a->ulo, a->uhi);
    else if (e->aux + w == a->w) uI(e, a->ulo >> e->aux, a->uhi >> e->aux);
    else if ((a->uhi >> e->aux) <= maskw(w)) uI(e, a->ulo >> e->aux, a->uhi >> e->aux);
    if (e->aux == 0) { if ((i128)a->slo >= SMIN(w) && (i128)a->shi <= SMAX(w)) sI(e, a->slo, a->shi); }
    break;
  case E_CONCAT: uI(e, ((u128)a->ulo << b->w) | b->ulo, ((u128)a->uhi << b->w) | b->uhi);
    if (!(e->w > 64)) sI(e, ((i128)a->slo << b->w) + (i128)b->ulo, ((i128)a->shi << b->w) + (i128)b->uhi); break;
  case E_ITE: uI(e, std::min(e->b->ulo, e->c->ulo), std::max(e->b->uhi, e->c->uhi)); sI(e, std::min(e->b->slo, e->c->slo), std::max(e->b->shi, e->c->shi)); break;
  default: break;
  }
  cross(e);
}

static EP intern(EOp op, unsigned w, EP a, EP b, EP c, u64 val, u32 aux, bool fp = false) {
  Expr k; memset(&k, 0, sizeof k); k.op = op; k.w = w; k.a = a; k.b = b; k.c = c; k.val = val; k.aux = aux; k.fp = fp;
  auto it = s_table.find(&k); if (it != s_table.end()) return *it;
  EP e = new Expr(k); e->id = s_nextId++; e->depth = 0; e->nodes = 1;
  for (EP x : {a, b, c}) if (x) { e->depth = std::max(e->depth, x->depth + 1); e->sup0 |= x->sup0; e->sup1 |= x->sup1; e->nodes = std::min<u64>((u64)e->nodes + x->nodes, 1u << 30); }
  if (op == E_VAR) { u32 i = aux % 128; if (i < 64) e->sup0 = 1ULL << i; else e->sup1 = 1ULL << (i - 64); }
  fIntervals(e); intervals(e); e->aux2 = fp || op == E_FBITS || op == E_F2SI || op == E_FLT || op == E_FLE || op == E_FEQ; for (EP x : {a, b, c}) if (x) e->aux2 |= x->aux2;
  s_table.insert(e);
  if (!fp && op != E_CONST && op != E_VAR && e->ulo == e->uhi) return mkConst(e->ulo, w);
  return e;
}
EP mkConst(u64 v, unsigned w) { return intern(E_CONST, w, 0, 0, 0, v & maskw(w), 0); }
EP mkVar(const std::string &name, u32 seq, unsigned w, u64 lo, u64 hi) {
  static std::unordered_map<std::string, EP> m; char buf[96]; snprintf(buf, sizeof buf, "#%u:%u:%llx:%llx", seq, w, (unsigned long long)lo, (unsigned long long)hi);
  std::string k = name + buf; auto it = m.find(k); if (it != m.end()) return it->second;
  u32 i = g_vars.size(); g_vars.push_back({name, (u8)w, lo, hi, seq, nullptr});
  EP e = intern(E_VAR, w, 0, 0, 0, 0, i); g_vars[i].e = e; m[k] = e; return e;
}

static u64 foldBin(EOp op, u64 a, u64 b, unsigned w) {
  u64 m = maskw(w); i64 sa = sextw(a, w), sb = sextw(b, w);
  switch (op) {
  case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
  case E_SDIV: return sb ? (sb == -1 ? (u64)(0 - (u64)sa) : (u64)(sa / sb)) & m : (sa < 0 ? 1 : m);
  case E_SREM: return sb ? (sb == -1 ? 0 : (u64)(sa % sb) & m) : a;
  case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b; case E_ASHR: return (u64)(sa >> (b >= w ? w - 1 : b)) & m;
  case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
  case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b; case E_SLT: return sa < sb; case E_SLE: return sa <= sb;
  default: abort();
  }
}
struct Seg { EP e; unsigned hi, lo; u64 c; }; // e==null: constant c of width hi-lo+1
static void segs(EP e, unsigned hi, unsigned lo, std::vector<Seg> &out) { // most significant first
  if (e->op == E_CONST) { out.push_back({nullptr, hi - lo, 0, (e->val >> lo) & maskw(hi - lo + 1)}); return; }
  if (e->op == E_CONCAT) { unsigned bw = e->b->w;
    if (hi >= bw) segs(e->a, hi - bw, lo >= bw ? lo - bw : 0, out);
    if (lo < bw) segs(e->b, std::min(hi, bw - 1), lo, out); return; }
  if (e->op == E_ZEXT) { unsigned aw = e->a->w; if (hi >= aw) { unsigned l = std::max(lo, aw); out.push_back({nullptr, hi - l, 0, 0}); }
    if (lo < aw) segs(e->a, std::min(hi, aw - 1), lo, out); return; }
  if (e->op == E_EXTRACT) { segs(e->a, hi + e->aux, lo + e->aux, out); return; }
  if (e->op == E_AND && e->b->op == E_CONST) { // mask with a contiguous run of ones
    u64 m = e->b->val; if (m) { unsigned l = __builtin_ctzll(m); u64 r = m >> l; if ((r & (r + 1)) == 0) { unsigned h = 63 - __builtin_clzll(m);
      if (hi > h) { unsigned ll = std::max(lo, h + 1); out.push_back({nullptr, hi - ll, 0, 0}); }
      if (lo <= h && hi >= l) segs(e->a, std::min(hi, h), std::max(lo, l), out);
      if (lo < l) { unsigned hh = std::min(hi, l - 1); out.push_back({nullptr, hh - lo, 0, 0}); }
      return; } } }
  out.push_back({e, hi, lo, 0});
}
static EP segExpr(const Seg &s) { if (!s.e) return mkConst(s.c, s.hi - s.lo + 1); if (s.lo == 0 && s.hi + 1 == s.e->w) return s.e; return intern(E_EXTRACT, s.hi - s.lo + 1, s.e, 0, 0, 0, s.lo); }
static EP fromSegs(std::vector<Seg> &v) {
  std::vector<Seg> o;
  for (auto &s : v) { if (!o.empty()) { Seg &p = o.back();
      if (p.e && p.e == s.e && p.lo == s.hi + 1) { p.lo = s.lo; continue; }
      if (!p.e && !s.e) { unsigned sw = s.hi - s.lo + 1, pw = p.hi - p.lo + 1; p.c = (p.c << sw) | s.c; p.hi = pw + sw - 1; p.lo = 0; continue; } }
    o.push_back(s); }
  // build from least significant
  EP r = nullptr; 
  for (int i = (int)o.size() - 1; i >= 0; i--) { EP x = segExpr(o[i]);
    if (!r) r = x; else if (isC(x) && x->val == 0 && i == 0) r = mkZExt(r, x->w + r->w); else if (isC(x) && isC(r)) r = mkConst((x->val << r->w) | r->val, x->w + r->w); else r = intern(E_CONCAT, x->w + r->w, x, r, 0, 0, 0); }
  return r;
}
static bool isSegLike(EP e) { return e->op == E_CONCAT || e->op == E_ZEXT || e->op == E_CONST || e->op == E_EXTRACT || (e->op == E_AND && isC(e->b)); }
// merge two expressions whose set bits are disjoint into one concatenation; null if not disjoint
static EP mergeDisjoint(EP a, EP b) {
  if (!isSegLike(a) || !isSegLike(b)) return nullptr;
  std::vector<Seg> x, y, o; segs(a, a->w - 1, 0, x); segs(b, b->w - 1, 0, y);
  if (x.size() + y.size() > 64) return nullptr;
  size_t i = 0, j = 0;
  auto split = [](Seg &s, unsigned w) { // take the top w bits
    Seg t = s; unsigned sw = s.hi - s.lo + 1; if (s.e) { t.lo = s.hi - w + 1; s.hi = t.lo - 1; } else { t.c = s.c >> (sw - w); t.hi = w - 1; t.lo = 0; s.c &= maskw(sw - w); s.hi = sw - w - 1; s.lo = 0; } return t; };
  while (i < x.size() && j < y.size()) {
    unsigned wx = x[i].hi - x[i].lo + 1, wy = y[j].hi - y[j].lo + 1, w = std::min(wx, wy);
    Seg sx = wx == w ? x[i++] : split(x[i], w), sy = wy == w ? y[j++] : split(y[j], w);
    if (!sx.e && sx.c == 0) o.push_back(sy); else if (!sy.e && sy.c == 0) o.push_back(sx); else return nullptr;
  }
  return fromSegs(o);
}
EP mkExtract(EP a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1; if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->val >> lo, w);
  if (a->op == E_CONCAT || a->op == E_ZEXT || a->op == E_EXTRACT || (a->op == E_AND && isC(a->b))) {
    std::vector<Seg> s; segs(a, hi, lo, s);
    if (!(s.size() == 1 && s[0].e == a)) { EP r = nullptr; std::vector<Seg> t;
      for (auto &q : s) { if (q.e && !(q.lo == 0 && q.hi + 1 == q.e->w)) { EP x = mkExtract(q.e, q.hi, q.lo); if (x->op != E_EXTRACT) { t.push_back({isC(x) ? nullptr : x, x->w - 1, 0, isC(x) ? x->val : 0}); continue; } } t.push_back(q); }
      r = fromSegs(t); return r; }
  }
  if (a->op == E_SEXT) { unsigned iw = a->a->w; if (hi < iw) return mkExtract(a->a, hi, lo); if (lo == 0) return mkSExt(a->a, w); }
  if (a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkExtract(a->b, hi, lo), mkExtract(a->c, hi, lo));
  if (lo == 0 && a->depth < 200 && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL || a->op == E_AND || a->op == E_OR || a->op == E_XOR))
    return mkBin(a->op, mkExtract(a->a, hi, 0), mkExtract(a->b, hi, 0));
  if (lo == 0 && a->op == E_ITE && a->depth < 60) return mkIte(a->a, mkExtract(a->b, hi, 0), mkExtract(a->c, hi, 0));
  if ((a->op == E_AND || a->op == E_OR || a->op == E_XOR) && a->depth < 60) return mkBin(a->op, mkExtract(a->a, hi, lo), mkExtract(a->b, hi, lo));
  if (lo > 0 && hi + 1 < a->w && a->depth < 200 && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL)) return mkExtract(mkExtract(a, hi, 0), hi, lo);
  return intern(E_EXTRACT, w, a, 0, 0, 0, lo);
}
EP mkRawExtract(EP a, unsigned hi, unsigned lo) { if (isC(a) || (lo == 0 && hi + 1 == a->w)) return mkExtract(a, hi, lo); return intern(E_EXTRACT, hi - lo + 1, a, 0, 0, 0, lo); }
EP mkConcat(EP hi, EP lo) {
  std::vector<Seg> s; segs(hi, hi->w - 1, 0, s); segs(lo, lo->w - 1, 0, s); return fromSegs(s);
}
EP mkZExt(EP a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst(a->val, w);
  if (a->op == E_ZEXT) return mkZExt(a->a, w);
  if (a->op == E_EXTRACT && a->aux == 0 && a->a->uhi <= maskw(a->w)) { if (a->a->w == w) return a->a; if (a->a->w < w) return mkZExt(a->a, w); return mkExtract(a->a, w - 1, 0); }
  if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  if (a->depth < 60) {
    if (a->op == E_ADD && (u128)a->a->uhi + a->b->uhi <= maskw(a->w)) return mkBin(E_ADD, mkZExt(a->a, w), mkZExt(a->b, w));
    if (a->op == E_MUL && (u128)a->a->uhi * a->b->uhi <= maskw(a->w)) return mkBin(E_MUL, mkZExt(a->a, w), mkZExt(a->b, w));
    if (a->op == E_SUB && a->a->ulo >= a->b->uhi) return mkBin(E_SUB, mkZExt(a->a, w), mkZExt(a->b, w));
  }
  return intern(E_ZEXT, w, a, 0, 0, 0, 0);
}
EP mkSExt(EP a, unsigned w) {
  if (w == a->w) return a; if (isC(a)) return mkConst((u64)sextw(a->val, a->w), w);
  if (a->slo >= 0) return mkZExt(a, w);
  if (a->op == E_SEXT) return mkSExt(a->a, w);
  if (a->op == E_EXTRACT && a->aux == 0 && (i128)a->a->slo >= SMIN(a->w) && (i128)a->a->shi <= SMAX(a->w)) { if (a->a->w == w) return a->a; if (a->a->w < w) return mkSExt(a->a, w); return mkExtract(a->a, w - 1, 0); }
  if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  if (a->depth < 60) {
    EP x = a->a, y = a->b;
    if (a->op == E_ADD && (i128)x->slo + y->slo >= SMIN(a->w) && (i128)x->shi + y->shi <= SMAX(a->w)) return mkBin(E_ADD, mkSExt(x, w), mkSExt(y, w));
    if (a->op == E_SUB && (i128)x->slo - y->shi >= SMIN(a->w) && (i128)x->shi - y->slo <= SMAX(a->w)) return mkBin(E_SUB, mkSExt(x, w), mkSExt(y, w));
    if (a->op == E_MUL) { i128 p[4] = {(i128)x->slo * y->slo, (i128)x->slo * y->shi, (i128)x->shi * y->slo, (i128)x->shi * y->shi};
      if (*std::min_element(p, p + 4) >= SMIN(a->w) && *std::max_element(p, p + 4) <= SMAX(a->w)) return mkBin(E_MUL, mkSExt(x, w), mkSExt(y, w)); }
  }
  return intern(E_SEXT, w, a, 0, 0, 0, 0);
}
EP mkNot(EP a) {
  if (isC(a)) return mkConst(!a->val, 1);
  if (a->op == E_XOR && isC(a->b) && a->w == 1) return a->a;
  if (a->op == E_ULT) return mkBin(E_ULE, a->b, a->a);
  if (a->op == E_ULE) return mkBin(E_ULT, a->b, a->a);
  if (a->op == E_SLT) return mkBin(E_SLE, a->b, a->a);
  if (a->op == E_SLE) return mkBin(E_SLT, a->b, a->a);
  return intern(E_XOR, 1, a, mkConst(1, 1), 0, 0, 0);
}
EP mkIte(EP c, EP t, EP f) {
  if (isC(c)) return c->val ? t : f; if (t == f) return t;
  if (c->op == E_XOR && c->w == 1 && isC(c->b)) return mkIte(c->a, f, t);
  if (!t->fp && t->w == 1) { if (isC(t) && isC(f)) return t->val ? c : mkNot(c);
    if (isC(t)) return t->val ? mkOr1(c, f) : mkAnd1(mkNot(c), f); if (isC(f)) return f->val ? mkOr1(mkNot(c), t) : mkAnd1(c, t); }
  if (t->op == E_ITE && t->a == c) t = t->b;
  if (f->op == E_ITE && f->a == c) f = f->c;
  if (t == f) return t;
  if (!t->fp) { if (isC(t) && !isC(f) && c->op == E_EQ && mkEq(f, t) == c) return f; if (isC(f) && !isC(t) && c->op == E_XOR && mkNot(mkEq(t, f)) == c) return t; }
  if (t->fp) return intern(E_FITE, 64, c, t, f, 0, 0, true);
  return intern(E_ITE, t->w, c, t, f, 0, 0);
}
// a sum of constant multiples of other terms (modulo 2^w); false when it gets long
static bool linTerms(EP e, u64 k, std::vector<std::pair<EP, u64>> &t, u64 &c, int &budget) {
  if (--budget < 0) return false;
  if (isC(e)) { c += k * e->val; return true; }
  if (e->op == E_ADD) return linTerms(e->a, k, t, c, budget) && linTerms(e->b, k, t, c, budget);
  if (e->op == E_SUB) return linTerms(e->a, k, t, c, budget) && linTerms(e->b, 0 - k, t, c, budget);
  if (e->op == E_MUL && isC(e->b)) return linTerms(e->a, k * e->b->val, t, c, budget);
  if (e->op == E_SHL && isC(e->b) && e->b->val < e->w) return linTerms(e->a, k << e->b->val, t, c, budget);
  t.push_back({e, k}); return true;
}
// the largest structural divisor of a 64-bit sum that does not wrap, and the quotient by a divisor of it
u64 sumDivisor(EP e, int depth) {
  auto in64 = [](i128 lo, i128 hi) { return lo >= INT64_MIN && hi <= INT64_MAX; };
  if (depth > 40) return 1; if (isC(e)) { i64 v = (i64)sextw(e->val, e->w); return v < 0 ? 0 - (u64)v : (u64)v; }
  if (e->op == E_ADD && in64((i128)e->a->slo + e->b->slo, (i128)e->a->shi + e->b->shi)) { u64 x = sumDivisor(e->a, depth + 1), y = sumDivisor(e->b, depth + 1); while (y) { u64 r = x % y; x = y; y = r; } return x ? x : 1; }
  if (e->op == E_MUL && isC(e->b) && (i64)e->b->val > 0 && (i64)e->b->val < (1LL << 31)) { i128 k = (i64)e->b->val; if (in64(e->a->slo * k, e->a->shi * k)) return (u64)(i64)e->b->val; }
  if (e->op == E_SHL && isC(e->b) && e->b->val < 31) { i128 k = 1LL << e->b->val; if (in64(e->a->slo * k, e->a->shi * k)) return (u64)k; }
  return 1;
}
EP sumQuotient(EP e, u64 g) {
  if (isC(e)) return mkConst((u64)((i64)e->val / (i64)g), 64);
  if (e->op == E_ADD) return mkBin(E_ADD, sumQuotient(e->a, g), sumQuotient(e->b, g));
  if (e->op == E_MUL) return mkBin(E_MUL, e->a, mkConst(e->b->val / g, 64));
  return mkBin(E_MUL, e->a, mkConst((1ULL << e->b->val) / g, 64));
}
static bool additive(EP e) { return e->op == E_ADD || e->op == E_SUB || e->op == E_MUL || e->op == E_SHL; }
EP mkEq(EP a, EP b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(a->val == b->val, 1);
  if (isC(a)) std::swap(a, b);
  if (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo) return mkConst(0, 1);
  if (isC(b)) {
    if (a->w == 1) return b->val ? a : mkNot(a);
    if (a->op == E_ZEXT) return b->val > maskw(a->a->w) ? mkConst(0, 1) : mkEq(a->a, mkConst(b->val, a->a->w));
    if (a->op == E_SEXT) { u64 lowv = b->val & maskw(a->a->w); if ((u64)sextw(lowv, a->a->w) != (u64)sextw(b->val, a->w)) return mkConst(0, 1); return mkEq(a->a, mkConst(lowv, a->a->w)); }
    if (a->op == E_ADD && isC(a->b)) return mkEq(a->a, mkConst(b->val - a->b->val, a->w));
    if (a->op == E_XOR && isC(a->b)) return mkEq(a->a, mkConst(b->val ^ a->b->val, a->w));
    if (a->op == E_SUB && isC(a->a)) return mkEq(a->b, mkConst(a->a->val - b->val, a->w));
    if (a->op == E_XOR && b->val == 0) return mkEq(a->a, a->b);
    if (a->op == E_AND && isC(a->b) && (a->b->val & (a->b->val + 1)) == 0 && a->b->val) { if (b->val & ~a->b->val) return mkConst(0, 1); unsigned k = __builtin_popcountll(a->b->val); if (k < a->w) return mkEq(mkExtract(a->a, k - 1, 0), mkConst(b->val, k)); }
    if (a->op == E_ITE && (isC(a->b) || isC(a->c))) { EP x = mkEq(a->b, b), y = mkEq(a->c, b); if (isC(x) || isC(y)) return mkIte(a->a, x, y); }
    if (a->op == E_CONCAT) { EP x = mkEq(a->a, mkConst(b->val >> a->b->w, a->a->w)), y = mkEq(a->b, mkConst(b->val, a->b->w)); return mkAnd1(x, y); }
  } else {
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == E_ADD && b->op == E_ADD && isC(a->b) && a->b == b->b) return mkEq(a->a, b->a);
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) return mkAnd1(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->aux == b->aux && a->w == b->w && (additive(a->a) || additive(b->a))) { unsigned h = a->aux + a->w - 1; EP x = mkEq(mkExtract(a->a, h, 0), mkExtract(b->a, h, 0)); if (isC(x) && x->val) return x; }
    if (a->op == E_XOR && b->op == E_XOR && isC(a->b) && a->b == b->b) return mkEq(a->a, b->a);
    if (additive(a) || additive(b)) { // the same sum written differently
      std::vector<std::pair<EP, u64>> t; u64 c = 0; int budget = 60;
      if (linTerms(a, 1, t, c, budget) && linTerms(b, ~0ULL, t, c, budget)) { std::map<u32, u64> m; for (auto &x : t) m[x.first->id] += x.second; bool zero = true; for (auto &x : m) if (x.second & maskw(a->w)) zero = false; if (zero) return mkConst((c & maskw(a->w)) == 0, 1); }
    }
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return intern(E_EQ, 1, a, b, 0, 0, 0);
}
static bool lowMask(u64 m, unsigned &k) { if (m == 0) return false; if ((m & (m + 1)) == 0) { k = m == ~0ULL ? 64 : __builtin_ctzll(m + 1); return true; } return false; }
EP mkBin(EOp op, EP a, EP b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "symx: width mismatch op %d %u %u\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) { bool cmp = op >= E_EQ && op <= E_SLE; return mkConst(foldBin(op, a->val, b->val, w), cmp ? 1 : w); }
  switch (op) { case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); break; default: break; }
  switch (op) {
  case E_EQ: return mkEq(a, b);
  case E_ADD:
    if (isC(b)) { if (!b->val) return a; if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(a->b->val + b->val, w));
      if (a->op == E_SUB && isC(a->a)) return mkBin(E_SUB, mkConst(a->a->val + b->val, w), a->b);
      if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(E_ADD, a->b, b), mkBin(E_ADD, a->c, b)); }
    else {
      if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_ADD, a->a, b), a->b);
      if (b->op == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_ADD, a, b->a), b->b);
      if (a->op == E_SUB && a->b == b) return a->a; if (b->op == E_SUB && b->b == a) return b->a;
    }
    if (EP m = mergeDisjoint(a, b)) return m;
    if (w == 1) return mkBin(E_XOR, a, b);
    break;
  case E_SUB:
    if (a == b) return mkConst(0, w); if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->val, w));
    if (a->op == E_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (b->op == E_ADD) { if (b->a == a) return mkBin(E_SUB, mkConst(0, w), b->b); if (b->b == a) return mkBin(E_SUB, mkConst(0, w), b->a); }
    if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_SUB, a->a, b), a->b);
    if (b->op == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_SUB, a, b->a), mkConst(0 - b->b->val, w));
    if (isC(a) && a->val == 0 && b->op == E_SUB) return mkBin(E_SUB, b->b, b->a);
    if (a->op == E_SUB && a->a == b) return mkBin(E_SUB, mkConst(0, w), a->b);
    if (b->op == E_SUB && b->a == a) return b->b;
    break;
  case E_MUL:
    if (isC(b)) { if (!b->val) return b; if (b->val == 1) return a; if ((b->val & (b->val - 1)) == 0) return mkBin(E_SHL, a, mkConst(__builtin_ctzll(b->val), w));
      if (b->val == maskw(w)) return mkBin(E_SUB, mkConst(0, w), a);
      if (a->op == E_MUL && isC(a->b)) return mkBin(E_MUL, a->a, mkConst(a->b->val * b->val, w)); }
    break;
  case E_UDIV: if (isC(b)) { if (b->val == 1) return a; if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(E_LSHR, a, mkConst(__builtin_ctzll(b->val), w)); } break;
  case E_UREM: if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(E_AND, a, mkConst(b->val - 1, w)); if (isC(b) && a->uhi < b->val) return a; break;
  case E_SDIV: if (isC(b) && b->val == 1) return a; if (a->slo >= 0 && b->slo > 0) return mkBin(E_UDIV, a, b); break;
  case E_SREM: if (a->slo >= 0 && b->slo > 0) return mkBin(E_UREM, a, b); break;
  case E_SHL: if (isC(b)) { u64 k = b->val; if (!k) return a; if (k >= w) return mkConst(0, w); return mkConcat(mkExtract(a, w - 1 - k, 0), mkConst(0, k)); } if (isC(a) && !a->val) return a; break;
  case E_LSHR: if (isC(b)) { u64 k = b->val; if (!k) return a; if (k >= w) return mkConst(0, w); return mkZExt(mkExtract(a, w - 1, k), w); } if (isC(a) && !a->val) return a; break;
  case E_ASHR: if (a->slo >= 0) return mkBin(E_LSHR, a, b); if (isC(b)) { u64 k = b->val; if (!k) return a; if (k >= w) k = w - 1; return mkSExt(mkExtract(a, w - 1, k), w); } break;
  case E_AND: {
    if (a == b) return a;
    if (isC(b)) { if (!b->val) return b; if (b->val == maskw(w)) return a; unsigned k;
      if (lowMask(b->val, k)) { if (a->uhi <= b->val) return a; return mkZExt(mkExtract(a, k - 1, 0), w); }
      if (a->op == E_AND && isC(a->b)) return mkBin(E_AND, a->a, mkConst(a->b->val & b->val, w));
      if (a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(E_AND, a->b, b), mkBin(E_AND, a->c, b));
      // contiguous mask -> concat form
      u64 m = b->val; unsigned l = __builtin_ctzll(m); u64 r = m >> l; if ((r & (r + 1)) == 0) { unsigned h = 63 - __builtin_clzll(m); EP x = mkExtract(a, h, l); x = mkConcat(x, mkConst(0, l)); return mkZExt(x, w); }
      // general constant mask: bits outside both are zero; keep
      if (isSegLike(a) && a->op != E_AND) { std::vector<Seg> s; segs(a, w - 1, 0, s); bool any0 = false; for (auto &q : s) if (!q.e) any0 = true;
        if (any0 && s.size() <= 8) { std::vector<Seg> o; unsigned pos = w; bool ok = true; for (auto &q : s) { unsigned qw = q.hi - q.lo + 1; pos -= qw; u64 mm = (m >> pos) & maskw(qw);
            if (!q.e) o.push_back({nullptr, qw - 1, 0, q.c & mm}); else if (mm == maskw(qw)) o.push_back(q); else if (!mm) o.push_back({nullptr, qw - 1, 0, 0}); else ok = false; } if (ok) return fromSegs(o); } }
    }
    if (w == 1 && ((a->op == E_XOR && isC(a->b) && a->a == b) || (b->op == E_XOR && isC(b->b) && b->a == a))) return mkConst(0, 1);
    if (w == 1 && ((a->op == E_AND && (a->a == b || a->b == b)))) return a;
    if (w == 1 && ((b->op == E_AND && (b->a == a || b->b == a)))) return b;
    break; }
  case E_OR:
    if (a == b) return a;
    if (isC(b)) { if (!b->val) return a; if (b->val == maskw(w)) return b; }
    if (w == 1 && ((a->op == E_XOR && isC(a->b) && a->a == b) || (b->op == E_XOR && isC(b->b) && b->a == a))) return mkConst(1, 1);
    if (w > 1) if (EP m = mergeDisjoint(a, b)) return m;
    break;
  case E_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) { if (!b->val) return a; if (w == 1) return mkNot(a); if (a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkConst(a->b->val ^ b->val, w)); }
    if (w > 1) if (EP m = mergeDisjoint(a, b)) return m;
    break;
  case E_ULT:
    if (a == b) return mkConst(0, 1); if (a->uhi < b->ulo) return mkConst(1, 1); if (a->ulo >= b->uhi) return mkConst(0, 1);
    if (isC(b) && b->val == 1) return mkEq(a, mkConst(0, w));
    goto cmpn;
  case E_ULE:
    if (a == b) return mkConst(1, 1); if (a->uhi <= b->ulo) return mkConst(1, 1); if (a->ulo > b->uhi) return mkConst(0, 1);
    if (isC(b)) return mkBin(E_ULT, a, mkConst(b->val + 1, w)); if (isC(a) && a->val) return mkBin(E_ULT, mkConst(a->val - 1, w), b);
    goto cmpn;
  case E_SLT:
    if (a == b) return mkConst(0, 1); if (a->shi < b->slo) return mkConst(1, 1); if (a->slo >= b->shi) return mkConst(0, 1);
    if (a->slo >= 0 && b->slo >= 0) return mkBin(E_ULT, a, b);
    goto cmpn;
  case E_SLE:
    if (a == b) return mkConst(1, 1); if (a->shi <= b->slo) return mkConst(1, 1); if (a->slo > b->shi) return mkConst(0, 1);
    if (a->slo >= 0 && b->slo >= 0) return mkBin(E_ULE, a, b);
    if (isC(b)) return mkBin(E_SLT, a, mkConst(b->val + 1, w)); if (isC(a)) return mkBin(E_SLT, mkConst(a->val - 1, w), b);
    goto cmpn;
  cmpn: {
    bool sg = op == E_SLT || op == E_SLE;
    EOp ext = sg ? E_SEXT : E_ZEXT;
    if (a->op == ext && b->op == ext && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    if (a->op == ext && isC(b)) { unsigned iw = a->a->w; if (!sg && b->val <= maskw(iw)) return mkBin(op, a->a, mkConst(b->val, iw)); if (sg && (i128)sextw(b->val, w) >= SMIN(iw) && (i128)sextw(b->val, w) <= SMAX(iw)) return mkBin(op, a->a, mkConst(b->val, iw)); }
    if (b->op == ext && isC(a)) { unsigned iw = b->a->w; if (!sg && a->val <= maskw(iw)) return mkBin(op, mkConst(a->val, iw), b->a); if (sg && (i128)sextw(a->val, w) >= SMIN(iw) && (i128)sextw(a->val, w) <= SMAX(iw)) return mkBin(op, mkConst(a->val, iw), b->a); }
    if (a->op == E_ITE && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (b->op == E_ITE && isC(a) && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    return intern(op, 1, a, b, 0, 0, 0); }
  default: break;
  }
  return intern(op, w, a, b, 0, 0, 0);
}
EP mkFI2D(EP e) { return intern(E_FI2D, 64, e, 0, 0, 0, 0, true); }
EP mkFBits(EP f) { if (f->op == E_FCONST) return mkConst(f->val, 64); return intern(E_FBITS, 64, f, 0, 0, 0, 0); }
EP mkFNode(EOp op, EP a, EP b, EP c, u64 val) {
  bool fp = op <= E_FCONST && op >= E_FI2D; unsigned w = (op == E_FLT || op == E_FLE || op == E_FEQ) ? 1 : 64;
  u32 aux = op == E_FHALF ? (u32)val : 0; return intern(op, w, a, b, c, val, aux, fp); }

static u64 ev(EP e, const std::vector<u64> &m);
static u64 ev0(EP e, const std::vector<u64> &m) {
  switch (e->op) {
  case E_CONST: case E_FCONST: return e->val;
  case E_VAR: return e->aux < m.size() ? m[e->aux] & maskw(e->w) : g_vars[e->aux].lo;
  case E_ZEXT: return ev(e->a, m);
  case E_SEXT: return (u64)sextw(ev(e->a, m), e->a->w) & maskw(e->w);
  case E_EXTRACT: return (ev(e->a, m) >> e->aux) & maskw(e->w);
  case E_CONCAT: return (ev(e->a, m) << e->b->w) | ev(e->b, m);
  case E_ITE: case E_FITE: return ev(e->a, m) ? ev(e->b, m) : ev(e->c, m);
  case E_FI2D: return fromD((double)(i64)ev(e->a, m));
  case E_FQUOT: return fromD((double)(i64)ev(e->a, m) / (double)(i64)ev(e->b, m));
  case E_FHALF: return fromD(ldexp((double)(i64)ev(e->a, m), -(int)e->aux));
  case E_FADD: return fromD(asD(ev(e->a, m)) + asD(ev(e->b, m)));
  case E_FSUB: return fromD(asD(ev(e->a, m)) - asD(ev(e->b, m)));
  case E_FMUL: return fromD(asD(ev(e->a, m)) * asD(ev(e->b, m)));
  case E_FDIV: return fromD(asD(ev(e->a, m)) / asD(ev(e->b, m)));
  case E_FFLOOR: return fromD(floor(asD(ev(e->a, m))));
  case E_FCEIL: return fromD(ceil(asD(ev(e->a, m))));
  case E_FTRUNC: return fromD(trunc(asD(ev(e->a, m))));
  case E_FBITS: return ev(e->a, m);
  case E_FLT: return asD(ev(e->a, m)) < asD(ev(e->b, m));
  case E_FLE: return asD(ev(e->a, m)) <= asD(ev(e->b, m));
  case E_FEQ: return asD(ev(e->a, m)) == asD(ev(e->b, m));
  case E_F2SI: { double d = asD(ev(e->a, m)); if (!(d > -9.3e18 && d < 9.2e18)) return 0x8000000000000000ULL; return (u64)(i64)d; }
  default: return foldBin(e->op, ev(e->a, m), ev(e->b, m), e->a->w);
  }
}
static u64 ev(EP e, const std::vector<u64> &m) {
  if (e->op == E_CONST) return e->val;
  if (e->evalEpoch == g_evalEpoch) return e->evalVal;
  u64 v = ev0(e, m); e->evalEpoch = g_evalEpoch; e->evalVal = v; return v;
}
u64 evalE(EP e, const std::vector<u64> &m) { g_evalEpoch++; return ev(e, m); }
u64 evalShared(EP e, const std::vector<u64> &m) { return ev(e, m); }
unsigned trailingZeros(EP e) {
  switch (e->op) {
  case E_CONST: return e->val ? std::min<unsigned>(__builtin_ctzll(e->val), e->w) : e->w;
  case E_CONCAT: { unsigned t = trailingZeros(e->b); return t < e->b->w ? t : e->b->w + trailingZeros(e->a); }
  case E_ZEXT: case E_SEXT: { unsigned t = trailingZeros(e->a); return t >= e->a->w ? e->w : t; }
  case E_ADD: case E_SUB: case E_OR: case E_XOR: return std::min(trailingZeros(e->a), trailingZeros(e->b));
  case E_MUL: return std::min<unsigned>(e->w, trailingZeros(e->a) + trailingZeros(e->b));
  case E_ITE: return std::min(trailingZeros(e->b), trailingZeros(e->c));
  default: return 0;
  }
}
std::string exprStr(EP e, int d) {
  static const char *N[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","eq","ult","ule","slt","sle","zext","sext","extract","concat","ite","fi2d","fquot","fite","fhalf","fadd","fsub","fmul","fdiv","ffloor","fceil","ftrunc","fconst","fbits","flt","fle","feq","f2si"};
  char b[64];
  if (e->op == E_CONST) { snprintf(b, sizeof b, "%lld:%u", (long long)sextw(e->val, e->w), e->w); return b; }
  if (e->op == E_FCONST) { snprintf(b, sizeof b, "%g", asD(e->val)); return b; }
  if (e->op == E_VAR) { snprintf(b, sizeof b, "%s#%u", g_vars[e->aux].name.c_str(), g_vars[e->aux].seq); return b; }
  if (d == 0) return "...";
  std::string s = std::string("(") + N[e->op]; if (e->op == E_EXTRACT) { snprintf(b, sizeof b, "[%u:%u]", e->aux + e->w - 1, e->aux); s += b; }
  for (EP x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1); return s + ")";
}
