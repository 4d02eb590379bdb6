/* S05: structure data. */
#include "common.h"
/* fields of s: name ds 4, age db, far dl, weight dw, p instanceof in [2], q dd */
static const char *FN[] = {"name", "age", "far", "weight", "p", "q"}; static const char *DIR[] = {"", ".db", ".dl", ".dw", "", ".dd"}; static int W[] = {4, 1, 3, 2, 0, 4};
static unsigned char M[64]; static int S, late;
static unsigned val(const char *n, int w, int *ok, int bad) { unsigned v = 0, off = 0; int i, nb = w + (bad && (w == 1 || (w < 4 && late != 1 && late != 3))); char raw[20], nm[20]; strcpy(nm, n);
  for (i = 0; i < nb; i++) v |= (unsigned)vf_range(msg("%s%d", nm, i), 0, i == 3 && w == 4 ? 127 : i == w ? 3 : 255) << (8 * i);
  sprintf(raw, "k%s", nm); defsym(raw, v, nb); if (nb > w && late != 1 && late != 3) { off = (1u << (8 * w - 1)) + 2; t(".redefine %s = %s-%u\n", raw, raw, off); v -= off; *ok &= ((int)v >= -(1 << (8 * w - 1))) & ((int)v < (1 << (8 * w))); } else if (nb > w) *ok &= v < 256; return v; }
static void put(int at, unsigned v, int w) { int i; for (i = 0; i < w; i++) M[at + i] = v >> (8 * (BIG ? w - 1 - i : i)); }
static int kind1(const char *c) { int r, i, form = vf_choice("form", 3), over = vf_choice("too long", 2), sf = vf_choice("startfrom", 2), un = vf_choice("union side", 4), sec = vf_choice("section", 2), a = vf_u8("a"), x = vf_u8("x") | vf_u8("x1") << 8, y = vf_u8("y"), q = vf_u8("q"), z = vf_u8("z"), fill = vf_u8("emptyfill"), I = form != 1 ? 10 : 6, E = un == 3 ? 0 : 5;
  tn(); map1(0, 0x100, 1); put8("fill.bin", fill); t(".fopen \"fill.bin\" fp\n.fread fp fill\n.emptyfill fill\n"); defsym("a", a, 1); defsym("x", x, 2); defsym("y", y, 1); defsym("q", q, 1); defsym("z", z, 1);
  /* o: aa db, i two padded instances, e with a union, zz db */
  t(".struct in%s\nx dw\ny db\n.endst\n.struct an\ngg db\n.endst\n.struct u\nkk db\n.union\nlo db\nhi db\n.nextu w\nww dw\nqq db\n.endu\nzz db\n.endst\n.struct o\naa db\ndot .instanceof in\ni instanceof in%s count 2%s\n%sinstanceof an\nzz db\n.endst\n", form == 2 ? " size 5" : "", form == 0 ? " size 5" : "", sf ? " startfrom 0" : "", un == 3 ? "" : "e instanceof u\n"); S = 1 + I + E + 2;
  for (i = 0; i < S; i++) M[i] = fill; at(0, 3); if (sec) t(".section \"a\" force\n"); t(".db $5a\n.dstruct w instanceof o "); if (un == 3) { t("data 7, x, y, x, y, a, z%s\n", over ? ", 1" : ""); M[0] = 7; put(1, x, 2); put(1 + I / 2, x, 2); M[3] = M[3 + I / 2] = y; M[S - 1] = z; M[S - 2] = a; } else { t("values\nzz: .db z%s\ngg: .db a\n", over ? ", 1" : ""); M[S - 2] = a; M[S - 1] = z; t("i.%d.x: .dw x\n", 2 - sf); put(1 + I / 2, x, 2); t("i.%d.y .db y\n", 1 - sf); M[3] = y; 
  if (un == 0) { t("e.lo: .db a\ne.hi: .db q\n"); M[2 + I] = a; M[3 + I] = q; } else if (un == 1) { t("e.w.ww: .dw a\ne.w.qq: .db q\n"); put(2 + I, a, 2); M[4 + I] = q; } else { t("e: .db a\n.dw q\n"); M[1 + I] = a; put(2 + I, q, 2); }
  t(".endst\n"); } t(".db $a5\n"); if (sec) t(".ends\n"); t(".org $60\n.dw w, w.aa, w.i, w.dot.x, w.dot.y, w.i.%d.x, w.i.%d.y, w.gg, w.zz, _sizeof_w, _sizeof_w.i%s\n", 1 - sf, 2 - sf, un == 3 ? "" : ", w.e, w.e.kk, w.e.lo, w.e.hi, w.e.w.ww, w.e.w.qq, w.e.zz, _sizeof_w.e, _sizeof_w.e.w.ww");
  r = build(c); vf_assert(clean(r), "both end properly"); vf_assert((r == 0) == !over, "too much data for a field is refused, the rest accepted"); if (r) { vf_reach("refused"); return 0; }
  P = 0; wantto(3, fill, "before"); want(0x5a, 1, "before"); for (i = 0; i < S; i++) want(M[i], 1, "structure"); want(0xa5, 1, "after"); wantto(0x60, fill, "gap"); P = 0x60; want(4, 2, "w"); want(4, 2, "aa"); want(5, 2, "i"); want(5, 2, "dot.x"); want(7, 2, "dot.y"); want(5, 2, "i.1.x"); want(5 + I / 2 + 2, 2, "i.2.y"); r = 5 + I; want(r + E, 2, "gg"); want(r + E + 1, 2, "zz"); want(S, 2, "size"); want(I, 2, "size"); if (un != 3) { want(r, 2, "e"); want(r, 2, "kk"); want(r + 1, 2, "lo"); want(r + 2, 2, "hi"); want(r + 1, 2, "ww"); want(r + 3, 2, "qq"); want(r + 4, 2, "zz"); want(5, 2, "size"); want(2, 2, "size"); } wantto(0x100, fill, "after"); vf_reach("ok"); return 0; }
int main() {
  if (vf_param("kind", 0)) { BIG = vf_param("cpu", 0); return kind1(BIG ? "wla-6800" : "wla-z80"); } {
  int cpu = vf_param("cpu", 0), form = vf_param("form", 0), bad = vf_param("bad", 0), r, i, j, fill = vf_u8("emptyfill"), m, sz, ok = 1, o, off[8], order, given[6], n, L, lab, sec, a; unsigned v[8]; static const char *VN[] = {"", "age", "far", "wei", "px", "q", "py"}; const char *c = cpu ? "wla-6800" : "wla-z80"; BIG = cpu; late = vf_param("late", 0);
  m = vf_choice("instances", 2) + 1; sz = vf_choice("size", 3); order = form == 0 ? vf_choice("order", 3) : 0; lab = vf_choice("labels", 3); sec = vf_choice("section", 2);
  tn(); map1(0, 0x100, 1); put8("fill.bin", fill); t(".fopen \"fill.bin\" fp\n.fread fp fill\n.emptyfill fill\n");
  for (i = 1; i < 7; i++) v[i] = val(VN[i], i == 4 ? 2 : i == 6 ? 1 : W[i], &ok, bad == i);
  W[4] = 3 * m; for (i = o = 0; i < 6; i++) { off[i] = o; o += W[i]; } S = o; L = sz ? S + 3 : S;
  t(".struct in\nx dw\ny db\n.endst\n.struct s%s\nname ds 4\nage db\nfar dl\nweight: dw\np instanceof in %d\nq dd\n.endst\n", sz == 1 ? msg(" size %d", L) : "", m);
  if (form == 0) { for (n = i = 0; i < 6; i++) { given[i] = bad ? i == bad || (i == 4 && bad == 6) : i == 0 || i == 5 || i == 2 ? vf_choice(msg("given %s", FN[i]), 2) : (i == 4 || vf_choice("others given", 1) == 0); n += given[i]; } } else { n = bad ? 6 : vf_choice("given", 6) + 1; for (i = 0; i < 6; i++) given[i] = i < n; }
  at(0, 3); if (sec) t(".section \"a\" force\n"); t(".db $5a\n.dstruct %s instanceof s%s%s %s", lab == 2 ? "" : "w", sz == 2 ? msg(" size %d", L) : "", lab == 1 ? " nolabels" : "", form == 0 ? "values\n" : form == 1 ? "data" : ""); for (i = 0; i < L; i++) M[i] = fill;
#define X(k) msg("%s%s%s", late == 0 ? "k" : late == 3 ? "l" : "x", VN[k], late == 2 ? "+1-1" : "")
  if (form == 0) for (j = 0; j < 6; j++) { i = order == 0 ? j : order == 1 ? 5 - j : (j * 5 + 2) % 6; if (!given[i]) continue; if (i == 0) { t("name: .db \"tin\"\n"); memcpy(M, "tin", 3); } else if (i == 4) { if (m == 1 && order == 0) { t("p.x: .dw %s\n", X(4)); t("p.y: .db %s\n", X(6)); } else if (m == 1) { t("p: .dw %s\n", X(4)); t(".db %s\n", X(6)); } else if (order == 0) { t("p.2.y: .db %s\n", X(6)); t("p.1.x: .dw %s\n", X(4)); } else { t("p.2 .db 7\n.db 8\n.db %s\n", X(6)); t("p.1: .dw %s\n", X(4)); } o = off[4]; put(o, v[4], 2); M[o + 3 * m - 1] = v[6]; if (m == 2 && order) { M[o + 3] = 7; M[o + 4] = 8; } } else { t("%s: %s %s\n", FN[i], DIR[i], X(i)); put(off[i], v[i], W[i]); } }
  else { const char *s = " "; for (i = 0; i < n; i++) { o = off[i]; if (i == 0) { t(" \"tin\""); memcpy(M, "tin", 3); } else if (i == 4) { t("%s%s", s, X(4)); t("%s%s", s, X(6)); put(o, v[4], 2); M[o + 2] = v[6]; if (m == 2) { t("%s$1234%s9", s, s); put(o + 3, 0x1234, 2); M[o + 5] = 9; } } else { t("%s%s", s, X(i)); put(o, v[i], W[i]); } s = ", "; } t("\n"); }
  if (form == 0) t(".endst\n"); t(".db $a5\n"); if (sec) t(".ends\n"); n = 4 + L + 1; /* references to the labels */
  if (lab == 0) { t(".org $60\n.dw w, w.name, w.age, w.far, w.weight, w.p, w.q, w.p%s.x, w.p%s.y, _sizeof_w, _sizeof_w.name, _sizeof_w.age, _sizeof_w.p\n", m == 2 ? ".2" : "", m == 2 ? ".2" : ""); }
  t(".org $a0\n.dw fr\n.section \"free\" free\nfr: .db $77, $77, $77, $77\n.ends\n"); if (late == 3) for (i = 1; i < 7; i++) t(".define l%s = k%s\n", VN[i], VN[i]);
  tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(clean(r), "the assembler ends properly");
  if (!r) { if (late == 1 || late == 2) { for (i = 1; i < 7; i++) t(".define x%s = k%s\n.export x%s\n", VN[i], VN[i], VN[i]); { char *p = strstr(T, ".BANK 0"), *q = strstr(T, ".define x"); int l = TL - (int)(q - T); memcpy(p, q, l); TL = (int)(p - T) + l; } tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(r == 0, "second file"); if (r) return 0; } r = linkf(late == 1 || late == 2 ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(clean(r), "the linker ends properly"); }
  vf_assert((r == 0) == ok, "fitting values are accepted, others refused"); if (r) { vf_reach("refused"); return 0; } get("out.bin"); a = vf_concrete(le(0xa0, 2)); if (BIG) a = (a & 255) << 8 | a >> 8; vf_assert((a >= 5 + L) & (a < 0xfd) & (a + 4 <= 0x60 || a >= 0x7a), "free section outside the structure"); P = a; BIG = 0; want(0x77777777, 4, "free section"); BIG = cpu; for (i = 0; i < 4; i++) OUT[a + i] = fill; P = 0xa0; want(a, 2, "free section"); OUT[0xa0] = OUT[0xa1] = fill;
  P = 0; wantto(3, fill, "before"); want(0x5a, 1, "before"); for (i = 0; i < L; i++) want(M[i], 1, "structure"); want(0xa5, 1, "after");
  if (lab == 0) { wantto(0x60, fill, "gap"); P = 0x60; want(4, 2, "w"); for (i = 0; i < 6; i++) want(4 + off[i], 2, FN[i]); a = 4 + off[4] + 3 * (m - 1); want(a, 2, "p.x"); want(a + 2, 2, "p.y"); want(L, 2, "size"); want(4, 2, "size of name"); want(1, 2, "size of age"); want(3 * m, 2, "size of p"); } wantto(0x100, fill, "after"); vf_reach("ok"); return 0;
}
}
