/* S03: variables and RAM sections. */
#include "common.h"
enum { FREE, SEMIFREE, SEMISUBFREE, FORCE };
static const char *TN[] = {"free", "semifree", "semisubfree", "force"};
static struct S { int type, bank, org, size, align, offset, lo, hi, bits, at; } s[4];
static int used[3][32], ns, B = 32, base;
static int allowed(struct S *x, int at) { int i; if (at < 0 || at + x->size > B) return 0; if (x->type == SEMIFREE && at - x->offset < x->org) return 0; if (x->type == SEMISUBFREE && at + x->size > x->org) return 0; if (x->type == FORCE && at != x->org + x->offset) return 0;
  if (x->type != FORCE) { if ((base + at - x->offset) % x->align || at < x->offset) return 0; if (x->hi) { if (base + at < x->lo || base + at > x->hi || base + at + x->size > x->hi) return 0; } if (x->bits && ((base + at) >> x->bits) != ((base + at + x->size - 1) >> x->bits)) return 0; }
  for (i = 0; i < x->size; i++) if (used[x->bank][at + i]) return 0; return 1; }
static void num(const char *nn, int v) { char n[32]; strcpy(n, nn); put8(msg("%s.bin", n), v); t(".fopen \"%s.bin\" f_%s\n.fread f_%s %s\n", n, n, n, n); }
static void header(int size) { tn(); t(".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $0 $100\nSLOT 1 $%x $%x\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL 1\nBANKSIZE $100\nBANKS 1\n.ENDRO\n", base, size); }
int main() {
  int kind = vf_param("kind", 0), i, r, j, cpu = vf_param("cpu", 0); const char *c = cpu ? "wla-65816" : "wla-z80";
  base = vf_param("base", 0xC000); if (kind == 0) { int n = vf_range("n", 0, 2), m = vf_range("m", 1, 2), k = vf_choice("k", 3) + 1, o = vf_choice("o", 4) * 2, bank = vf_choice("bank", 2) * 2, ty = vf_param("type", 0), al = vf_choice("align", 2), a, x; static char head[1000]; int hl, two = vf_choice("objects", 2); header(0x100); memcpy(head, T, TL); hl = TL;
    num("n", n); num("m", m); num("o", o); if (ty != FORCE && ty != SEMIFREE) vf_assume(o == 6); if (al) vf_assume((o & 3) == 0 || ty == FREE || ty == SEMISUBFREE); t(".struct pt\nx dw\ny db\n.endst\n"); if (ty == FORCE) t(".ramsection \"v\" bank %d slot 1 orga $%x+o %sforce\n", bank, base, al ? "align 4 " : ""); else if (ty == SEMIFREE) t(".ramsection \"v\" bank %d slot 1 org o %ssemifree\n", bank, al ? "align 4 " : ""); else if (ty == FREE) t(".ramsection \"v\" bank %d slot 1%s\n", bank, al ? " align 4" : ""); else t(".ramsection \"v\" bank %d slot $%x %sorg 80 semisubfree\n", bank, base, al ? "align 4 " : "");
    t("a db\nb dsb n\n. db\nc: dw\nd dsw m\ne instanceof pt\nf instanceof pt %d\n", k); if (al) t(".align 4\n"); t("g ds n\nh byte\ng2 word\nz db\n.ends\n"); 
    if (two) { tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(r == 0, "assembles"); if (r) return 0; memcpy(T, head, hl); TL = hl; }
    t(".bank 0 slot 0\n.org 8\n.db 1\n.dw a, b, c, d, e, e.x, e.y, f%s, f%s.y, f%s.x, f%s.y, g, h, g2, z, z+1\n.db :a, :z\n.dw _sizeof_b, _sizeof_d, _sizeof_e, _sizeof_f, _sizeof_c\n", k > 1 ? ".1" : "", k > 1 ? ".1" : "", k == 1 ? "" : k == 2 ? ".2" : ".3", k == 1 ? "" : k == 2 ? ".2" : ".3"); tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0; r = linkf(two ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin");
    P = 8; want(1, 1, "marker"); a = le(P, 2); if (ty == FORCE || ty == SEMIFREE) vf_assert(a == base + o, "address of the section"); vf_assert((a >= base) & (a < base + 0x60), "inside the slot"); x = a; want(x, 2, "a"); x++; want(x, 2, "b"); x += n + 1; want(x, 2, "c"); x += 2; want(x, 2, "d"); x += 2 * m; want(x, 2, "e"); want(x, 2, "e.x"); want(x + 2, 2, "e.y"); x += 3; want(x, 2, "f"); want(x + 2, 2, "f.1.y"); x += 3 * (k - 1); want(x, 2, "f.x"); want(x + 2, 2, "f.y"); x += 3; if (al) x = a + ((x - a + 3) & ~3);
    want(x, 2, "g"); x += n; want(x, 2, "h"); x += 1; want(x, 2, "g2"); want(x + 2, 2, "z"); want(x + 3, 2, "z+1"); want(bank, 1, "bank"); want(bank, 1, "bank"); want(n, 2, "size of b"); want(2 * m, 2, "size of d"); want(3, 2, "size of e"); want(3 * k, 2, "size of f"); want(2, 2, "size of c"); wantto(0x100, 0, "nothing else"); vf_reach("ok"); return 0; }
  { static const unsigned char C[][3] = {{FREE, FREE, FREE}, {FORCE, FREE, SEMIFREE}, {SEMISUBFREE, SEMIFREE, FREE}, {FORCE, FORCE, FREE}, {FREE, SEMISUBFREE, FORCE}}; static const int AL[] = {1, 4, 8}; int single = kind == 1, k = vf_param("combo", 0), can = 0, a, o1 = vf_choice("o1", single ? 4 : 1) * 7, n1 = vf_choice("n1", single ? 3 : 1) * 4; header(B); ns = single ? 1 : 3;
    for (i = 0; i < ns; i++) { s[i].type = single ? vf_param("type", 0) : C[k][i]; s[i].bank = !single && i == 2 ? vf_choice("bank", 2) : single && vf_choice("otherbank", 2) ? 1 : 0; s[i].org = single ? s[i].type == FREE ? 0 : vf_choice("org", 3) * 9 + 4 : s[i].type == SEMISUBFREE ? 20 : 9 + i; s[i].size = single ? vf_range("size", 1, vf_param("max", 14)) : vf_concrete(vf_choice(msg("size%d", i), vf_param("max", 4))) * 3 + 1; s[i].align = single ? AL[vf_choice("align", 3)] : i == 1 && s[i].type != FORCE ? 1 + vf_choice("align", 2) * 3 : 1; if (s[i].type == FORCE) vf_assume((base + s[i].org) % s[i].align == 0); s[i].offset = single ? vf_choice("offset", 2) * 3 : 0; if (single) switch (vf_choice("window", 3)) { case 1: s[0].lo = base + 6; s[0].hi = base + 22; break; case 2: s[0].bits = 3; break; } }
    for (i = 0; i < ns; i++) num(msg("n%d", i), s[i].size); if (single && n1) { t(".ramsection \"o\" bank 0 slot 1 org %d force\nO dsb %d\n.ends\n", o1, n1); for (i = 0; i < n1 && o1 + i < B; i++) used[0][o1 + i] = 1; }
    for (i = 0; i < ns; i++) { t(".ramsection \"s%d\" bank %d slot 1", i, s[i].bank); if (s[i].type) t(" org %d", s[i].org); if (s[i].align > 1) t(" align %d", s[i].align); if (s[i].offset) t(" offset %d", s[i].offset); t(" %s", TN[s[i].type]); if (s[i].hi) t(" window $%x $%x", s[i].lo, s[i].hi); if (s[i].bits) t(" bitwindow %d", s[i].bits); t("\nL%d dsb n%d-1\nE%d db\n.ends\n", i, i, i); }
    t(".bank 0 slot 0\n.org 8\n.db 1\n"); for (i = 0; i < ns; i++) t(".dw L%d, E%d\n", i, i); r = build(c); vf_assert(clean(r % 100), "both end properly"); for (i = 0; i < ns; i++) s[i].size = vf_concrete(s[i].size);
    if (single && o1 + n1 > B) { vf_assert(r != 0, "variables beyond the slot are refused"); vf_reach("refused"); return 0; } if (single) { for (a = 0; a < B; a++) can |= allowed(&s[0], a); vf_assert((r == 0) == can, "a section that fits is placed, others refused"); }
    if (r) { vf_reach("refused"); return 0; } P = 8; want(1, 1, "marker"); for (i = 0; i < ns; i++) { a = vf_concrete(le(P, 2)) - base; P += 2; want(base + a + s[i].size - 1, 2, "last variable"); vf_assert(allowed(&s[i], a), msg("section %d (%s) is at an allowed place, overlapping nothing", i, TN[s[i].type])); for (j = 0; j < s[i].size; j++) if (a >= 0 && a + j < B) used[s[i].bank][a + j] = 1; } wantto(0x100, 0, "nothing in the image"); vf_reach("ok"); }
  return 0;
}
