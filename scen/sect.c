/* S01: placement of sections in banks of 32 bytes. */
#include "common.h"
enum { FREE, SEMIFREE, SEMISUBFREE, SUPERFREE, FORCE, SEMISUPERFREE, NT };
static const char *TN[] = {"free", "semifree", "semisubfree", "superfree", "force", "semisuperfree"};
static struct S { int type, bank, org, size, align, offset, lo, hi, bits, addr, inbank; } s[4];
static int used[3][32], ns, B = 32, base = 0x4000;
/* may the section occupy the bank from there? */
static int allowed(struct S *x, int bank, int at) { int i; if (at < 0 || at + x->size > B) return 0; if (x->type <= SEMISUBFREE || x->type == FORCE) if (bank != x->bank) return 0; if (x->type == SEMIFREE && at - x->offset < x->org) return 0; if (x->type == SEMISUBFREE && at + x->size > x->org) return 0; if (x->type == FORCE && at != x->org) return 0;
  if (x->type != FORCE) { if ((at - x->offset) % x->align || at < x->offset) return 0; if (x->hi) { if (base + at < x->lo || base + at > x->hi || base + at + x->size > x->hi) return 0; } if (x->bits && ((base + at) >> x->bits) != ((base + at + x->size - 1) >> x->bits)) return 0; }
  for (i = 0; i < x->size; i++) if (used[bank][at + i]) return 0; return 1; }
int main() {
  int kind = vf_param("kind", 0), banks = kind == 0 ? 1 : 2, o1, n1, i, j, r, can = -1, b, a, sum = 0; const char *c = "wla-z80";
  tn(); map1(base, B, banks);
  if (kind == 2) { /* overwriting, and sections of a stated size */
    int n = vf_choice("n", 5) + 1, o = vf_choice("o", 31), k = vf_choice("k", 4) * 2 + 1, m = vf_choice("m", 6) * 5 + 1, ow = vf_choice("overwrite", 2), sized = vf_choice("sized", 2), len, f = -1; put8("n.bin", n); put8("o.bin", o); put8("k.bin", k); put8("m.bin", m); t(".fopen \"n.bin\" fn\n.fread fn n\n.fopen \"o.bin\" fo\n.fread fo o\n.fopen \"k.bin\" fk\n.fread fk k\n.fopen \"m.bin\" fm\n.fread fm m\n"); if (ow) vf_assume((m == 6) & !sized); if (!sized) vf_assume(k == 7);
    t(".bank 0 slot 0\n"); if (ow) t(".org 8\n.dsb 8, $11\n"); t(".bank 0 slot 0\n.org o\n.section \"o\" %s %s\n.dsb n, $A0\n.ends\n.bank 0 slot 0\n.org 0\n%s", sized ? "size k" : "", ow ? "overwrite" : "force", ow ? "" : ".section \"m\" free\n.dsb m, $A1\n.ends\n"); r = build(c); vf_assert(clean(r % 100), "both end properly"); n = vf_concrete(n); o = vf_concrete(o); m = vf_concrete(m); k = vf_concrete(k); len = sized ? k : n;
    if (n > len || o + len > B) { vf_assert(r != 0, "a section beyond its size or its bank is refused"); vf_reach("refused"); return 0; } if (!ow && (m > o && m > B - o - len)) { vf_assert(r != 0, "no room is refused"); vf_reach("refused"); return 0; } vf_assert(r == 0, "a section that fits is placed"); if (r) return 0;
    for (i = 0; i < B && f < 0; i++) if (OUT[i] == 0xA1) f = i; if (ow) f = B; else vf_assert(f >= 0, "the free section is in the image"); if (!ow) vf_assert(f + m <= o || f >= o + len, "the free section is outside the other"); vf_assert(ow || f + m <= B, "the free section is inside the bank"); { int bad = 0; for (i = 0; i < B; i++) { int e = i >= o && i < o + n ? 0xA0 : i >= f && i < f + m ? 0xA1 : ow && i >= 8 && i < 16 ? 0x11 : 0; bad |= OUT[i] != e; } vf_assert(!bad, "contents of the bank"); } vf_reach("ok"); return 0; }
  o1 = vf_choice("o1", 4) * 7; n1 = vf_choice("n1", 3) * 4; if (kind == 1) { n1 = vf_choice("n1b", 2) * 3; }
  if (kind == 0) { static const int AL[] = {1, 2, 8}; ns = 1; s[0].type = vf_param("type", 0); s[0].bank = 0; s[0].org = s[0].type == FREE || s[0].type >= SUPERFREE ? 3 : vf_choice("org", 3) * 9 + 4; s[0].size = vf_range("size", 1, vf_param("max", 14)); s[0].align = AL[vf_choice("align", 3)]; s[0].offset = vf_choice("offset", 2) * 3; switch (vf_choice("window", 3)) { case 1: s[0].lo = base + 6; s[0].hi = base + 22; break; case 2: s[0].bits = 3; break; } }
  if (kind == 1) { static const unsigned char C[][3] = {{FREE, FREE, FREE}, {SUPERFREE, SUPERFREE, SUPERFREE}, {FORCE, FREE, SEMIFREE}, {SEMISUBFREE, SEMIFREE, FREE}, {SEMISUPERFREE, SUPERFREE, FREE}, {FORCE, SUPERFREE, SEMISUBFREE}, {FREE, SEMISUPERFREE, FORCE}}; int k = vf_param("combo", 0); ns = 3; for (i = 0; i < 3; i++) { s[i].type = C[k][i]; s[i].bank = i == 2 ? vf_choice("bank", 2) : 0; s[i].org = s[i].type == SEMISUBFREE ? 20 : 9; s[i].size = vf_concrete(vf_choice(msg("size%d", i), vf_param("max", 5))) * 3 + 1; s[i].align = i == 1 ? 1 + vf_choice("align", 2) * 3 : 1; } }
  for (i = 0; i < ns; i++) { put8(msg("n%d.bin", i), s[i].size); t(".fopen \"n%d.bin\" f%d\n.fread f%d n%d\n", i, i, i, i); }
  if (n1) { t(".bank 0 slot 0\n.org %d\n.dsb %d, $11\n", o1, n1); for (i = 0; i < n1 && o1 + i < B; i++) used[0][o1 + i] = 1; }
  for (i = 0; i < ns; i++) { t(".bank %d slot 0\n.org %d\n.section \"s%d\" %s", s[i].bank, s[i].org, i, ""); if (s[i].align > 1) t(" align %d", s[i].align); if (s[i].offset) t(" offset %d", s[i].offset); t(" %s", TN[s[i].type]); if (s[i].type == SEMISUPERFREE) t(kind == 0 ? " banks 0" : " banks 1/0"); if (s[i].hi) t(" window $%x $%x", s[i].lo, s[i].hi); if (s[i].bits) t(" bitwindow %d", s[i].bits); t("\nL%d: .dsb n%d, $%x\nE%d:\n.ends\n", i, i, 0xA0 + i, i); }
  /* the table of addresses, in a bank of its own kind of place: the last bytes of the image are kept for it by a second ROM bank */
  tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(clean(r), "the assembler ends properly"); if (!r) { r = linkf("a.o\n[definitions]\nZ 1\n", "out.bin"); vf_assert(clean(r), "the linker ends properly"); }
  for (i = 0; i < ns; i++) { s[i].size = vf_concrete(s[i].size); sum += s[i].size; }
  if (o1 + n1 > B) { vf_assert(r != 0, "code beyond its bank is refused"); vf_reach("refused"); return 0; }
  if (kind == 0) { can = 0; for (a = 0; a < B; a++) can |= allowed(&s[0], 0, a); vf_assert((r == 0) == can, "a section that fits is placed, others refused"); }
  if (r) { if (kind == 1 && n1 == 0 && s[0].type == FREE && s[1].type == FREE && s[1].align == 1) { int in0 = s[0].size + s[1].size + (s[2].bank ? 0 : s[2].size), in1 = s[2].bank ? s[2].size : 0; vf_assert(in0 > B || in1 > B, "free sections that fit together are placed"); } vf_reach("refused"); return 0; }
  get("out.bin"); vf_assert(OUTN == banks * B, "size"); for (b = 0; b < banks; b++) for (a = 0; a < B; a++) used[b][a] = b == 0 && a >= o1 && a < o1 + n1;
  for (i = 0; i < ns; i++) { int f = -1; for (j = 0; j < banks * B && f < 0; j++) if (OUT[j] == 0xA0 + i) f = j; vf_assert(f >= 0, "the section is in the image"); if (f < 0) return 0; vf_assert(allowed(&s[i], f / B, f % B), msg("section %d (%s) is at an allowed place, overlapping nothing", i, TN[s[i].type])); for (j = 0; j < s[i].size; j++) { vf_assert(OUT[f + j] == 0xA0 + i, "contents of the section"); if (f + j < banks * B) used[(f + j) / B][(f + j) % B] = 1; } }
  { int bad = 0; for (b = 0; b < banks; b++) for (a = 0; a < B; a++) { if (!used[b][a]) bad |= OUT[b * B + a] != 0; else if (b == 0 && a >= o1 && a < o1 + n1) bad |= OUT[a] != 0x11; } vf_assert(!bad, "the rest of the image"); }
  vf_reach("ok"); return 0;
}
