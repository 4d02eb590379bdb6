/* S02: priorities, appended sections and sections after others. */
#include "common.h"
static int find(int v) { int i; for (i = 0; i < OUTN; i++) if (OUT[i] == v) return i; return -1; }
int main() {
  int kind = vf_param("kind", 0), i, j, r, n[4], p[4], at[4], B = 64, base = 0x4000, two = vf_choice("objects", 2), bad = 0, total = 0, ram = vf_param("ram", 0); const char *c = "wla-z80"; static char head[1000]; int hl;
  tn(); map1(base, B, 2); memcpy(head, T, TL); hl = TL;
  if (kind == 0) { static const char *TY[] = {"free", "semifree", "superfree", "semisubfree", ""}; int ty = vf_choice("type", 5), autop = vf_choice("auto", 2), cnt = 3; const char *ex = vf_choice("align", 2) ? " align 1" : "";
    for (i = 0; i < cnt; i++) { n[i] = vf_choice(msg("n%d", i), 3) + 1; p[i] = autop ? 65535 - i : vf_range(msg("p%d", i), 0, 6) - 3; if (!autop) { put8(msg("p%d.bin", i), p[i] + 3); t(".fopen \"p%d.bin\" f%d\n.fread f%d p%d\n", i, i, i, i); } }
    for (i = 0; i < cnt; i++) { t(".bank 0 slot 0\n.org %d\n.section \"s%d\"%s %s %s", ty == 3 ? 60 : ty == 1 ? 8 : 0, i, ex, TY[ty], autop ? "autopriority" : "priority "); if (!autop) t("p%d-3", i); t("\nL%d: .dsb %d, $%x\n.ends\n", i, n[i], 0xA0 + i); total += n[i]; }
    r = build(c); vf_assert(r == 0, "builds"); if (r) return 0; 
    for (i = 0; i < cnt; i++) { at[i] = find(0xA0 + i); vf_assert(at[i] >= 0, "present"); for (j = 0; j < n[i]; j++) vf_assert(OUT[at[i] + j] == 0xA0 + i, "contents"); }
    for (i = 0; i < cnt; i++) for (j = 0; j < cnt; j++) { int before = (p[i] > p[j]) | ((p[i] == p[j]) & (n[i] > n[j])); vf_assert(!before | (at[i] < at[j]), "higher priorities, then larger sections come first"); }
    vf_reach("ok"); return 0; }
  if (kind == 1) { /* sections appended to a base section; the base somewhere in a bank behind code */
    static const char *TY[] = {"free", "force", "superfree", "semifree"}; int ty = vf_param("type", 0), nb = vf_range("nb", 1, 2), chain = vf_choice("chain", 3), first = vf_choice("first", 2), o = vf_range("o", 0, vf_param("omax", 1)), k = vf_u8("k"), pos; put8("nb.bin", nb); put8("o.bin", o); t(".fopen \"nb.bin\" fn\n.fread fn nb\n.fopen \"o.bin\" fo\n.fread fo o\n"); memcpy(head, T, TL); hl = TL;
    for (i = 0; i < 2; i++) { n[i] = i ? 2 : vf_choice(msg("n%d", i), 2) + 1; p[i] = vf_range(msg("p%d", i), 0, 2); put8(msg("p%d.bin", i), p[i]); } n[2] = 1;
    t(".bank 1 slot 0\n.org o\n"); if (!first) t(".section \"Base\" %s\nL9: .dsb nb, $99\nE9:\n.ends\n", TY[ty]); if (two) { tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(r == 0, "assembles"); if (r) return 0; memcpy(T, head, hl); TL = hl; t(".bank 1 slot 0\n.org o\n"); }
    for (i = 0; i < 2; i++) t(".fopen \"p%d.bin\" f%d\n.fread f%d p%d\n.section \"s%d\" free %s appendto \"Base\" priority p%d\nL%d: .dsb %d, $%x\nE%d: .ends\n", i, i, i, i, i, i ? "returnorg" : "", i, i, n[i], 0xA0 + i, i);
    if (chain) t(".section \"s2\" free appendto \"%s\"\nL2: .dsb 1, $A2\nE2: .ends\n", chain == 1 ? "s0" : "s1"); if (first) { if (two) { tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(r == 0, "assembles"); if (r) return 0; memcpy(T, head, hl); TL = hl; } t(".bank 1 slot 0\n.org o\n.section \"Base\" %s\nL9: .dsb nb, $99\nE9:\n.ends\n", TY[ty]); }
    t(".bank 0 slot 0\n.org $20\n.db 1\n.dw L9, L0, L1, E0, E1\n.db :L0, :L1\n"); if (chain) t(".dw L2\n"); tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0; r = linkf(two ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin");
    nb = vf_concrete(nb); pos = find(0x99); vf_assert(pos >= 0, "base present"); if (ty == 1) vf_assert(pos == B + o, "base at its origin"); P = 0x20; want(1, 1, "marker"); i = ty == 2 ? pos / B : 1; want(base + pos - i * B, 2, "address of the base"); 
    { int a0 = le(P, 2) - base, a1 = le(P + 2, 2) - base, b0 = pos - i * B + nb, c0 = chain == 1, c1 = chain == 2, e0 = le(P + 4, 2) - base, e1 = le(P + 6, 2) - base, first0 = vf_concrete(a0 < a1); vf_assert(!(p[0] > p[1]) | first0, "priority of appended sections"); vf_assert(!(p[1] > p[0]) | !first0, "priority of appended sections"); vf_assert((e0 == a0 + n[0]) & (e1 == a1 + n[1]), "labels at the ends");
      if (chain == 0) vf_assert(first0 ? (a0 == b0) & (a1 == b0 + n[0]) : (a1 == b0) & (a0 == b0 + n[1]), "appended directly"); vf_assert((OUT[P + 8] == i) & (OUT[P + 9] == i), "banks"); P += 10; if (chain) { int a2 = le(P, 2) - base; vf_assert(a2 == (c0 ? e0 : e1) , "appended directly to an appended section"); a2 = vf_concrete(a2); vf_assert(OUT[i * B + a2] == 0xA2, "contents"); vf_assert(first0 ? (a0 == b0) & (a1 == b0 + n[0] + c0) : (a1 == b0) & (a0 == b0 + n[1] + c1), "appended directly"); }
      a0 = vf_concrete(a0); a1 = vf_concrete(a1); for (j = 0; j < n[0]; j++) vf_assert(OUT[i * B + a0 + j] == 0xA0, "contents"); for (j = 0; j < n[1]; j++) vf_assert(OUT[i * B + a1 + j] == 0xA1, "contents"); } (void)k; (void)bad; vf_reach("ok"); return 0; }
  { /* AFTER with an offset */
    static const char *TY[] = {"free", "force", "superfree", "semifree", "semisubfree"}; int ty = vf_choice("type", 5), nb = vf_range("nb", 1, 3), o = vf_range("o", 0, 5), off = vf_range("off", 0, 6), first = vf_choice("first", 2), pos, q, b; put8("nb.bin", nb); put8("o.bin", o); put8("off.bin", off); t(".fopen \"nb.bin\" fn\n.fread fn nb\n.fopen \"o.bin\" fo\n.fread fo o\n.fopen \"off.bin\" fx\n.fread fx off\n");
    for (i = 0; i < 2; i++) { t(".bank %d slot 0\n.org %s\n", (i == 0) == first ? 1 : 0, ty == 4 ? "40" : (i == 0) == first ? "o" : "1"); if ((i == 0) == first) t(".section \"Base\" %s\nL9: .dsb nb, $99\n.ends\n", TY[ty]); else t(".section \"f\" offset off after \"Base\"\nL0: .db $A0, $A1\n.ends\n"); }
    t(".bank 0 slot 0\n.org $20\n.db 1\n.dw L9, L0\n.db :L0\n"); r = build(c); vf_assert(r == 0, "builds"); if (r) return 0; (void)two; pos = find(0x99); q = find(0xA0); nb = vf_concrete(nb); vf_assert((pos >= 0) & (q >= 0), "present"); b = pos / B; vf_assert(q == pos + nb + off, "follows its base at the offset"); vf_assert(OUT[q + 1] == 0xA1, "contents"); P = 0x20; want(1, 1, "marker"); want(base + pos - b * B, 2, "address"); want(base + q - b * B, 2, "address"); want(b, 1, "bank"); vf_reach("ok"); (void)ram; }
  return 0;
}
