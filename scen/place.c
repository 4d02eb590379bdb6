/* A01: where labels and their bytes end up. */
#include "common.h"
int main() {
  int cpu = vf_param("cpu", 0), kind = vf_choice("kind", 9), other = vf_param("other", 0), r, o, n, m, k, base0 = vf_range("base0", 0, 0xf) * 0x1000, base1 = vf_range("base1", 0, 0xfe00), b, s, base, pa, pb, pc, pd, A, B, bankA, i, cnt = 0; const char *c = cpu == 0 ? "wla-z80" : cpu == 1 ? "wla-6800" : "wla-65816"; BIG = cpu == 1;
  tn(); defsym("b0", base0, 2); defsym("b1", base1, 2); defsym("k", k = vf_u8("k"), 1); t(".MEMORYMAP\nDEFAULTSLOT 0\nSLOTSIZE $100\nSLOT 0 b0\nSLOT 1 b1"); t("\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL 3\nBANKSIZE $100\nBANKS 3\n.ENDRO\n");
  { int hl = TL; static char head[1000]; memcpy(head, T, TL);
  o = vf_range("o", 0, vf_param("omax", 6)); n = vf_range("n", 0, vf_param("nmax", 2)); b = vf_param("bank", 0); s = vf_choice("slot", 2); base = s ? base1 : base0; m = s * 5;
  put8("o.bin", o); put8("n.bin", n); t(".fopen \"o.bin\" fo\n.fread fo o\n.fopen \"n.bin\" fn\n.fread fn n\n"); 
  if (kind == 6 || kind == 7) t(".bank 0 slot 0\n.org 0\n"); else t(".bank %d slot %d\n", b, s);
  if (kind == 0 || kind == 2 || (kind >= 3 && kind <= 5)) t(kind == 4 ? ".org o+8\n" : ".org o\n"); if (kind == 1) { t(".orga o+b%d", s); t("\n"); } if (kind == 8) t(".org 40\n");
  if (kind == 0 || kind == 1) { if (m) t(".dsb %d, $EE\n", m); } else { t(".section \"S\" "); if (kind == 2) t("force"); if (kind == 3) t("free"); if (kind == 4) t("semifree"); if (kind == 5) t("superfree"); if (kind == 6) t("bank %d slot %d org o force", b, s); if (kind == 7) { t("bank %d slot %d orga o+b%d force", b, s, s); } if (kind == 8) t("semisubfree"); t("\n"); if (m) t(".dsb %d, $EE\n", m); }
  t("A: .db $A1\n.if n > 0\n.dsb n, $EE\n.endif\nB: .db $B1\n"); if (kind >= 2) t(".ends\n"); else t("C: .db $C1\n.org 90\nD: .db $D1\n"); if (kind == 2 || kind == 6 || kind == 7) t(kind == 2 ? "C: .db $C1\n" : "");
  if (other) { tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(r == 0, "assembles"); if (r) return 0; memcpy(T, head, hl); TL = hl; }
  t(".bank 0 slot 0\n.org $80\n"); if (other == 2) t(".section \"refs\" force\n"); t(".db 1"); t("\n.dw A, B, B-A, A+k\n.db :A, :B, :B+1, <B, >B, lobyte(A+1), bank(A)\n"); if (kind <= 2) t(".dw C\n"); if (kind < 2) t(".dw D\n.db :D\n"); if (other == 2) t(".ends\n"); 
  tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0; }
  r = linkf(other ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin"); vf_assert(OUTN == 0x300, "size");
  P = 0x80; want(1, 1, "marker"); A = lebe(BIG, P, 2); P += 2; B = lebe(BIG, P, 2); P += 2; bankA = OUT[0x89]; want(n + 1, 2, "B-A"); want(A + k, 2, "A+k"); 
  if (kind != 5) vf_assert(bankA == b, "bank of A"); else { vf_assert(bankA < 3, "bank of A"); b = vf_concrete(bankA); } want(b, 1, "bank of A"); want(b, 1, "bank of B"); want(b + 1, 1, "bank of B, plus one"); want(B, 1, "low byte"); want(B >> 8, 1, "high byte"); want(A + 1, 1, "low byte of A+1"); want(b, 1, "bank()");
  pa = A - base; pb = B - base; vf_assert((pa >= 0) & (pa < 0x100) & (pb >= 0) & (pb < 0x100), "inside the slot"); if (kind == 0 || kind == 1 || kind == 2 || kind == 6 || kind == 7) vf_assert(pa == o + m, "A at the stated place"); if (kind == 4) vf_assert(pa >= o + 8 + m, "after the origin"); if (kind == 8) vf_assert(pb < 40, "before the origin");
  vf_assert(pb == pa + n + 1, "B after A"); pa = vf_concrete(pa); pb = vf_concrete(pb); vf_assert(OUT[b * 0x100 + pa] == 0xA1, "bytes after A"); vf_assert(OUT[b * 0x100 + pb] == 0xB1, "bytes after B");
  for (i = pa - m; i < pa; i++) vf_assert(OUT[b * 0x100 + i] == 0xEE, "bytes before A"); for (i = pa + 1; i < pb; i++) vf_assert(OUT[b * 0x100 + i] == 0xEE, "bytes between");
  if (kind <= 2) { pc = lebe(BIG, P, 2) - base; P += 2; vf_assert(pc == pb + 1, "C after B"); pc = pb + 1; vf_assert(OUT[b * 0x100 + pc] == 0xC1, "bytes after C"); }
  if (kind < 2) { pd = lebe(BIG, P, 2) - base; P += 2; vf_assert(pd == 90, "D at its origin"); vf_assert(OUT[b * 0x100 + 90] == 0xD1, "bytes after D"); want(b, 1, "bank of D"); }
  for (i = 0; i < 0x300; i++) cnt += OUT[i] != 0 && (i < 0x80 || i >= P) ? 1 : 0;
  vf_assert(cnt == m + n + 2 + (kind <= 2) + (kind < 2), "nothing else written"); vf_reach("ok"); return 0;
}
