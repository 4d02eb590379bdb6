/* A02: bank maps, bases and console mapping modes. */
#include "common.h"
int main() {
  int cpu = vf_param("cpu", 0), kind = vf_param("kind", 0), other, r, i; const char *c = cpu == 0 ? "wla-z80" : "wla-65816"; static char head[4000]; int hl;
  if (kind == 0) { static const int SZ[] = {0x40, 0x80, 0x100}; int z[4], nb[4], groups = vf_param("groups", 1), total = 0, off[16], size[16], x, base = vf_u8("base"), o, how = vf_choice("how", 5), pick, pos, slot, sb, q;
    other = groups < 3 ? vf_choice("other", 2) : vf_param("other", 0);
    for (i = 0; i < groups; i++) { z[i] = SZ[vf_choice(msg("size%d", i), 3)]; nb[i] = vf_choice(msg("banks%d", i), 2) + 1; }
    for (i = x = 0; i < groups; i++) { int k; for (k = 0; k < nb[i]; k++) { off[total] = x; size[total++] = z[i]; x += z[i]; } }
    tn(); t(".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $0 $40\nSLOT 1 $4000 $80\nSLOT 2 $8000 $100\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL %d\n", total); for (i = 0; i < groups; i++) t("BANKSIZE $%x\nBANKS %d\n", z[i], nb[i]); t(".ENDRO\n"); memcpy(head, T, TL); hl = TL;
    pick = vf_concrete(vf_range("bank", 0, total - 1)); slot = size[pick] == 0x40 ? 0 : size[pick] == 0x80 ? 1 : 2; sb = slot * 0x4000; o = vf_range("o", 0, groups == 1 ? 6 : groups == 2 ? 3 : 1); put8("o.bin", o); t(".fopen \"o.bin\" fo\n.fread fo o\n"); defsym("bs", base, 1); vf_assume(base + pick < 256);
    /* a marker in the first and last byte of every bank but the picked one */
    for (i = 0; i < total; i++) if (i != pick) { int sl = size[i] == 0x40 ? 0 : size[i] == 0x80 ? 1 : 2; t(".bank %d slot %d\n.org 0\n.db %d\n.org %d\n.db %d\n", i, sl, i + 1, size[i] - 1, i + 101); }
    if (how < 4) t(".base bs\n"); if (how < 3) t(".bank %d slot %d\n.org o\n", pick, slot); if (how == 1) t(".section \"s\" force\n"); if (how == 2) t(".section \"s\" free\n"); if (how == 3) t(".section \"s\" bank %d slot %d org o force\n", pick, slot); if (how == 4) t(".section \"s\" base bs bank %d slot %d org o force\n", pick, slot); t("A: .db $A1\nB: .db $B1\n"); if (how) t(".ends\n"); t(".base 0\n");
    if (other) { tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(r == 0, "assembles"); if (r) return 0; memcpy(T, head, hl); TL = hl; }
    q = pick ? 0 : total - 1; if (q == pick) q = 0; i = size[q] == 0x40 ? 0 : size[q] == 0x80 ? 1 : 2; pos = off[q] + 0x20; t(".bank %d slot %d\n.org $20\n.dw A, B+1\n.dl A, B\n.db :A, :B\n.dl B+1\n.dd A\n", q, i);
    tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0; r = linkf(other ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin"); vf_assert(OUTN == x, "size");
    { int A, pa; P = pos; A = le(P, 2); if (how != 2) vf_assert(A == sb + o, "address"); want(A, 2, "address"); want(A + 2, 2, "address"); want(A + ((base + pick) << 16), 3, "long address"); want(A + 1 + ((base + pick) << 16), 3, "long address"); want(base + pick, 1, "bank"); want(base + pick, 1, "bank"); 
      P += 7; pa = vf_concrete(A - sb); vf_assert((pa >= 0) & (pa < size[pick]), "inside the bank"); vf_assert(OUT[off[pick] + pa] == 0xA1, "bytes after A"); vf_assert(OUT[off[pick] + pa + 1] == 0xB1, "bytes after B");
      for (i = 0; i < total; i++) if (i != pick) vf_assert((OUT[off[i]] == i + 1) & (OUT[off[i] + size[i] - 1] == i + 101), "bank markers"); { int cnt = 0; for (i = 0; i < x; i++) cnt += OUT[i] != 0 && !(i >= pos && i < P); vf_assert(cnt == 2 + 2 * (total - 1), "nothing else written"); } } vf_reach("ok"); return 0; }
  { /* SNES modes */
    int mode = vf_param("mode", 0), bank, banks = 4, base = vf_u8("base"), bs = mode == 0 || mode == 2 ? 0x8000 : 0x10000, sb = bs == 0x8000 ? 0x8000 : 0, o = vf_range("o", 0, 3), how = vf_choice("how", 4), A, pa, where = vf_choice("where", 3), late = vf_choice("late", 2), cnt = 0; static const char *M[] = {".LOROM", ".HIROM", ".EXLOROM", ".EXHIROM"};
    int oo[3]; other = vf_choice("other", 2); oo[0] = 0x120; oo[1] = bs / 2 + 0x100; oo[2] = bs - 0x40; tn(); t(".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $%x $%x\nSLOT 1 $2000 $1000\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL %d\nBANKSIZE $%x\nBANKS %d\n.ENDRO\n", sb, bs, banks, bs, banks); if (late == 0) t("%s\n", M[mode]); else t(".SNESHEADER\n%s\n.ENDSNES\n", M[mode] + 1); memcpy(head, T, TL); hl = TL;
    bank = vf_choice("bank", banks); vf_assume(base + bank < 256); put8("o.bin", o); t(".fopen \"o.bin\" fo\n.fread fo o\n"); defsym("bs", base, 1); t(".base bs\n.bank %d slot 0\n.org o+%d\n", bank, oo[where]); if (how == 1) t(".section \"s\" force\n"); if (how == 2) t(".section \"s\" semifree\n"); t("A: .db $A1\nB: .db $B1\n"); if (how == 1 || how == 2) t(".ends\n"); t(".base 0\n"); if (how == 3) t(".ramsection \"r\" base bs bank %d slot 1 orga $2345 force\nv db\n.ends\n", bank);
    if (other) { tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(r == 0, "assembles"); if (r) return 0; memcpy(T, head, hl); TL = hl; }
    t(".bank %d slot 0\n.org $20\n.dw A, B+1\n.dl A, B\n.db :A, :B\n.dl B+1\n  jml A\n  lda.l A,x\n", bank ? 0 : 1); if (how == 3) t(".dl v\n.db :v\n"); tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0; r = linkf(other ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin"); vf_assert(OUTN == banks * bs, "size");
    P = (bank ? 0 : 1) * bs + 0x20; A = le(P, 2); if (how != 2) vf_assert(A == sb + oo[where] + o, "address"); want(A, 2, "address"); want(A + 2, 2, "address"); want(A + ((base + bank) << 16), 3, "long address"); want(A + 1 + ((base + bank) << 16), 3, "long address"); want(base + bank, 1, "bank"); want(base + bank, 1, "bank"); P += 3; want(0x5c, 1, "jump"); want(A + ((base + bank) << 16), 3, "long address"); want(0xbf, 1, "load"); want(A + ((base + bank) << 16), 3, "long address"); if (how == 3) { want(0x2345 + ((base + bank) << 16), 3, "address in RAM"); want(base + bank, 1, "bank of RAM"); }
    pa = vf_concrete(A - sb); vf_assert((pa >= 0) & (pa < bs), "inside the bank"); vf_assert((OUT[bank * bs + pa] == 0xA1) & (OUT[bank * bs + pa + 1] == 0xB1), "bytes at A"); (void)cnt; (void)i; vf_reach("ok"); }
  return 0;
}
