/* L06: bytes nobody wrote hold the declared fill value. */
#include "common.h"
#define BS 0x80
static int W[4 * BS]; /* expected bytes: -1 image fill, -2 fill inside a section of a.s, else index+1 into V */
static unsigned V[8];
static void w(int at, int v) { W[at] = v; }
int main() {
  int kind = vf_choice("kind", 18), dec = vf_param("dec", 0), i, r, n, m, a_decl = dec == 0 || dec == 1 || dec == 4 || dec >= 6, b_decl = dec >= 2 && dec <= 4, lo = 0, hi = 4 * BS, neg = dec == 6, lk = 0; unsigned f, fa, fi, d; const char *cpu = vf_param("cpu", 0) == 1 ? "wla-65816" : vf_param("cpu", 0) ? "wla-68000" : "wla-z80", *secs = "", *flag = ""; 
  tn(); f = vf_u8("f"); d = vf_range("d", 0, 253); V[1] = d; V[2] = d + 1; V[3] = d + 2; V[4] = 0; V[5] = 0x77; n = vf_choice("n", 4); m = vf_choice("m", 3);
  fval("f.bin", f, 1); fval("d.bin", d, 1); fi = dec == 5 ? 0 : f; fa = a_decl ? f : 0; if (neg) { vf_assume(f >= 128); }
  for (i = 0; i < 4 * BS; i++) w(i, -1);
#define HEAD(decl) t(".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 0 $80\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL 4\nBANKSIZE $80\nBANKS 4\n.ENDRO\n.fopen \"d.bin\" fd\n.fread fd d\n.fclose fd\n"); if (decl) { t(".fopen \"f.bin\" ff\n.fread ff f\n.fclose ff\n.emptyfill f%s\n", neg ? "-256" : ""); if (dec == 7) t(".emptyfill f\n"); }
  HEAD(b_decl) t(".bank 3 slot 0\n.org 5\n.db d+2\n"); w(3 * BS + 5, 3); tput("b.s"); r = asmf(cpu, "b.s", "b.o"); vf_assert(r == 0, "b assembles"); if (r) return 0;
  tn(); HEAD(a_decl) t(".bank 0 slot 0\n.org 0\n");
  switch (kind) {
    case 0: t(".db d\n.org %d\n.db d+1\n.org %d\n.dw 0\n", 4 + n, 60 + m); w(0, 1); w(4 + n, 2); w(60 + m, 4); w(61 + m, 4); break;
    case 1: t(".dsb %d, d\n.align %d\n.db d+1\n", n + 1, 1 << (m + 1)); for (i = 0; i <= n; i++) w(i, 1); w((n + 1 + (2 << m) - 1) / (2 << m) * (2 << m), 2); break;
    case 2: t(".org 3\n.section \"s\" force\n.dsb %d, d\n.align %d\n.db d+1\n.ends\n.db 0\n", n + 1, 1 << (m + 1)); { int e = 3 + n + 1, q = (e + (2 << m) - 1) / (2 << m) * (2 << m); for (i = 3; i < e; i++) w(i, 1); for (; i < q; i++) w(i, -2); w(q, 2); w(q + 1, 4); } break;
    case 3: t(".org 3\n.section \"s\" size %d force\n.dsb %d, d\n.ends\n.db 0\nL: .dw L\n", n + 4, n + m + 1); w(3 + n + 5, 6); w(3 + n + 6, 7); V[6] = vf_param("cpu", 0) == 2 ? 0 : n + 8; V[7] = vf_param("cpu", 0) == 2 ? n + 8 : 0; for (i = 0; i < n + m + 1; i++) w(3 + i, 1); for (; i < n + 4; i++) w(3 + i, -2); w(3 + n + 4, 4); break;
    case 4: t(".section \"s\" free align 8\n.dsb %d, d\n.ends\n.section \"u\" free align 16\n.db d+1\n.ends\n", n + 9); lk = 1; break;
    case 5: t(".struct st\nx db\ny dw\nz ds %d\n.endst\n.org 4\n.db d\n.dstruct s instanceof st values\ny: .db d\n.endst\n.db d+1\n", n + 1); w(4, 1); w(5, -2); w(6, 1); for (i = 7; i < 8 + n + 1; i++) w(i, -2); w(8 + n + 1, 2); break;
    case 6: t(".bank 2 slot 0\n.org %d\n.db d\n", 0x7c + n); w(2 * BS + 0x7c + n, 1); break;
    case 7: t(".org 8\n.section \"s\" force\n.dsb %d, d\n.ends\n", n + 1); secs = "[sections]\nbank 0 slot 0 org 8 force size 9 \"s\"\n"; for (i = 0; i <= n; i++) w(8 + i, 1); break;
    case 8: t(".db d\n.section \"s\" free\n.dsb 9, d+1\n.ends\n"); flag = "-d"; w(0, 1); break;
    case 9: t(".org 8\n.db d, d, d\n.section \"s\" bank 0 slot 0 org %d overwrite\n.db d+1\n.ends\n", 7 + n); for (i = 8; i < 11; i++) w(i, 1); w(7 + n, 2); break;
    case 10: t(".org 8\n.section \"s\" size %d force\n.db d\n.ends\n.section \"t\" size %d appendto \"s\"\n.db d+1\n.ends\n", n + 2, m + 2); w(8, 1); for (i = 1; i < n + 2; i++) w(8 + i, -2); w(8 + n + 2, 2); for (i = 1; i < m + 2; i++) w(10 + n + i, -2); break;
    case 11: t(".org %d\n.section \"s\" semisubfree size 5\n.dsb %d, d\n.ends\n", 20 + n, m + 1); lk = 3; break;
    case 12: t(".org 16\n.dsb %d, f%s\n.dsw 2, 0\n", n + 1, ""); vf_assume(a_decl && dec != 6); V[6] = f; for (i = 0; i <= n; i++) w(16 + i, 6); for (i = 0; i < 4; i++) w(17 + n + i, 4); break;
    case 13: t(".org 40\n.section \"s\" size 8 align 8 force\n.dsb %d, d\n.ends\n.org 60\n.incbin \"f.bin\"\n", n + 1); V[6] = f; for (i = 0; i < 8; i++) w(40 + i, i <= n ? 1 : -2); w(60, 6); break;
    case 14: t(".org 9\n.dstruct s instanceof st size %d values\ny: .db d\n.endst\n.db d+1\n", 5 + n); { int k = TL; (void)k; } lk = 4; break;
    case 15: t(".ramsection \"r\" bank 0 slot 0 org 4 force\nv ds 9\n.ends\n.org 2\n.db d\n.dw v+%d\n", n * 16); w(2, 1); w(3, -3); w(4, -3); V[7] = 4 + n * 16; break;
    case 16: t(".org %d\n.db d\n.org %d\n.db d+1\n", 10 + n, 30 + m); w(10 + n, 1); w(30 + m, 2); flag = "-b"; lo = 10 + n; hi = 3 * BS + 6; break;
    case 17: t(".org 1\n.db d\n.org 12\n"); t(".section \"s\" free size 6 align 8 offset 3\n.dsb %d, d+1\n.ends\n", n + 1); lk = 5; break;
  }
  if (kind == 14) { /* the structure has to be known first */ char *p = strstr(T, ".bank 0"); char tail[600]; strcpy(tail, p); TL = (int)(p - T); t(".struct st\nx db\ny dw\n.endst\n"); t("%s", tail); w(9, -2); w(10, 1); for (i = 11; i < 14 + n; i++) w(i, -2); w(14 + n, 2); }
  tput("a.s"); r = asmf(cpu, "a.s", "a.o"); vf_assert(r == 0, "a assembles"); if (r) return 0;
  tn(); t("[objects]\n%s%s", dec & 1 ? "b.o\na.o\n" : "a.o\nb.o\n", secs); tput("lf"); r = flag[0] ? vf_run("wlalink", flag, "lf", "out.bin", (char *)0) : vf_run("wlalink", "lf", "out.bin", (char *)0); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin"); vf_assert(OUTN == hi - lo, "size");
  if (lk == 1) { /* free sections: the first one where it fits, twice */ for (i = 0; i < n + 9; i++) w(i, 1); w((n + 9 + 15) / 16 * 16, 2); if (0) lo = hi; }
  if (lk == 3) { for (i = 0; i < 5; i++) w(i, i <= m ? 1 : -2); }
  if (lk == 5) { w(1, 1); for (i = 0; i < 6; i++) w(3 + i, i <= n ? 2 : -2); }
  { int ok = 1; for (i = lo; i < hi; i++) { unsigned v = OUT[i - lo]; int k = W[i]; ok &= k == -1 ? v == fi : k == -2 ? v == fa : k == -3 ? v == ((i == 3) ^ (vf_param("cpu", 0) == 2) ? V[7] : 0) : k == -5 ? v == V[6] : k == -4 ? (v == fi) | (v == fa) : v == (V[k] & 255); if ((i & 7) == 7) { vf_assert(ok, msg("bytes %x to %x", i - 7, i)); ok = 1; } } }
  vf_reach("ok"); return 0; }
