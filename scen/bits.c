/* D02: bit fields of several widths with symbolic values, immediate, imported, calculated at link time or defined later. */
#include "common.h"
static const unsigned char PAT[][9] = {{1, 7}, {3, 5, 8}, {6, 4, 4}, {12, 4, 20}, {13, 17, 1}, {31, 3, 6}, {24, 9}, {1, 1, 1, 2, 10}, {9, 9, 9, 9}, {5}, {16, 8, 7}, {2, 32, 3}};
int main() {
  int cpu = vf_param("cpu", 0), late = vf_param("late", 0), sec = vf_param("sec", 0), bad = vf_param("bad", 0), p = vf_choice("pattern", 12), n = 0, i, k, r, ok = 1, bits = 0, which = -1, mode[9], W[9], NB[9]; unsigned v[9]; static unsigned char stream[32];
  while (n < 9 && PAT[p][n]) n++;
  if (bad) which = vf_choice("bad", n);
  tn(); map1(0, 0x400, 2);
  for (i = 0; i < n; i++) { int w = PAT[p][i], nb = (w + 7) / 8, top = (i == which) ? 255 : (1 << ((w - 1) % 8 + 1)) - 1;
    if (i == which && w % 8 == 0 && nb < 4) { nb++; top = 1; } if (nb == 4 && top > 127) top = 127;
    for (v[i] = k = 0; k < nb; k++) v[i] |= (unsigned)vf_range(msg("v%d_%d", i, k), 0, k == nb - 1 ? top : 255) << (8 * k);
    W[i] = w; NB[i] = nb; mode[i] = late == 4 ? (i + p) % 4 : late; defsym(msg("k%d", i), v[i], nb); if (w < 32) ok &= (v[i] >> w) == 0; }
  if (sec == 2) t(".bank 0 slot 0\n.section \"BANKHEADER\"\n"); else { at(0, 4); if (sec) t(".section \"s\" force\n"); }
  t(".db 165\n"); for (i = 0; i < n; i++) { if (i == 1 && W[0] == W[1]) t(", "); else t(i ? "\n.bits %d " : ".bits %d data ", W[i]); t(mode[i] == 2 ? "x%d+0" : mode[i] == 0 ? "k%d" : mode[i] == 1 ? "x%d" : "l%d", i); }
  t("\n.endbits\n.db 90\n"); if (sec) t(".ends\n"); for (i = 0; i < n; i++) if (mode[i] == 3) t(".define l%d = k%d\n", i, i);
  tput("a.s"); r = asmf(cpu ? "wla-6800" : "wla-z80", "a.s", "a.o"); vf_assert(clean(r), "the assembler ends properly");
  if (!r) { tn(); map1(0, 0x400, 2); for (i = 0; i < n; i++) { defsym(msg("x%d", i), v[i], NB[i]); t(".export x%d\n", i); }
    tput("b.s"); r = asmf(cpu ? "wla-6800" : "wla-z80", "b.s", "b.o"); vf_assert(r == 0, "second file"); r = linkf("a.o\nb.o\n", "out.bin"); vf_assert(clean(r), "the linker ends properly"); }
  vf_assert((r == 0) == ok, "values that fit are accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
  get("out.bin"); for (i = 0; i < n; i++) for (k = W[i] - 1; k >= 0; k--, bits++) stream[bits / 8] |= ((v[i] >> k) & 1) << (7 - bits % 8);
  vf_assert(OUTN == 0x800 + (sec == 2 ? 2 + (bits + 7) / 8 : 0), "size"); i = sec == 2 ? 0 : 4; vf_assert(OUT[i] == 165, "before"); vf_assert(vf_eqmem(OUT + i + 1, stream, (bits + 7) / 8), "bits"); vf_assert(OUT[i + 1 + (bits + 7) / 8] == 90, "after");
  vf_reach("ok"); return 0;
}
