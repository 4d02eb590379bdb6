/* B01: what wlab prints assembles to the file it was given. */
#include "common.h"
int main() {
  static const char *OPT[] = {"-b", "-d", "-h", "-ab", "-pd", "-aph", "-ha", "-pab", "-da", "-apd"}; static const int LEN[] = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 25, 256, 4096}; static const int BO[] = {0, 3, 7}, NO[] = {1, 2, 4, 5, 6, 8, 9}, BL[] = {0, 2, 9}; static unsigned char d[8192]; static char txt[1 << 17];
  int bad = vf_param("bad", 0), part = vf_param("part", 0), o = bad ? 0 : part ? BO[vf_choice("options", 3)] : NO[vf_choice("options", 7)], l = bad ? 7 : part ? BL[vf_choice("length", 3)] : LEN[vf_choice("length", vf_param("big", 0) ? 13 : 11)], i, r, n, dec = o == 1 || o == 4 || o == 8 || o == 9, bin = o == 0 || o == 3 || o == 7, max = bin ? 1 : dec ? 2 : 3, at0 = bad ? 0 : vf_choice("at", part ? 2 : 3);
  for (i = 0; i < l; i++) { int s = at0 == 0 ? i < max : at0 == 1 ? i >= l - max : i >= 7 && i < 7 + max; d[i] = s ? vf_u8(msg("b%d", i)) : i * 37 + (i >> 8); }
  vf_put("f.bin", d, l);
  if (bad) { int k = vf_choice("kind", 6); r = k == 0 ? vf_run("wlab", "-b", "none.bin", (char *)0) : k == 1 ? vf_run("wlab", "f.bin", (char *)0) : k == 2 ? vf_run("wlab", "-ap", "f.bin", (char *)0) : k == 3 ? vf_run("wlab", "-bx", "f.bin", (char *)0) : k == 4 ? vf_run("wlab", (char *)0) : vf_run("wlab", "-bd", "f.bin", (char *)0); vf_assert(r == 1, "refused"); vf_reach("refused"); return 0; }
  r = vf_run("wlab", OPT[o], "f.bin", (char *)0); vf_assert(r == 0, "the converter succeeds"); n = vf_get("@out", txt, sizeof txt); vf_assert(n >= 0 && n < (int)sizeof txt, "some text");
  tn(); map1(0, 0x2000, 1); at(0, 3); memcpy(T + TL, txt, n); TL += n; t(".db 77\n"); r = build("wla-z80"); vf_assert(r == 0, "the text assembles"); if (r) return 0;
  P = 0; wantto(3, 0, "before"); vf_assert(vf_eqmem(OUT + 3, d, l), "bytes"); P += l; want(77, 1, "after"); wantto(0x2000, 0, "after"); vf_reach("ok"); return 0;
}
