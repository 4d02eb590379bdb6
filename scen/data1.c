/* D01: one value inside a data statement, immediate or known only at link time, every width. */
#include "common.h"
static const char *DIR[4][3] = {{"db", "byt", "byte"}, {"dw", "word", "addr"}, {"dl", "long", "faraddr"}, {"dd", "dd", "dd"}};
static const int LO[] = {-128, -32768, -8388608}, HI[] = {255, 65535, 16777215};
static const unsigned K[] = {0x8000, 0x20000, 0x1800000, 0};
int main() {
  static const char *CPUS[] = {"wla-z80", "wla-6800", "wla-65816"};
  const char *cpu = CPUS[vf_param("cpu", 0)], *ex; int big = vf_param("cpu", 0) == 1, w = vf_choice("width", 4), mode = vf_choice("mode", 6), r, v, fits, n = w + 1; unsigned u;
  if (w == 0) u = vf_range("u", 0, 0xffff); else if (w == 1) u = vf_range("u", 0, 0x5ffff); else if (w == 2) u = vf_range("u", 0, 0x3ffffff); else { u = vf_range("u", 0, 0x7fffffff); u |= (unsigned)vf_range("top", 0, 1) << 31; if (vf_param("known_dd32", 0)) vf_assume((int)u >= 0); /* recorded finding: numbers from 2^31 on are not converted */ }
  v = (int)(u - K[w]); fits = w == 3 ? 1 : (v >= LO[w]) & (v <= HI[w]);
  tn(); if (mode >= 1 && mode <= 2) { /* another object exports the value */
    map1(0, 0x20, 1); defsym("u", u, 4); t(".define ext u-%u\n.export ext\n", K[w]); tput("b.s"); r = asmf(cpu, "b.s", "b.o"); vf_assert(r == 0, "exporting object assembles"); if (r) return 0; tn(); }
  map1(0, 0x20, 1);
  if (mode == 0 || mode == 3 || mode == 5) { defsym("u", u, 4); if (mode != 5) t(".define val u-%u\n", K[w]); }
  at(0, 0); if (vf_param("sec", 0)) t(".section \"S\" force\n"); t("zero:\n.db $5a\n");
  ex = mode == 0 ? "val" : mode == 1 ? "ext" : mode == 2 ? "ext+7-7" : mode == 3 ? "val+zero" : mode == 4 ? "fwd" : "fwd+0";
  if (mode == 4) { defsym("u", u, 4); }
  t(".%s 17, %s, 34\n.db $a5\n", DIR[w][(mode * 2) % 3], ex);
  if (vf_param("sec", 0)) t(".ends\n");
  if (mode >= 4) t(".define fwd u-%u\n", K[w]);
  tput("a.s"); r = asmf(cpu, "a.s", "a.o");
  vf_assert(clean(r), "assembler ends with success or an error");
  if (r == 0) { r = linkf(mode == 1 || mode == 2 ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(clean(r), "linker ends with success or an error"); }
  if (vf_param("known_linktrunc", 0) & ((mode == 1) | (mode == 4)) & (w < 3)) { /* recorded finding: only the low 16 or 24 bits of a bare definition count at link time */
    if (w == 0) fits = fits | ((v & 0xffff) <= 255); else fits = 1; }
  vf_assert((r == 0) == fits, msg("accepted exactly when it fits: width %d mode %d", w, mode));
  if (r) { vf_reach("refused"); return 0; }
  get("out.bin"); vf_assert(OUTN == 0x20, "image size");
  vf_assert(lebe(big, 1, n) == 17, "value before"); vf_assert(lebe(big, 1 + 2 * n, n) == 34, "value after"); vf_assert((OUT[0] == 0x5a) & (OUT[1 + 3 * n] == 0xa5), "neighbours");
  vf_assert(((lebe(big, 1 + n, n) ^ (unsigned)v) & maskn(n)) == 0, "the value's bytes"); vf_reach(msg("ok%d%d", w, mode)); return 0;
}
