/* I02: every relative branch form of one CPU, target at a symbolic distance. kind: 0 label after, 1 label before, 2 anonymous forward, 3 anonymous backward, 4 label of another object, 5 label plus a number. wide: 16-bit displacements over the whole address space. */
#include "common.h"
#define STR2(x) #x
#define STR(x) STR2(x)
#include CPUH
static int hx(char c) { return c <= '9' ? c - '0' : c - 'A' + 10; }
int main() {
  const char *cpu = "wla-" STR(CPUN), *x, *e; int r, i, n, k, base, kind = vf_param("kind", 0), wide = vf_param("wide", 0), sec = vf_param("sec", 0), wdc = vf_param("wdc", 0), sel[200], ns = 0, at0, len, T, B, fits, big = strstr(cpu, "680") != 0, d, p; unsigned sb = wide ? 0 : 0x4000, size = wide ? 0x10000 : 0x1000, tgt;
  for (n = 0; RELI[n * 2]; n++) if (!(wide && strstr(cpu, "ce02") && !strstr(RELI[n * 2], "BSR") && !strstr(RELI[n * 2], ".W")) && (strchr(RELI[n * 2 + 1], 'R') != 0) == wide && (strchr(RELI[n * 2], '<') || strchr(RELI[n * 2], '|')) == wdc) sel[ns++] = n;
  vf_note("rows", ns); n = sel[vf_concrete(vf_choice("row", ns))]; x = RELI[n * 2]; e = RELI[n * 2 + 1];
  at0 = wide ? 0x8123 : 0x6f0; T = vf_range("t", 0, size - 16); B = vf_u8("b");
  for (k = len = 0; e[k];) if (e[k] == 'r' || e[k] == 'b') { len++; k++; } else if (e[k] == 'R') { len += 2; k++; } else { len++; k += 2; }
  tn(); map1(sb, size, 2); defsym("o", T, 2);
  if (kind == 4) { at(1, 0); t(".org o\ntgt:\n"); tput("b.s"); r = asmf(cpu, "b.s", "b.o"); vf_assert(r == 0, "other object"); if (r) return 0; tn(); map1(sb, size, 2); }
  defsym("b", B, 1); if (kind == 2) vf_assume(T >= at0 + len); if (kind == 3) vf_assume(T <= at0);
  if (kind == 1 || kind == 3) { at(1, 0); t(".org o\n%s\n", kind == 1 ? "tgt:" : "-"); }
  at(1, at0); if (wdc) t(".wdc\n"); if (sec) t(".section \"S\" %s\n", "force"); t("  "); for (; *x; x++) if (*x == '%') { x++; t(*x == 'b' ? "b" : kind == 2 ? "+" : kind == 3 ? "-" : kind == 5 ? "tgt+3" : "tgt"); } else tch(*x); t("\n"); if (sec) t(".ends\n");
  if (kind == 0 || kind == 2 || kind == 5) { t(".org o\n%s\n", kind == 2 ? "+" : "tgt:"); }
  tput("a.s"); r = asmf(cpu, "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0;
  r = linkf(kind == 4 ? "b.o\na.o\n" : "a.o\n", "out.bin"); vf_assert(clean(r), "ends normally");
  tgt = sb + T + (kind == 5 ? 3 : 0); base = sb + at0 + len; d = (int)tgt - base;
  if (wide && strstr(cpu, "ce02")) d++; /* the 65CE02 counts word displacements from the address of their second byte */
  fits = wide ? (d >= -32768) & (d <= 32767) : (d >= -128) & (d <= 127);
  vf_assert(r == 0 || !fits, msg("a target within reach is accepted: %s", RELI[n * 2])); if (!wide) vf_assert(r != 0 || fits, msg("a target out of reach is refused: %s", RELI[n * 2]));
  if (r) { vf_reach("refused"); return 0; }
  get("out.bin"); p = size + at0; vf_assert(OUTN == 2 * size, "size");
  for (k = 0; e[k];) switch (e[k]) {
    case 'b': vf_assert(OUT[p] == (B & 255), msg("operand of %s", RELI[n * 2])); p++; k++; break;
    case 'r': vf_assert(OUT[p] == (d & 255), msg("displacement of %s", RELI[n * 2])); p++; k++; break;
    case 'R': vf_assert(lebe(big, p, 2) == (d & 65535), msg("displacement of %s", RELI[n * 2])); p += 2; k++; break;
    default: vf_assert(OUT[p] == hx(e[k]) * 16 + hx(e[k + 1]), msg("opcode of %s", RELI[n * 2])); p++; k += 2; }
  vf_reach(fits ? "ok" : "far"); return 0;
}
