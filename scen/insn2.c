/* I01, I03: one instruction with an 8-bit or 16-bit operand of any value: accepted exactly when it fits, with the right bytes. late: 0 constant, 1 imported, 2 imported in a calculation, 3 defined later. */
#include "common.h"
#define STR2(x) #x
#define STR(x) STR2(x)
#include CPUH
static int hx(char c) { return c <= '9' ? c - '0' : c - 'A' + 10; }
int main() {
  const char *cpu = "wla-" STR(CPUN), *x, *e; int r, i, n, k, c, late = vf_param("late", 0), v, ok, sel[3000], ns = 0, step = vf_param("step", 1), off = vf_param("off", 0), hints = strstr(cpu, "65") || strstr(cpu, "680") || strstr(cpu, "628"), w; unsigned char E[16];
  v = vf_range("v", late & 1 ? -32768 : -70000, late & 1 ? 65535 : 70000); /* 16-bit references of the linker wrap: D01's finding */
  for (n = 0; INSN[n * 2]; n++) { x = INSN[n * 2]; e = INSN[n * 2 + 1]; c = 0; for (k = 0; x[k]; k++) c += x[k] == '%'; if (c != 1 || *x == '!') continue;
    if (strstr(x, "%b") && strchr(e, 'b') && (!hints || strstr(x, "#") || strstr(x, ".B "))) ; else if (strstr(x, "%w") && (strchr(e, 'w') || strchr(e, 'W')) && (!hints || strstr(x, ".W ") || strstr(x, "#"))) ; else if (!late && strstr(x, "%s") && strchr(e, 's')) ; else continue;
    if (n % step == off % step && ns < 3000) sel[ns++] = n; }
  vf_note("rows", ns); if (!ns) { vf_reach("none"); return 0; }
  n = sel[vf_concrete(vf_choice("row", ns))]; x = INSN[n * 2]; e = INSN[n * 2 + 1]; w = strchr(e, 'b') ? 1 : strchr(e, 's') ? 0 : 2;
  tn(); map1(0, 0x8000, 1); defsym("u", v + 131072, 3);
  if (late == 1 || late == 2) { t(".redefine ev u-131072\n.export ev\n"); tput("b.s"); r = asmf(cpu, "b.s", "b.o"); vf_assert(r == 0, "exports"); if (r) return 0; tn(); map1(0, 0x8000, 1); }
  else if (late == 0) t(".redefine ev u-131072\n");
  at(0, 0); t("  "); for (; *x; x++) if (*x == '%') { t("ev"); if (late && hints) t(w == 1 ? ".b" : ".w"); if (late == 2) t("+0"); x++; } else tch(*x); t("\n");
  if (late == 3) { t(".redefine ev u-131072\n"); }
  tput("a.s"); r = asmf(cpu, "a.s", "a.o"); if (r == 0) r = linkf(late == 1 || late == 2 ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(clean(r), "ends normally");
  if (!strchr(INSN[n * 2], '#') && hints) vf_assume(v >= 0); /* negative addresses: not claimed */ ok = w == 0 ? (v >= -128) & (v <= 127) : w == 1 ? (v >= -128) & (v <= 255) : (v >= -32768) & (v <= 65535);
  vf_assert(r == 0 || !ok, msg("a value that fits is accepted: %s", INSN[n * 2])); vf_assert(r != 0 || ok, msg("a value that does not fit is refused: %s", INSN[n * 2]));
  if (r) { vf_reach("refused"); return 0; }
  for (k = i = 0; e[k];) switch (e[k]) { case 'b': case 's': E[i++] = v; k++; break; case 'w': E[i++] = v; E[i++] = v >> 8; k++; break; case 'W': E[i++] = v >> 8; E[i++] = v; k++; break; default: E[i++] = hx(e[k]) * 16 + hx(e[k + 1]); k += 2; }
  get("out.bin"); vf_assert(vf_eqmem(OUT, E, i), msg("bytes of %s", INSN[n * 2])); vf_reach("ok"); return 0;
}
