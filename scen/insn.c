/* I01, I03: every instruction form of one CPU, operands symbolic: constant (late=0), imported (1), imported in an expression (2), defined later in the file (3), a label (4). */
#include "common.h"
#define STR2(x) #x
#define STR(x) STR2(x)
#include CPUH
static int late, wdc, hints; static unsigned M, D, B, C, S, Wd, V, H, L, F, G, Tt;
static const char *nameof(char k) { static char n[16]; const char *h = ""; if (late && hints) h = k == 'b' || k == 'c' ? ".b" : k == 'h' ? ".w" : k == 'l' ? ".l" : ""; sprintf(n, late == 2 ? "v%c%s+0" : "v%c%s", k, h); return n; }
static unsigned char E[1 << 16]; static int EN; static int OFF[6000], IDX[6000], NI;
static int anyof(const char *s, const char *set) { for (; *s; s++) if (strchr(set, *s)) return 1; return 0; }
static void e1(unsigned v) { E[EN++] = (unsigned char)v; }
static void defs(void) {
  defsym("vb", B, 1); defsym("vc", C, 1); defsym("uvs", S + 128, 1); defsym("vw", Wd, 2); defsym("vv", V, 2); defsym("vh", H, 2); defsym("vl", L, 3); defsym("uvf", F + 16, 1); defsym("vg", G, 1); defsym("vm", M, 1); defsym("vd", D, 1); defsym("vt", Tt, 2);
  t(".redefine vs uvs-128\n.redefine vf uvf-16\n");
}
int main() {
  const char *cpu = "wla-" STR(CPUN); int r, i, k, parts = vf_param("parts", 1), part = vf_param("part", 0), n; unsigned size;
  late = vf_param("late", 0); wdc = vf_param("wdc", 0); size = late == 4 ? 0x10000 : 0x8000; hints = strstr(cpu, "65") || strstr(cpu, "680") || strstr(cpu, "628");
  B = vf_u8("b"); C = vf_u8("c"); S = vf_range("s", -128, 127); Wd = vf_range("w", 0, 65535); V = vf_range("v", 0, 65535); H = vf_range("h", 256, 65535); L = vf_range("l", 0x10000, 0xffffff); F = vf_range("f", -16, 15); G = vf_range("g", 16, 127); M = vf_range("m", 0, 127); D = vf_u8("d"); Tt = vf_range("t", 0, 8191);
  if (!strcmp(cpu, "wla-6809")) { /* the assembler tells 5-bit values apart; all small or all others */
    int small = vf_choice("small", 2); vf_assume(((B < 16) == small) & ((C < 16) == small) & ((D < 16) == small) & ((Wd < 16) == small) & ((V < 16) == small) & ((Tt < 16) == small) & ((M < 17) == small) & (((int)S >= -16) & ((int)S < 16)) == small); }
  for (n = 0; INSN[n * 2]; n++) ;
  tn(); map1(0, size, late == 4 ? 2 : 1);
  if (late == 1 || late == 2) { defs(); t(".export vb,vc,vs,vw,vv,vh,vl,vg,vt\n"); tput("b.s"); r = asmf(cpu, "b.s", "b.o"); vf_assert(r == 0, "exports"); if (r) return 0; tn(); map1(0, 0x8000, 1); }
  else if (late == 0) defs();
  at(0, 0); if (!strcmp(cpu, "wla-65816")) t(".accu 8\n.index 8\n"); if (wdc) t(".wdc\n");
  for (i = n * part / parts; i < n * (part + 1) / parts; i++) {
    const char *x = INSN[i * 2], *e = INSN[i * 2 + 1]; if ((*x == '!') != wdc) continue; x += wdc; if (late == 4 && anyof(e, "slftmdg")) continue; if ((late == 2 || late == 4) && strstr(x, "PCR")) continue; if (late && (strchr(e, 'f') || strchr(e, 'm') || strchr(e, 'd') || (strchr(e, 't') && strstr(x, "%t.")))) continue;
    t("  "); for (; *x; x++) if (*x == '%') t("%s", nameof(*++x)); else tch(*x); t("\n");
    if (e[0] == 'C' && e[1] == '2' && !strcmp(cpu, "wla-65816")) t(".accu 8\n.index 8\n"); if (e[0] == 'E' && e[1] == '2' && !strcmp(cpu, "wla-65816")) t(".accu 8\n.index 8\n");
    OFF[NI] = EN; IDX[NI++] = i;
    for (k = 0; e[k];) switch (e[k]) {
      case 'b': e1(B); k++; break; case 'c': e1(C); k++; break; case 's': e1(strstr(INSN[i * 2], "%g") ? G : S); k++; break; case 'g': e1(G); k++; break; case 'm': e1(0 - M); k++; break; case 'd': e1(D); k++; break;
      case 'w': e1(Wd); e1(Wd >> 8); k++; break; case 'v': e1(V); e1(V >> 8); k++; break; case 'h': e1(H); e1(H >> 8); k++; break; case 'W': e1(Wd >> 8); e1(Wd); k++; break; case 'H': e1(H >> 8); e1(H); k++; break;
      case 'l': e1(L); e1(L >> 8); e1(L >> 16); k++; break;
      case 'f': { int pb = (e[k + 1] - '0') * 16; int h1 = e[k + 1] <= '9' ? e[k + 1] - '0' : e[k + 1] - 'A' + 10, h0 = e[k + 2] <= '9' ? e[k + 2] - '0' : e[k + 2] - 'A' + 10; pb = h1 * 16 + h0; e1(pb | (F & 31)); k += 3; break; }
      case 't': { int bit = e[k + 1] - '0'; unsigned x = Tt | (unsigned)bit << 13; e1(x); e1(x >> 8); k += 2; break; }
      default: { int h1 = e[k] <= '9' ? e[k] - '0' : e[k] - 'A' + 10, h0 = e[k + 1] <= '9' ? e[k + 1] - '0' : e[k + 1] - 'A' + 10; e1(h1 * 16 + h0); k += 2; } }
  }
  OFF[NI] = EN;
  if (late == 3) defs();
  if (late == 4) { /* labels in another bank, at the operands' values */
    static char o[] = "bcwvh"; unsigned v[5]; v[0] = B; v[1] = C; v[2] = Wd; v[3] = V; v[4] = H;
    for (i = 0; i < 5; i++) { char nm[8]; sprintf(nm, "o%c", o[i]); defsym(nm, v[i], 2); t(".bank 1 slot 0\n.org %s\nv%c:\n", nm, o[i]); } }
  tput("a.s"); r = asmf(cpu, "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0;
  r = linkf(late == 1 || late == 2 ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin");
  for (i = 0; i < NI; i++) vf_assert(vf_eqmem(OUT + OFF[i], E + OFF[i], OFF[i + 1] - OFF[i]), msg("bytes of instruction %s", INSN[IDX[i] * 2]));
  for (i = EN, k = 1; i < size; i++) k &= OUT[i] == 0; vf_assert(k, "nothing after the code"); vf_assert(OUTN == (late == 4 ? 2 * size : size), "size");
  vf_reach("ok"); return 0;
}
