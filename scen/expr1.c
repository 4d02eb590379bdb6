/* Binary operators with every pair of operators: documented precedence, left association, real-number arithmetic. */
#include "common.h"
static const char *PLAIN[] = {"|", "&", "<<", ">>", "+", "-", "#", "~", "*", "/"}, *SPACED[] = {" | ", " & ", " << ", " >> ", " + ", " - ", " # ", " ~ ", " * ", " / "}, *LEFT[] = {" |", " &", " <<", " >>", " +", " -", " #", " ~", " *", " /"}, **OPS = PLAIN;
static const int PRI[] = {1, 3, 4, 4, 5, 5, 6, 2, 6, 6};
static double ap(int op, double a, double b) {
  switch (op) { case 0: return (int)a | (int)b; case 1: return (int)a & (int)b; case 2: return (int)((unsigned)(int)a << (int)b); case 3: return (int)a >> (int)b; case 4: return a + b; case 5: return a - b; case 6: return (int)a % (int)b; case 7: return (int)a ^ (int)b; case 8: return a * b; default: return a / b; } }
int main() {
  int big = 0, op1 = vf_choice("op1", 10), op2, n = 0, i, a, b, c, late = vf_param("late", 0); struct { int op2, form; } L[64]; const char *cpu = vf_param("cpu", 0) ? "wla-68000" : "wla-z80";
  if (vf_param("cpu", 0)) big = 1;
  OPS = vf_param("sp", 0) == 0 ? PLAIN : vf_param("sp", 0) == 1 ? SPACED : LEFT;
  a = vf_u8("a"); b = vf_range("b", 1, 255); c = vf_range("c", 1, 15);
  if (late == 1) { tn(); map1(0, 0x100, 1); defsym("A", a, 1); defsym("B", b, 1); defsym("C", c, 1); t(".export A, B, C\n"); tput("b.s"); i = asmf(cpu, "b.s", "b.o"); vf_assert(i == 0, "exports"); if (i) return 0; }
  tn(); map1(0, 0x100, 1); if (!late) { defsym("A", a, 1); defsym("B", b, 1); defsym("C", c, 1); } at(0, 0);
  for (op2 = 0; op2 < 10; op2++) {
    int shiftb = op1 == 2 || op1 == 3, form;
    for (form = 0; form < 3; form++) {
      /* keep the operands of shifts, divisions and modulos in range: only the last operand (1 to 15) may be a shift count */
      const char *x = "A", *y = shiftb ? "5" : op1 == 9 ? "8" : "B";
      if (form == 0) { if (shiftb && 0) continue; t(".dd %s%s%s%sC\n", x, OPS[op1], y, OPS[op2]); if (shiftb && PRI[op2] > PRI[op1] && (op2 != 9)) { TL -= 0; } }
      if (form == 1) t(".dd (%s%s%s)%sC\n", x, OPS[op1], y, OPS[op2]);
      if (form == 2) t(".dd 7%sC\n", OPS[op2]);
      L[n].op2 = op2; L[n].form = form; n++;
    }
  }
  if (late == 2) { defsym("A", a, 1); defsym("B", b, 1); defsym("C", c, 1); }
  tput("a.s"); i = asmf(cpu, "a.s", "a.o"); if (!i) i = linkf(late == 1 ? "b.o\na.o\n" : "a.o\n", "out.bin"); if (!i) get("out.bin");
  vf_dump("r", i);
  vf_assert(i == 0, "a constant expression is accepted"); if (i) return 0;
  for (i = 0; i < n; i++) {
    double y = (op1 == 2 || op1 == 3) ? 5 : op1 == 9 ? 8 : b, v; op2 = L[i].op2;
    if (L[i].form == 0) v = PRI[op2] > PRI[op1] ? ap(op1, a, ap(op2, y, c)) : ap(op2, ap(op1, a, y), c); else if (L[i].form == 1) v = ap(op2, ap(op1, a, y), c); else v = ap(op2, 7, c);
    vf_assert(lebe(big, 4 * i, 4) == (unsigned)(int)v, msg("A %s B %s C, form %d", OPS[op1], OPS[op2], L[i].form));
  }
  vf_reach("ok"); return 0;
}
