/* A zero divisor is refused, immediately and at link time; any other divisor is fine. */
#include "common.h"
int main() {
  int late = vf_choice("late", 3), op = vf_choice("op", 4), a, b, r; unsigned v; a = vf_range("a", 0, 65535); b = vf_range("b", 0, 4);
  if (late == 1) { tn(); map1(0, 0x40, 1); defsym("A", a, 2); defsym("B", b, 1); t(".export A, B\n"); tput("b.s"); r = asmf("wla-z80", "b.s", "b.o"); vf_assert(r == 0, "exports"); if (r) return 0; }
  tn(); map1(0, 0x40, 1); if (!late) { defsym("A", a, 2); defsym("B", b, 1); } at(0, 0);
  t(op == 0 ? ".dd A/B\n" : op == 1 ? ".dd A#B\n" : op == 2 ? ".dd 7+(A/(B*2))*8\n" : ".dd 1+A#(B&3)\n"); if (late == 2) { defsym("A", a, 2); defsym("B", b, 1); }
  tput("a.s"); r = asmf("wla-z80", "a.s", "a.o"); vf_assert(clean(r), "assembler ends by itself"); if (!r) { r = linkf(late == 1 ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(clean(r), "linker ends by itself"); }
  vf_assert((r == 0) == (op == 3 ? (b & 3) != 0 : b != 0), "refused exactly for a zero divisor"); if (r) { vf_reach("refused"); return 0; }
  get("out.bin"); v = le(0, 4);
  if (op == 0) vf_assert(v == (unsigned)(a / b), "quotient"); else if (op == 1) vf_assert(v == (unsigned)(a % b), "modulo"); else if (op == 2) { if ((b & 1) == 0 && (b & (b - 1)) == 0) vf_assert(v == 7u + (unsigned)((double)a / (b * 2) * 8), "exact quotient"); } else vf_assert(v == 1u + (unsigned)(a % (b & 3)), "1+modulo");
  vf_reach(late == 0 ? "ok0" : late == 1 ? "ok1" : "ok2"); return 0;
}
