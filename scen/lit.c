/* Literals: every digit string of the stated length, in data, in an expression, as a definition, a count and a list item; character literals. */
#include "common.h"
static int up, form, dg[8]; static unsigned v;
static int hexu(int v) { v &= 15; { int m = -(v > 9); return (('0' + v) & ~m) | (((up ? 'A' : 'a') - 10 + v) & m); } }
static void hx(int digits) { while (digits-- > 0) tch(hexu((int)(v >> (4 * digits)))); }
static void dec(void) { int i; for (i = 0; i < 5; i++) tch('0' + dg[i]); }
static void lit(void) {
  int i;
  if (form == 0) { tch('$'); hx(4); } else if (form == 1) { t("0x"); hx(4); } else if (form == 6) { t("0X"); hx(4); } else if (form == 2) { hx(3); tch(up ? 'H' : 'h'); }
  else if (form == 3) { tch('%'); for (i = 15; i >= 0; i--) tch('0' + (int)((v >> i) & 1)); } else if (form == 4) { t("0b"); for (i = 15; i >= 0; i--) tch('0' + (int)((v >> i) & 1)); } else if (form == 5) dec(); else if (form == 7) { dec(); t(".5"); }
  else if (form == 8) { tch('\''); tch((int)v); tch('\''); } else if (form == 9) { tch('$'); hx(1); }
}
int main() {
  int r, i; form = vf_param("form", 0); up = form < 3 || form == 6 || form == 9 ? vf_choice("up", 2) : 0;
  if (form == 5 || form == 7) { v = 0; for (i = 0; i < 5; i++) { char n[8]; sprintf(n, "d%d", i); dg[i] = vf_range(n, 0, i ? 9 : 5); v = v * 10 + dg[i]; } }
  else if (form == 8) { v = vf_range("v", 32, 126); vf_assume((v != '\'') & (v != '"') & (v != '\\')); } else if (form == 2) { v = vf_range("v", 0, 0x9ff); vf_assume((v >> 4) != 0x0b); } else v = vf_range("v", 0, form == 9 ? 15 : 65535); /* 0b...h reads as a binary number */
  tn(); map1(0, 0x40, 1); at(0, 0);
  t(".dw "); lit(); t("\n.dd 3+"); lit(); t("*2\n"); if (form != 2) { t(".define X "); lit(); t("\n.dw X\n.dsw 2 "); lit(); t("\n.dw 1, "); lit(); t(", 2\n.dw ("); lit(); t(")&$ff, "); lit(); t("-1\n"); }
  r = build("wla-z80"); vf_assert(r == 0, "a literal is accepted"); if (r) return 0; P = 0;
  want(v, 2, "data"); if (form == 7) want(3 + v * 2 + 1, 4, "expression"); else want(3 + v * 2, 4, "expression"); if (form == 2) { vf_reach("ok"); return 0; }
  want(v, 2, "definition"); want(v, 2, "repeated"); want(v, 2, "repeated"); want(1, 2, "list"); want(v, 2, "list"); want(2, 2, "list"); want(v & 255, 2, "parentheses"); if (form == 7) { vf_assume(v >= 1); want(v - 1, 2, "minus"); } else want(v - 1, 2, "minus"); vf_reach("ok"); return 0;
}
