/* C01: conditional assembly. */
#include "common.h"
static unsigned a, b, ch, hasd, hasf; static int ctx, in, fl; static unsigned char E[64]; static int N;
static void pay(int id) { t(ctx == 3 || ctx == 4 || ctx == 5 ? "x%d db\n" : " .db %d\n", id); }
static void act(int id) { E[N++] = id; }
/* a condition of some kind in terms of the symbolic values; the result is its truth */
static int cond(const char *nm, int kind, int el) { static const char *OP[] = {"<", "<=", ">", ">=", "==", "!="}; static const char *D[] = {"ifle", "ifleeq", "ifgr", "ifgreq", "ifeq", "ifneq"}; int o, x, r; const char *pre = el ? "elif" : "if";
  switch (kind) {
  case 0: o = ctx ? 2 + el : vf_choice(msg("%s op", nm), 6); x = el ? 0 : vf_choice(msg("%s form", nm), 2) * 2; t(".%s ", pre); t(x == 0 ? "a %s b\n" : x == 1 ? "a+1%sb\n" : "(a*2 %s b)\n", OP[o]); x = x == 0 ? (int)a : x == 1 ? (int)a + 1 : 2 * (int)a; break;
  case 1: o = ctx ? 2 + el : vf_choice(msg("%s op", nm), 6); x = vf_choice(msg("%s form", nm), 2); t(x ? ".%s a+2, b\n" : ".%s a b\n", D[o]); x = x ? (int)a + 2 : (int)a; break;
  case 2: o = vf_choice(msg("%s not", nm), 2); t(el ? (o ? ".elif !defined(dd)\n" : ".elif defined(dd)\n") : o ? ".ifndef dd\n" : ".IfDef dd\n"); return o ? !hasd : hasd;
  case 3: t(el ? ".elif exists(\"f.bin\")\n" : ".ifexists \"f.bin\"\n"); return hasf;
  case 4: o = ctx ? 2 + el : vf_choice(msg("%s op", nm), 6); t(el ? ".elif s %s \"abc\"\n" : ".%s s \"abc\"\n", el ? OP[o] : D[o]); r = ch < 'c'; x = ch == 'c'; return o == 0 ? r : o == 1 ? r | x : o == 2 ? !(r | x) : o == 3 ? !r : o == 4 ? x : !x;
  case 5: o = vf_choice(msg("%s not", nm), 2); x = vf_choice(msg("%s arg", nm), 3) + 1; t(o ? ".ifndefm \\%d\n" : ".ifdefm \\%d\n", x); return o ? x > 2 : x <= 2;
  case 6: o = ctx ? el : vf_choice(msg("%s op", nm), 4); t(o == 0 ? ".%s a && b\n" : o == 1 ? ".%s a || b\n" : o == 2 ? ".%s !a\n" : ".%s a == 3 || b > 7 && a < 2\n", pre); return o == 0 ? (a != 0) & (b != 0) : o == 1 ? (a | b) != 0 : o == 2 ? a == 0 : (a == 3) | ((b > 7) & (a < 2));
  default: t(".%s a\n", pre); return a != 0;
  }
  { int y = (int)b; return o == 0 ? x < y : o == 1 ? x <= y : o == 2 ? x > y : o == 3 ? x >= y : o == 4 ? x == y : x != y; } }
/* text that must not have any effect when skipped */
static const char *JUNK[] = {".bogus 1, 2", ".db 70000, nothere / 0", "bad:\nbad:", ".define a = 7\n.redefine b = 9", ".macro mm\n.db 1\n.endm\n.macro mm\n.endm", ".rept nothere\n.db 7\n.endr\n.endr", ".section \"q\" free", ".org $f000\n.bank 77", ".db \"{nothere}\", {nothere}", ".include \"nothere.s\"\n.incbin \"nothere.bin\"", ".if 0/0\n.db 1\n.elif nothere\n.db 2\n.else\n.db 3\n.endif", ".ifeq s \".a\"\n.db 1\n.endif\n.db \".endif\", \".else\"", ".fail\n.print \"no\"", "}\n.db }", ".db \"\\x!\\\"\", '.', '\"', \"\\\\\"", ".ifdef nothere\n.if 1\n.endif\n.else\n.ifexists nothere\n.endif\n.endif", "-\n--\n+ jr -", ".struct a\n.endst\n.enum 3\n.ende\n.ramsection \"r\"", "\\1 \\@ \\5 .ifdefm nothere\n.endif", ".undefine a, b\n.shift\n.break\n.continue\n.endm2", ".ifgr 1\n.endif\n.ifle\n.endif .ifneq , , .endif .ifndef .endif .ifgreq .ifleeq .endif .endif", ".. . .e1 .,. , ,,"};
static void junk(const char *nm, int j) { (void)nm; t("%s\n", JUNK[j]); }
#define NJ ((int)(sizeof JUNK / sizeof *JUNK))
static void nest(int lvl, int active) { /* nested in a branch, which is active or not; for the inactive one any condition will do */
  int c; t(".if a >= 100\n"); pay(lvl + 1); t(".if b & 1\n"); pay(lvl + 2); t(".endif\n.elif a >= 50\n"); pay(lvl + 3); t(".else\n"); pay(lvl + 4); t(".endif\n"); c = (a >= 100) ? 1 : 0; if (!active) return;
  if (c) { act(lvl + 1); if (b & 1) act(lvl + 2); } else if (a >= 50) act(lvl + 3); else act(lvl + 4); }
int main() {
  int r, i, which, kind[3], tr[3], j, unb, els, nb, part; const char *c = "wla-z80"; BIG = 0; ctx = vf_param("ctx", 0); part = vf_param("part", 0); unb = vf_param("unbalanced", 0); j = part == 1 ? vf_choice("junk", NJ) : 0;
  a = vf_u8("a"); b = vf_u8("b"); ch = vf_range("ch", 'a', 'e'); i = vf_param("k0", 1); r = vf_param("k1", 7); if (part) i = r = 7; hasd = i == 2 || r == 2 ? vf_choice("defined", 2) : 1; hasf = i == 3 || r == 3 ? vf_choice("exists", 2) : 0;
  tn(); map1(0, 0x100, 1); defsym("a", a, 1); defsym("b", b, 1); if (hasd) t(".define dd 5\n"); if (hasf) put8("f.bin", 1); else vf_remove("f.bin"); t(".define s \"ab"); tch(ch); t("\"\n"); at(0, 0);
  t(".db $aa\n"); if (unb) { static const char *U[] = {".else\n", ".elif 1\n", ".endif\n", ".if a\n.db 1\n", ".if a\n.db 1\n.else\n.db 2\n", ".if a\n.if b\n.endif\n", ".if a\n.endif\n.endif\n", ".macro m\n.if a\n.db 1\n.endm\nm\n.db 3\n", ".ifeq a b\n.db 1\n.elif a > b\n.db 2\n", ".if a\n.else\n.endif\n.else\n.endif\n", ".ifdef a\n.ifexists \"q\"\n.endif\n"}; t("%s", U[vf_choice("which", 11)]); r = build(c); vf_assert(r == 1, "unbalanced conditionals are refused"); vf_reach("refused"); return 0; }
  if (ctx == 1) t(".macro m\n"); else if (ctx == 2) t(".rept 2 index q\n"); else if (ctx == 3) t(".enum $40\n"); else if (ctx == 4) t(".struct st\n"); else if (ctx == 5) t(".ramsection \"ram\" bank 0 slot 0\n"); else if (ctx == 6) t(".section \"s\" force\n"); else if (ctx == 7) t(".function fu(p)\n");
  els = vf_choice("else", 2); which = part == 1 ? vf_param("holds", 0) : -1; if (which == 3) els = 1; nb = 3;
  pay(1); for (i = 0; i < nb; i++) { if (part == 1) { static int k[] = {7, 1, 6}; if (which >= 0 && i > which) { t(".elif nothere/0 + \"x\"\n"); tr[i] = 0; } else { kind[i] = i == 0 ? 1 : k[i]; if (i == 0) { t(".ifgr a 9\n"); tr[i] = a > 9; } else if (i == 1) { t(".elif b == a\n"); tr[i] = a == b; } else { t(".elif b > 3 && a\n"); tr[i] = (b > 3) & (a != 0); } vf_assume(tr[i] == (i == which)); } }
    else { kind[i] = vf_param(i == 0 ? "k0" : i == 1 ? "k1" : "k2", i == 0 ? 1 : 7); if (ctx && i == 0 && kind[0] < 5) kind[0] = vf_choice("kind", 2) * 6; tr[i] = cond(msg("c%d", i), kind[i], i > 0); }
    pay(10 * i + 10); if (part == 1) { if (i != which) junk("j", j); if (i == 1) nest(10 * i + 10, 0); } else if (i == 1) nest(10 * i + 10, 0); if (part == 1 && i != which && vf_param("two", 1)) junk("k", (j + 5) % NJ); }
  if (els) { t(".else\n"); pay(40); if (part == 1 && which != 3) { junk("j", j); nest(40, 0); } else nest(40, 0); }
  t(".endif\n"); pay(2);
  if (ctx == 1) t(".endm\nm 1, 2\n"); else if (ctx == 2) t(".endr\n"); else if (ctx == 3) t(".ende\n"); else if (ctx == 4) t(".endst\n"); else if (ctx == 5 || ctx == 6) t(".ends\n");
  for (r = 0; r < (ctx == 2 ? 2 : 1); r++) { act(1); i = tr[0] ? 0 : tr[1] ? 1 : tr[2] ? 2 : els ? 3 : -1; if (i >= 0) { int lv = 10 * i + 10; act(lv); if (i == 1 || i == 3) { if (a >= 100) { act(lv + 1); if (b & 1) act(lv + 2); } else if (a >= 50) act(lv + 3); else act(lv + 4); } } act(2); }
  if (ctx == 3 || ctx == 4 || ctx == 5) { static const int ID[] = {1, 10, 11, 12, 13, 14, 20, 21, 22, 23, 24, 30, 31, 32, 33, 34, 40, 41, 42, 43, 44, 2}; unsigned k; if (ctx == 5) { t(".org $40\n.db x2-x1\n"); for (k = 0; k < 22; k++) { int on = 0; for (i = 0; i < N; i++) on |= E[i] == ID[k]; if (on) t(".db x%d-x1\n", ID[k]); } } else for (k = 0; k < 22; k++) t(".ifdef %sx%d\n.db %d, %sx%d\n.endif\n", ctx == 4 ? "st." : "", ID[k], ID[k], ctx == 4 ? "st." : "", ID[k]); }
  t(".db $55\n"); r = build(c); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; P = 0; want(0xaa, 1, "before");
  if (ctx == 5) { P = 0x40; want(N - 1, 1, "variables"); for (i = 0; i < N; i++) { want(i, 1, "variable"); } } else if (ctx == 3 || ctx == 4) { for (i = 0; i < N; i++) { want(E[i], 1, "field"); want((ctx == 3 ? 0x40 : 0) + i, 1, "offset"); } } else for (i = 0; i < N; i++) want(E[i], 1, "statement");
  want(0x55, 1, "after"); wantto(0x100, 0, "after"); vf_reach("ok"); return 0; }
