/* C04: definitions. kind 0: sequences of operations on two names; kind 1: command line and link file; kind 2: between objects; kind 3: wrong programs. */
#include "common.h"
static unsigned a, b; static unsigned char E[256]; static int N; static void act(unsigned v) { E[N++] = (unsigned char)v; } static void actw(unsigned v) { act(v); act(v >> 8); }
struct D { int k; unsigned v; }; /* 0 undefined, 1 value, 2 calculation, 3 string, 4 data, 5 value with a half */
static void show(const char *n, struct D *d) {
  t(".ifdef %s\n.db $11\n", n); if (d->k == 1 || d->k == 2) t(".dw %s, %s+1\n", n, n); if (d->k == 3) t(".db %s, %s.length\n", n, n); if (d->k == 4) t(".db %s\n", n); if (d->k == 5) t(".dw %s*4, %s\n", n, n); t(".else\n.db $22\n.endif\n.ifndef %s\n.db $33\n.endif\n.db defined(%s)\n", n, n);
  if (d->k) { act(0x11); if (d->k <= 2) { actw(d->v); actw(d->v + 1); } if (d->k == 3) { act('s'); act('t'); act(d->v); act(3); } if (d->k == 4) { act(1); act(a); act('a'); act('b'); act(2); act(0x34); act(0x12); } if (d->k == 5) { actw(6); actw(1); } act(1); } else { act(0x22); act(0x33); act(0); }
}
static void num(unsigned v, int form) { switch (form) { case 0: tch('$'); thex(v, 4); break; case 1: t("0x"); thex(v, 4); break; case 2: tdec(v, 5); break; case 3: tch('0'); thex(v, 4); tch('h'); break; case 4: { int i; tch('%'); for (i = 15; i >= 0; i--) tch('0' + (v >> i & 1)); } break; default: { int i; t("0b"); for (i = 15; i >= 0; i--) tch('0' + (v >> i & 1)); } } }
int main() {
  static char arg[100]; int r = 0, i, n = vf_param("n", 3), kind = vf_param("kind", 0), first = vf_param("first", -1), op, bad = 0, form; const char *c = "wla-z80"; struct D x = {0, 0}, y = {0, 0}; BIG = 0; tn();
  if (kind == 0) {
    a = vf_u8("a"); b = vf_u8("b"); map1(0, 0x400, 1); defsym("ka", a, 1); defsym("kb", b, 1); at(0, 0);
    for (i = 0; i < n && !bad; i++) { op = i == 0 && first >= 0 ? first : vf_choice(msg("operation %d", i), 12);
      switch (op) {
        case 0: t("%s", i & 1 ? ".def x = ka\n" : ".define x ka\n"); if (x.k) bad = 1; else { x.k = 1; x.v = a; } break;
        case 1: t(".redefine x = kb+1\n"); x.k = 1; x.v = b + 1; break;
        case 2: if (x.k != 1 && x.k != 2) return 0; t(".redef x x*2+1\n"); x.v = x.v * 2 + 1; break;
        case 3: t("%s", i & 1 ? ".undefine x\n" : ".undef x\n"); x.k = 0; break;
        case 4: if (x.k != 1 && x.k != 2) return 0; t(".define y = x + 3\n"); if (y.k) bad = 1; else { y.k = x.k; y.v = x.v + 3; } break;
        case 5: t(".redefine x = lab+1\n"); x.k = 2; x.v = 0x391; break;
        case 6: t(".redefine x = \"st%c\"\n", 'a' + i); x.k = 3; x.v = 'a' + i; break;
        case 7: t(".redef x 1, ka, \"ab\", kb*0+2, $1234\n"); x.k = 4; break;
        case 8: t(".undef x, y\n"); x.k = y.k = 0; break;
        case 9: t(".equ x kb\n"); if (x.k) bad = 1; else { x.k = 1; x.v = b; } break;
        case 10: t(".redefine x = 0.5*3\n"); x.k = 5; break;
        case 11: if (!x.k || x.k == 4) return 0; t(".redefine y = x\n"); y = x; break; }
      show("x", &x); show("y", &y); }
    t(".db $55\n.org $390\nlab:\n"); }
  else if (kind == 1) { int o = vf_param("file", 0); form = vf_param("form", 0); if (o && form < 4) a = vf_range("a", 0, 65000); else a = vf_u8("a") * (vf_choice("factor", 2) ? 1 : 0xf1); /* by the command line or the link file */
    if (o) { map1(0, 0x400, 1); at(0, 0); t(".dw x, x+1\n.db <x, >x, s, $55\n"); tput("a.s"); r = asmf(c, "a.s", "a.o"); if (!r) { tn(); t("[definitions]\nx "); num(a, form); t("%s\ns $7\n[objects]\na.o\n", vf_choice("space", 2) ? "  " : ""); tput("lf"); r = vf_run("wlalink", "lf", "out.bin", (char *)0); } }
    else { char q[64]; num(a, form); memcpy(q, T, TL); q[TL] = 0; sprintf(arg, "x=%s", q); tn(); map1(0, 0x400, 1); at(0, 0); t(".ifdef e\n.dw x, x+1\n.db <x, >x, s, $55\n.endif\n.if x == %u\n.endif\n", 5); tput("a.s"); if (vf_choice("apart", 2)) r = vf_run(c, "-D", "e", "-D", "x", "=", q, "-D", "s=7", "-o", "a.o", "a.s", (char *)0); else { sprintf(q, "-D%s", arg); r = vf_run(c, "-D", "e", q, "-D", "s=7", "-o", "a.o", "a.s", (char *)0); } if (!r) r = linkf("a.o\n", "out.bin"); }
    vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; get("out.bin"); P = 0; want(a, 2, "value"); want(a + 1, 2, "value"); want(a, 1, "low"); want(a >> 8, 1, "high"); want(7, 1, "other"); want(0x55, 1, "after"); wantto(0x400, 0, "after"); vf_reach("ok"); return 0; }
  else if (kind == 2) { int l = vf_choice("last operation", 4); form = vf_choice("form", 4); a = vf_u8("a"); b = vf_u8("b"); vf_assume((a < 200) & (b < 200)); map1(0, 0x400, 1); defsym("ka", a, 1); defsym("kb", b, 1); /* exported definitions hold the last value; others stay inside */
    { unsigned v = a + 300; t(form == 0 ? ".define x = ka+300 export\n" : form == 1 ? ".export x\n.define x = ka+300\n" : form == 2 ? ".enumid ka+300 step 2 export\n.enumid x\n.enumid x2\n" : ".define x ka+300\n.define y = 1\n.export x, z\n"); t(".define loc = ka\n.define z = lb+kb export\n"); if (l == 1) { t(".redefine x = kb\n"); v = b; } if (l == 2) { t(".undef x\n.define x = kb+x0\n.define x0 = 9\n"); v = b + 9; } if (l == 3) { t(".redefine x = la+kb\n"); v = 0x80 + b; } 
      at(0, 0x80); t("la: .db loc, $aa\n.dw x\n"); tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0;
      tn(); map1(0, 0x400, 1); defsym("ka", a, 1); at(0, 0); t(".define loc = ka+1\nlb2: .dw x, x*2, z\n.db loc, <x, >x\n"); if (form == 2) t(".dw x2-x\n"); t(".db $55\n.org $40\nlb:\n"); tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0;
      r = linkf(vf_choice("order", 2) ? "a.o\nb.o\n" : "b.o\na.o\n", "out.bin"); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; get("out.bin"); P = 0; want(v, 2, "x"); want(v * 2, 2, "x*2"); want(0x40 + b, 2, "z"); want(a + 1, 1, "own"); want(v, 1, "low"); want(v >> 8, 1, "high"); if (form == 2) want(a + 302 - v, 2, "difference"); want(0x55, 1, "end"); wantto(0x80, 0, "between"); want(a, 1, "own"); want(0xaa, 1, "mark"); want(v, 2, "x"); wantto(0x400, 0, "after"); vf_reach("ok"); return 0; } }
  else { static const char *W[] = {".define x = 1\n.define x = 1\n", ".define x = nothere\n.dw x\n", ".dw x\n", ".define x = 1\n.undef x\n.dw x\n", ".define x 1\n.def x 2\n", ".define x = lab+1, 2\n", ".define x = 1, lab+1\n.dw x\n", ".define x = 1, lab\n", ".redefine x\n", ".redefine x = \"a\" lab+1\n", ".define nargs = 1\n", ".define CADDR = 1\n", ".undef\n", ".export\n", ".define x = \"ab\"\n.dw x\n", ".define x = (1\n", ".enumid x\n", ".enumid 1 step\n", ".equ x = \"a\n", ".redefine caddr = 4\n"}; map1(0, 0x100, 1); at(0, 0); t("lab:\n%s", W[vf_choice("which", 20)]); r = build(c); if (!r) r = 0; vf_assert((r == 1) | (r == 101), "refused"); vf_reach("refused"); return 0; }
  r = build(c); if (bad) { vf_assert(r == 1, "refused"); vf_reach("refused"); return 0; } vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; P = 0; for (i = 0; i < N; i++) want(E[i], 1, "byte"); want(0x55, 1, "after"); wantto(0x400, 0, "after"); vf_reach("ok"); return 0; }
