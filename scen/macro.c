/* C03: macros and functions. */
#include "common.h"
static unsigned a, b; static int late; static unsigned char E[256]; static int N; static void act(unsigned v) { E[N++] = (unsigned char)v; } static void actw(unsigned v) { act(v); act(v >> 8); }
static const char *pick(int k) { static const char *S[] = {"ka", "(kb + 1)", "la", "lab+2", "lab", "ka*2-kb", "300-298"}; return S[k]; }
static unsigned value(int k) { unsigned V[] = {a, b + 1, a, 0x92, 0x90, a * 2 - b, 2}; return V[k]; }
int main() {
  int r, i, j, n, part = vf_param("part", 0), x, y, z, c2, form, cpu = vf_param("cpu", 0), un; const char *c = cpu ? "wla-6800" : "wla-z80"; static unsigned char chs[3]; BIG = 0;
  a = vf_u8("a"); b = vf_u8("b"); tn(); map1(0, 0x100, 1); defsym("ka", a, 1); defsym("kb", b, 1); at(0, 0);
  if (part == 0) { /* values through calls, positional and named, passed on, shifted */
    n = vf_choice("count", 4); x = vf_choice("x", 7); y = n > 1 ? vf_choice("y", 3) * 2 + 1 : 5; z = n > 2 ? vf_choice("z", 2) * 5 : 6; form = vf_choice("form", 3); un = vf_choice("outer definition", 2); if (form == 2 && n > 1 && y == 1) return 0;
    if (un) t(".define y1 = $77\n.define z1 = $78\n");
    t(".macro inner\n.dw \\2, \\1\n.db nargs\n.endm\n.macro named args x1, y1, z1\n.db NARGS\n.ifdefm \\1\n.dw x1, \\1+x1*2\n.endif\n.ifdefm \\2\n.dw y1\n inner y1, x1\n inner(\\1+1, \\2)\n.else\n.ifdef y1\n.db $ee\n.endif\n.endif\n.if nargs > 2\n.dw z1-\\3+5\n.shift\n.db nargs\n.dw x1, y1, \\1, \\2\n.ifdef z1\n.db $ef\n.endif\n.shift\n.dw x1, \\1\n.endif\n.db NARGS\n.endm\n");
    t(form == 1 ? "named(" : "named "); if (n > 0) t("%s", pick(x)); if (n > 1) t("%s%s", form == 2 ? " " : ", ", pick(y)); if (n > 2) t("%s%s", form == 2 ? " " : ",", pick(z)); t(form == 1 ? ")\n" : "\n");
    if (un) t(".db y1, z1\n"); t(".db defined(nargs), defined(NARGS), defined(x1), %s\n.db $55\n.org $90\nlab:\n.define la = ka\n", un ? "0" : "defined(y1)");
    act(n); if (n > 0) { actw(value(x)); actw(3 * value(x)); } if (n > 1) { actw(value(y)); actw(value(x)); actw(value(y)); act(2); actw(value(y)); actw(value(x) + 1); act(2); }
    if (n > 2) { actw(5); act(2); actw(value(y)); actw(value(z)); actw(value(y)); actw(value(z)); actw(value(z)); actw(value(z)); act(1); } else act(n); if (un) { act(0x77); act(0x78); } for (i = 0; i < 4; i++) act(0); }
  else if (part == 1) { /* recursion */
    n = vf_range("depth", 0, 3); form = vf_choice("swap", 3); defsym("dd", n, 1); t(".macro rec args p, q, d\n.db p, q, \\1, \\2, d\n.if d > 0\n.if d == 1\n leaf q\n.endif\n rec %s, d-1\n.endif\n.db p, q, \\2, \\1, nargs\n.endm\n.macro leaf args q\n.db \\1, q, nargs\n.endm\n.define p = $33\n rec ka, kb, dd\n.db p, defined(q), defined(d)\n.db $55\n", form == 0 ? "q, p" : form == 1 ? "\\2, \\1" : "p+1, (p)"); n = vf_concrete(n);
    { unsigned pa[5], pb[5]; pa[0] = a; pb[0] = b; for (i = 0; i <= n; i++) { act(pa[i]); act(pb[i]); act(pa[i]); act(pb[i]); act(n - i); if (n - i == 1) { act(pb[i]); act(pb[i]); act(1); } pa[i + 1] = form == 2 ? (pa[i] + 1) : pb[i]; pb[i + 1] = pa[i]; if (form == 2) vf_assume(pa[i + 1] < 256); } for (i = n; i >= 0; i--) { act(pa[i]); act(pb[i]); act(pb[i]); act(pa[i]); act(3); } act(0x33); act(0); act(0); } }
  else if (part == 2) { /* text arguments */
    for (i = 0; i < 3; i++) { chs[i] = vf_range(msg("ch%d", i), 33, 126); vf_assume((chs[i] != '"') & (chs[i] != '\\') & (chs[i] != '{') & (chs[i] != '}') & (chs[i] != '?')); } if (vf_param("alpha", 0)) { chs[0] = 'q'; chs[1] = '0'; chs[2] = "abh_"[vf_choice("label", 4)]; }
    t(".macro str args s\n.db s, 0, \"<\\1>\", s.length, \\1\n.if \\?1 == ARG_STRING\n.db 1\n.endif\n.endm\n.macro outer\n str \\1\n.db \"\\2\"\n.endm\n"); if (vf_param("alpha", 0)) t(".macro lb\n nop\nx\\1:\n.db \\@\ny\\1: .db \"\\1\", \\@\nxx\\@: .dw x\\1, y\\1, xx\\@\n ld\\2 a, 5\n.endm\n");
    t("outer \""); for (i = 0; i < 3; i++) tch(chs[i]); t("\", \""); tch(chs[1]); t("\"\n"); for (i = 0; i < 3; i++) act(chs[i]); act(0); act('<'); for (i = 0; i < 3; i++) act(chs[i]); act('>'); act(3); for (i = 0; i < 3; i++) act(chs[i]); act(1); act(chs[1]);
    if (vf_param("alpha", 0)) for (j = 0; j < 2; j++) { int at0; t("lb \"%d", j); for (i = 0; i < 3; i++) tch(chs[i]); t("\", \"\"\n"); at0 = N + 1; act(0); act(j); act('0' + j); for (i = 0; i < 3; i++) act(chs[i]); act(j); actw(at0 + 0); actw(at0 + 1); actw(at0 + 6); act(0x3e); act(5); }
    t(".macro types\n.if \\?1 == ARG_NUMBER\n.db 1\n.elif \\?1 == ARG_STRING\n.db 2\n.elif \\?1 == ARG_LABEL\n.db 3\n.elif \\?1 == ARG_PENDING_CALCULATION\n.db 4\n.elif \\?1 == ARG_IMMEDIATE\n.db 5\n.endif\n.endm\ntypes ka\ntypes \"q\"\ntypes lab\ntypes lab+1\ntypes #kb\n"); for (i = 1; i <= 5; i++) act(i);
    t(".macro calls\n.db \\@, \"\\@\", \"\\.\"\n.endm\ncalls\n calls\ncalls()\n.macro incr\n.redefine \\1 = ?1 + 1\n.endm\n.define cnt = 7\nincr &cnt\nincr &cnt\n.db cnt\n"); for (i = 0; i < 3; i++) { act(i); act('0' + i); for (j = 0; j < 5; j++) act("calls"[j]); } act(9); t(".db $55\n.org $f0\nlab:\n"); }
  else if (part == 3) { /* functions */
    n = vf_choice("x", 3); c2 = vf_choice("late", 2); x = vf_choice("outer", 2); if (x) t(".define v1 = $44\n"); t(".function mul2(v1) (v1*2)\n.function sum(v1, v2) v1+v2*3\n.function nest(v2,v1) (sum(v1,v2)-sum(mul2(v2), v1))\n.function one() 1\n.function low(v1) <v1\n"); { const char *A = c2 ? "la" : "ka"; t(n == 0 ? ".dw sum(%s, kb), mul2(%s)+1, 2*mul2(kb+1)\n" : n == 1 ? ".dw nest(%s,kb), nest( kb , %s ), one()+one()\n" : ".dw low(%s+256)+1, sum(sum(%s,1),sum(kb, 2)), nest(one(), mul2(one()))\n", A, A); }
    t("%s.db $55\n.define la = ka\n", x ? ".db v1\n" : ""); { int A = a, B = b; if (n == 0) { actw(A + 3 * B); actw(2 * A + 1); actw(4 * (B + 1)); } else if (n == 1) { actw((B + A * 3) - (A * 2 + B * 3)); actw((A + B * 3) - (B * 2 + A * 3)); actw(2); } else { actw(A + 1); actw(A + 3 + (B + 6) * 3); actw((2 + 3) - (2 + 6)); } } if (x) act(0x44); }
  else if (part == 4) { static const char *U[] = {".macro m\n.db \\2\n.endm\nm ka\n", ".macro m\n.shift\n.endm\nm\n", ".macro m\n.shift\n.shift\n.endm\nm kb\n", ".macro m\n.endm\n.macro m\n.endm\n", ".macro m\n.db 1\n", ".endm\n", "m ka\n", ".shift\n", ".db \\1\n", ".macro m\n.db 1\n.endm\n.endm\n", ".ifdefm \\1\n.endif\n", ".macro m args x1, y1\n.dw x1, y1\n.endm\nm kb\n", ".macro m\n.db nothere\n.endm\nm\n", ".function f(q1) q1+1\n.db f(1,2)\n", ".function f(q1, q2) q1+q2\n.db f(ka)\n", ".function f(q1) q1+1\n.function f(q1) q1\n.db f(1)\n", ".macro m args x1\n.endm\nm 1\n.db x1\n", ".macro m\n.fail\n.endm\nm\n"}; t("%s", U[vf_choice("which", 18)]); t("lab:\n"); r = build(c); if (!r) r = 0; vf_assert((r == 1) | (r == 101), "refused"); vf_reach("refused"); return 0; }
  else { /* filters */
    int w = vf_choice("width", 4); n = vf_choice("count", 3) + 1; late = vf_choice("late", 2); x = vf_choice("text", 2); t(".macro flt\n.redefine _out = \\1 + \\2*2 + 1\n.endm\n.db $aa\n.d%cm flt %s", "bwld"[w], late ? "ka" : "ka"); for (i = 1; i < n; i++) t(", kb"); if (x) t(", \"xy\""); t("\n.db $55\n"); vf_assume((a < 200) & (b < 200)); 
    act(0xaa); for (i = 0; i < n + 2 * x; i++) { unsigned v = (i == 0 ? a : i < n ? b : (unsigned)"xy"[i - n]) + 2 * i + 1; for (j = 0; j <= w; j++) act(v >> 8 * j); } }
  r = build(c); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; P = 0; for (i = 0; i < N; i++) want(E[i], 1, "byte"); want(0x55, 1, "after"); wantto(0x100, 0, "after"); vf_reach("ok"); return 0; }
