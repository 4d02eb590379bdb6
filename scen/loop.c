/* C02: loops. */
#include "common.h"
static unsigned char E[512]; static int N, K; static void act(unsigned v) { E[N++] = (unsigned char)v; }
int main() {
  int r, kind = vf_param("kind", 0), bad = vf_param("bad", 0), i, j, n, m, act1, x, y, ctx, when; const char *c = "wla-z80"; BIG = 0; K = vf_param("max", 3);
  tn(); map1(0, 0x100, 1); at(0, 0); t(".db $aa\n");
  if (bad) { static const char *U[] = {".while n\n.db 1\n.break\n", ".endr\n", ".rept n\n.endr\n.endr\n", ".break\n", ".continue\n", ".rept n\n.endr\n.break\n", ".macro m\n.rept n\n.db 1\n.endm\nm\n.endr\n", ".rept n-9\n.db 1\n.endr\n", ".rept n\n.if n\n.endr\n", ".rept nothere\n.endr\n", ".while nothere\n.endr\n", ".rept 0\n", ".while n == 200\n", ".repeat n\n.break\n"}; n = vf_range("n", 1, 4); defsym("n", n, 1); t("%s", U[vf_choice("which", 14)]); r = build(c); vf_assert(r == 1, "loops that do not end or begin are refused"); vf_reach("refused"); return 0; }
  if (kind == 0 || kind == 2) { /* two nested loops; after the x-th round of the inner or outer one break or continue; a later loop in the outer body */
    n = vf_range("n", 0, K); m = vf_range("m", 0, K); act1 = vf_choice("what", 5); x = vf_range("x", 0, K - 1); y = vf_range("y", 0, K - 1); when = vf_choice("where", 2); ctx = vf_choice("context", 4); n = vf_concrete(n); defsym("n", n, 1); defsym("m", m, 1); defsym("x", x, 1); defsym("y", y, 1);
    { const char *w = act1 == 0 ? "" : act1 < 3 ? ".break" : ".continue"; int in = act1 == 1 || act1 == 3, mac = ctx == 1; /* the statement in a macro called from the loop */
      if (mac) t(".macro leave args p, q\n.db $ee\n.if p == q\n.if 1\n%s\n.endif\n.else\n.db $ef\n.endif\n.db $ed\n.endm\n", w); if (ctx == 2) t(".macro whole\n"); if (ctx == 3) t(".section \"s\" force\n");
      t(kind == 2 ? ".define i 0\n.while i < n\n" : ".%s n index i\n", vf_choice("repeat", 2) ? "rept" : "REPEAT"); t(".db $10+i\n"); 
      if (act1 && !in && when == 0) { if (kind == 2) t(".redefine i = i+1\n"); if (mac) t("leave i, x+%d\n", kind == 2); else t(".if i == x+%d\n%s\n.db 8\n.endif\n", kind == 2, w); if (kind == 2) t(".redefine i = i-1\n"); }
      t(".repeat m, index jj\n.db $20+jj, i\n"); if (act1 && in) { if (mac) t("leave jj, y\n"); else t(".if i == x\n.if jj == y\n.rept 0\n.endr\n%s\n.db 8\n.endif\n.else\n.if i > 50\n.endif\n.endif\n", w); } t(".db $30+jj\n.endr\n"); if (kind == 2) t(".redefine i = i+1\n"); 
      if (act1 && !in && when == 1) { if (mac) t("leave i, x+%d\n", kind == 2); else t(".ifeq i x+%d\n%s\n.db 8\n.endif\n", kind == 2, w); }
      t(".rept 2 index k\n.db $40+k\n.endr\n.db \".endr\"\n.rept 0 index k\n.db \"{k}\", nothere, {nothere}\n.rept 3 index l\n.db \"{l}\"\n.endr\n.while nothere\n.endr\n.ifeq k \".endr\"\n.endif\n.endr\n.endr\n.ifdef jj\n.db $f0\n.endif\n.ifdef k\n.db $f1\n.endif\n"); if (kind == 0) t(".ifdef i\n.db $f2\n.endif\n"); else t(".db i\n");
      if (ctx == 2) t(".endm\nwhole\n"); if (ctx == 3) t(".ends\n"); t(".db $55\n"); m = vf_concrete(m); x = vf_concrete(x); y = vf_concrete(y);
      for (i = 0; i < n; ) { act(0x10 + i); if (act1 && !in && when == 0) { int at = i + (kind == 2); if (mac) act(0xee); if (at == x + (kind == 2)) { if (act1 == 2) { if (kind == 2) i++; break; } if (act1 == 4) { i++; continue; } } if (mac) { act(0xef); act(0xed); } }
        for (j = 0; j < m; j++) { act(0x20 + j); act(i); if (act1 && in) { int hit = mac ? j == y : (i == x) & (j == y); if (mac) act(0xee); if (hit) { if (act1 == 1) break; continue; } if (mac) { act(0xef); act(0xed); } } act(0x30 + j); }
        if (act1 && !in && when == 1) { if (mac) act(0xee); if (i == x) { if (act1 == 2) { if (kind == 2) i++; break; } i++; continue; } if (mac) { act(0xef); act(0xed); } }
        i++; act(0x40); act(0x41); for (j = 0; j < 5; j++) act(".endr"[j]); }
      if (kind == 2) act(i); } }
  else { /* counts and indices in expressions, symbolic data */
    unsigned v = vf_u8("v"); n = vf_range("n", 0, 2 * K); defsym("n", n, 1); defsym("v", v, 1); ctx = vf_choice("form", 4);
    if (ctx == 0) { t(".rept n*2-n index i\n.db i*3+v-v, v\n.endr\n"); n = vf_concrete(n); for (i = 0; i < n; i++) { act(3 * i); act(v); } }
    else if (ctx == 1) { t(".define q = v\n.while q != ((v+n) & 255) && q < 300\n.db q\n.redefine q = q+1\n.if q > 255\n.redefine q = 0\n.endif\n.endr\n"); n = vf_concrete(n); for (i = 0; i < n; i++) act(v + i); }
    else if (ctx == 2) { t(".rept n index i\n.redefine n = 1\nl{i}: .db v+0, <l{i}\n.endr\n"); n = vf_concrete(n); for (i = 0; i < n; i++) { act(v); act(1 + 2 * i); } }
    else { t(".rept n\n.rept n index j\n.redefine n = n+1\n.db n\n.if j >= 1\n.break\n.endif\n.endr\n.endr\n"); n = vf_concrete(n); x = n; for (i = n; i > 0; i--) { int l = x; for (j = 0; j < l; j++) { act(++x); if (j >= 1) break; } } }
    t(".db $55\n"); }
  r = build(c); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; P = 0; want(0xaa, 1, "before"); for (i = 0; i < N; i++) want(E[i], 1, "statement"); want(0x55, 1, "after"); wantto(0x100, 0, "after"); vf_reach("ok"); return 0; }
