/* S06: discarding unreferenced sections. Sections 0-2 refer to each other and are referred to by the fixed code in bank 3 in every way. */
#include "common.h"
enum { FREE, SEMIFREE, SUPERFREE, KEEP, BANG, FORCE, APPEND, AFTER, SEMISUB };
static const char MIX[][3] = {{FREE, FREE, FREE}, {SEMIFREE, SUPERFREE, FREE}, {KEEP, FREE, FREE}, {FREE, BANG, SEMISUB}, {FORCE, FREE, SUPERFREE}, {FREE, APPEND, FREE}, {FREE, FREE, APPEND}, {FREE, AFTER, SEMIFREE}, {FREE, AFTER, KEEP}};
static int e[4][3], RK, two; static char name[3][8];
static void refto(int j) { switch (RK) { case 0: t(".dw L%d\n", j); break; case 1: t(".dw L%d+1\n", j); break; case 2: t(".db :L%d\n", j); break; case 3: t(".db <L%d\n", j); break; case 4: t(".dw D%d\n", j); break; case 5: t("ld hl,L%d\n", j); break; case 6: t(".dw 1+L%d\n.db :L%d\n", j, j); break; case 7: t(".db bank(L%d+0)\n", j); break; case 8: t(".dw E%d\n", j); break; case 9: t(".dw L%d@c\n", j); break; } }
static int wantref(int j, int at, int a) { int b = at / 64, o = at % 64, v = a + o + 3; b += 0 * v; P += 0; switch (RK) { case 0: want(v, 2, "reference"); break; case 1: want(v + 1, 2, "reference"); break; case 2: want(b, 1, "bank reference"); break; case 3: want(v, 1, "low byte"); break; case 4: want(v + 2, 2, "definition"); break; case 5: want(0x21, 1, "opcode"); want(v, 2, "operand"); break; case 6: want(v + 1, 2, "calculation"); want(b, 1, "bank"); break; case 7: want(b, 1, "bank"); break; case 8: want(v + 3, 2, "definition in a section"); break; case 9: want(v + 2, 2, "child label"); break; } return j; }
static int len(int i) { static const int L[] = {2, 2, 1, 1, 2, 3, 3, 1, 2, 2}; int j, n = 7; for (j = 0; j < 3; j++) if (e[i][j]) n += L[RK]; return n; }
int main() {
  int mix = vf_param("mix", 0), i, j, k, r, at[3], al[3], ref[3], p[3], n, any; const char *c = "wla-z80"; RK = vf_param("ref", 0); two = vf_param("files", 0); { int bh = vf_param("header", 0); 
  for (i = 0; i < 4; i++) for (j = 0; j < 3; j++) e[i][j] = i == j ? 0 : vf_choice(msg("%d to %d", i, j), 2);
  for (i = 0; i < 3; i++) { p[i] = vf_range(msg("p%d", i), 0, 63); sprintf(name[i], "%ss%d", MIX[mix][i] == BANG ? "!" : "", i); }
  for (k = 0; k < (two ? 3 : 1); k++) { tn(); map1(0, 64, 4); if (RK == 4) { for (i = 0; i < 3; i++) t(".define D%d = L%d+2\n", i, i); }
    for (i = 0; i < 3; i++) if (!two || k == i % 3) { int m = MIX[mix][i]; defsym(msg("p%d", i), p[i], 1); t(".bank %d slot 0\n.org %d\n.section \"%s\" ", i, m == SEMISUB ? 60 : m == SEMIFREE || m == FORCE ? 5 : 0, name[i]); t(m == FREE || m == BANG ? "free\n" : m == SEMIFREE ? "semifree\n" : m == SUPERFREE ? "superfree\n" : m == KEEP ? "free keep\n" : m == FORCE ? "force\n" : m == SEMISUB ? "semisubfree\n" : m == APPEND ? "appendto \"s0\"\n" : "after \"s0\"\n");
      t(".db $e%d,p%d,$d%d\nL%d:\n.dw L%d\n", i, i, i, i, i); if (RK == 9) t("@c:\n"); for (j = 0; j < 3; j++) if (e[i][j]) refto(j); t(RK == 8 ? ".define E%d = L%d+3 export\n.db $a%d\n.db 9\n.ends\n" : ".db $a%d\n.db 9\n.ends\n", i, i, i); }
    if (RK == 9) for (i = 0; i < 3; i++) ; if (!two || k == 2) { if (bh) t(".bank 3 slot 0\n.section \"BANKHEADER\"\n"); else t(".bank 3 slot 0\n.org 0\n"); t(".db $77\n"); for (j = 0; j < 3; j++) if (e[3][j]) refto(j); t(".db $78\n"); if (bh) t(".ends\n"); }
    tput(k == 0 ? "a.s" : k == 1 ? "b.s" : "c.s"); r = asmf(c, k == 0 ? "a.s" : k == 1 ? "b.s" : "c.s", k == 0 ? "a.o" : k == 1 ? "b.o" : "c.o"); vf_assert(r == 0, "assembles"); if (r) return 0; }
  tn(); t("[objects]\na.o\n%s", two ? "b.o\nc.o\n" : ""); tput("lf"); r = vf_run("wlalink", "-d", "lf", "out.bin", (char *)0); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin"); { int h = 2, x = P; P = 0; if (bh) { static const int L[] = {2, 2, 1, 1, 2, 3, 3, 1, 2, 2}; for (j = 0; j < 3; j++) if (e[3][j]) h += L[RK]; vf_assert(OUTN == 256 + h, "size"); for (j = 0; j < 64; j++) { vf_assert(OUT[192 + h + j] == 0, "bank with a header"); OUT[192 + h + j] = 0; } } else vf_assert(OUTN == 256, "size"); P = x; }
  for (i = 0; i < 3; i++) { al[i] = e[3][i] || MIX[mix][i] == KEEP || MIX[mix][i] == BANG || MIX[mix][i] == FORCE; ref[i] = 0; for (j = 0; j < 4; j++) ref[i] |= e[j][i]; } do { any = 0; for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) if (al[i] && e[i][j] && !al[j]) al[j] = any = 1; } while (any);
  for (i = 0; i < 3; i++) { at[i] = -1; for (n = k = 0; k < 190; k++) if (OUT[k] == 0xe0 + i && OUT[k + 2] == 0xd0 + i) { n++; at[i] = k; } vf_assert(n <= 1, "a section appears once"); vf_assert(!al[i] || n == 1, "a section in use is kept"); if (MIX[mix][i] < KEEP) vf_assert(al[i] || n == 0 || ref[i] || mix >= 5 || RK == 4, "a section nothing refers to is dropped"); if (al[i] && n != 1) return 0; }
  for (i = 0; i < 3; i++) if (at[i] >= 0 && al[i]) { P = at[i]; want(0xe0 + i, 1, "start"); want(p[i], 1, "payload"); want(0xd0 + i, 1, "start"); want(at[i] % 64 + 3, 2, "own label"); for (j = 0; j < 3; j++) if (e[i][j]) wantref(j, at[j], 0); want(0xa0 + i, 1, "end"); want(9, 1, "end"); }
  P = 192; want(0x77, 1, "fixed code"); for (j = 0; j < 3; j++) if (e[3][j]) wantref(j, at[j], 0); want(0x78, 1, "fixed code"); wantto(256, 0, "after");
  for (i = 0; i < 3; i++) if (at[i] >= 0) for (k = 0; k < len(i); k++) OUT[at[i] + k] = 0; P = 0; wantto(192, 0, "elsewhere"); vf_reach("ok"); } return 0;
}
