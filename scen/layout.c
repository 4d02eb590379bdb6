/* S04: field layout of enumerations, structures and unions. */
#include "common.h"
#define MX 96
static char N[MX][64]; static int V[MX], nn, n0, mode; /* names, expected values */
static void ref(const char *p, const char *f, int v) { if (p[0] && f[0]) sprintf(N[nn], "%s.%s", p, f); else sprintf(N[nn], "%s%s", p, f); V[nn++] = v; }
static void size(const char *p, const char *f, int v) { if (p[0]) sprintf(N[nn], "_sizeof_%s.%s", p, f); else sprintf(N[nn], "_sizeof_%s", f); V[nn++] = v; }
enum { DB, DS, DSW, DL, DD, DSD, DOTW, DOTI, PT, PT2, BOX, UN, ANON, SIZED, FROM0, UNION, NEST, DSL, KINDS };
static void decl(int k, int i) {
  switch (k) {
    case DB: t("f%d db\n", i); break; case DS: t("f%d: ds n\n", i); break; case DSW: t("f%d dsw n+1\n", i); break; case DL: t("f%d dl\n", i); break; case DD: t("f%d dd\n", i); break; case DSD: t("f%d dsd n\n", i); break; case DSL: t("f%d dsl n\n", i); break;
    case DOTW: t("f%d: .dw\n", i); break; case DOTI: t("f%d .instanceof pt\n", i); break; case PT: t("f%d instanceof pt\n", i); break; case PT2: t("f%d instanceof pt 2\n", i); break; case BOX: t("f%d instanceof box\n", i); break; case UN: t("f%d instanceof un\n", i); break;
    case ANON: t("instanceof an%d\n", i); break; case SIZED: t("f%d instanceof pt size 4+n count 2\n", i); break; case FROM0: t("f%d instanceof box 2 startfrom 0\n", i); break;
    case UNION: t(".union\na%d db\nb%d ds n\n.nextu u%d\nc%d dw\n.endu\n", i, i, i, i); break; case NEST: t(".union v%d\nka db\n.union\nkb dw\n.nextu\nkc dl\n.endu\nkd db\n.nextu w%d\nke dsb n\n.endu\n", i, i); break;
  }
}
static int max(int a, int b) { int g = -(a > b); return (a & g) | (b & ~g); }
static int len(int k) { int n = n0; switch (k) { case DB: return 1; case DS: return n; case DSW: return 2 * n + 2; case DL: case PT: return 3; case DD: return 4; case DSD: return 4 * n; case DSL: return 3 * n; case PT2: return 6; case BOX: case UN: return 5; case ANON: return 3; case SIZED: return 8 + 2 * n; case FROM0: return 10; case UNION: return max(2, 1 + n); case NEST: return max(5, n); } return 0; }
static void pt(const char *p, int a) { ref(p, "x", a); ref(p, "y", a + 2); }
static const char *cat(const char *p, const char *f) { static char b[4][64]; static int i; i = (i + 1) & 3; if (p[0]) sprintf(b[i], "%s.%s", p, f); else strcpy(b[i], f); return b[i]; }
/* what the documentation promises for one item at address a */
static void defs(int k, int i, const char *p, int a) {
  char f[8], g[8]; const char *q; sprintf(f, "f%d", i); q = cat(p, f);
  if (k == ANON) { sprintf(g, "g%d", i); ref(p, g, a); sprintf(g, "h%d", i); ref(p, g, a + 1); return; }
  if (k == UNION) { sprintf(g, "a%d", i); ref(p, g, a); size(p, g, 1); sprintf(g, "b%d", i); ref(p, g, a + 1); size(p, g, n0); sprintf(g, "u%d", i); q = cat(p, g); sprintf(g, "c%d", i); ref(q, g, a); size(q, g, 2); return; }
  if (k == NEST) { sprintf(g, "v%d", i); q = cat(p, g); ref(q, "ka", a); ref(q, "kb", a + 1); ref(q, "kc", a + 1); ref(q, "kd", a + 4); sprintf(g, "w%d", i); q = cat(p, g); ref(q, "ke", a); size(q, "ke", n0); return; }
  ref(p, f, a); size(p, f, k == DOTW ? 2 : k == DOTI ? 3 : len(k));
  switch (k) {
    case DOTI: case PT: pt(q, a); break; case PT2: pt(cat(q, "1"), a); pt(cat(q, "2"), a + 3); break; case BOX: pt(cat(q, "p"), a); break;
    case UN: ref(q, "k", a); ref(q, "lo", a + 1); ref(q, "hi", a + 2); ref(cat(q, "w"), "ww", a + 1); ref(cat(q, "w"), "q", a + 3); ref(q, "z", a + 4); break;
    case SIZED: pt(cat(q, "1"), a); pt(cat(q, "2"), a + 4 + n0); break; case FROM0: pt(cat(cat(q, "0"), "p"), a); pt(cat(cat(q, "1"), "p"), a + 5); break;
  }
}
enum { ASC, DESC, STRUCT, ONE, TWO, INUNION, DESCUNION, OUTER };
int main() {
  int kind = vf_param("kind", 0), i, r, base, ka, kb, c, a, la, lb, two = 0;
  tn(); map1(0, 0x400, 1); at(0, 8); t(".db $5a\n");
  if (kind == 0) { c = mode = vf_param("in", 0); ka = vf_choice("first", KINDS); kb = vf_choice("second", KINDS); vf_assume(ka % vf_param("parts", 1) == vf_param("part", 0)); n0 = vf_range("n", 0, 3); base = vf_range("base", 0x100, 0xfe00); defsym("n", n0, 1); defsym("base", base, 2); if (c == ASC || c == DESC) two = vf_choice("exported", 2);
    t(".struct pt\nx dw\ny db\n.endst\n.struct box size 5\np instanceof pt\n.endst\n.struct un\nk db\n.union\nlo db\nhi db\n.nextu w\nww dw\nq db\n.endu\nz db\n.endst\n"); for (i = 0; i < 2; i++) t(".struct an%d\ng%d db\nh%d dw\n.endst\n", i, i, i);
    la = len(ka); lb = len(kb);
    if (c == STRUCT || c == ONE || c == TWO || c == OUTER) { t(".struct s\n"); decl(ka, 0); decl(kb, 1); t("z db\n.endst\n"); }
    if (c == OUTER) t(".struct o\nh dw\ni instanceof s\nt db\n.endst\n"); if (c != STRUCT) t(".enum base%s%s\n", c == DESC || c == DESCUNION ? " desc" : "", two ? " export" : "");
    a = base;
    switch (c) {
      case ASC: decl(ka, 0); decl(kb, 1); t("z db\n"); defs(ka, 0, "", a); defs(kb, 1, "", a + la); ref("", "z", a + la + lb); break;
      case DESC: decl(ka, 0); decl(kb, 1); t("z db\n"); defs(ka, 0, "", a - la); defs(kb, 1, "", a - la - lb); ref("", "z", a - la - lb - 1); break;
      case STRUCT: defs(ka, 0, "s", 0); defs(kb, 1, "s", la); ref("s", "z", la + lb); size("", "s", la + lb + 1); break;
      case ONE: t("e instanceof s\nend db\n"); ref("", "e", a); size("", "e", la + lb + 1); defs(ka, 0, "e", a); defs(kb, 1, "e", a + la); ref("e", "z", a + la + lb); ref("", "end", a + la + lb + 1); break;
      case TWO: t("e instanceof s 2\nend db\n"); ref("", "e", a); size("", "e", 2 * (la + lb + 1)); for (i = 0; i < 2; i++) { const char *q = i ? "e.2" : "e.1"; int b = a + (i ? la + lb + 1 : 0); ref("", q, b); size("", q, la + lb + 1); defs(ka, 0, q, b); defs(kb, 1, q, b + la); ref(q, "z", b + la + lb); } ref("", "end", a + 2 * (la + lb + 1)); break;
      case INUNION: case DESCUNION: { int m = max(la, lb + 1); t("pre dw\n.union\n"); decl(ka, 0); t(".nextu r\n"); decl(kb, 1); t("z db\n.endu\nend db\n"); if (c == DESCUNION) { ref("", "pre", a - 2); a = a - 2 - m; } else { ref("", "pre", a); a += 2; } defs(ka, 0, "", a); defs(kb, 1, "r", a); ref("r", "z", a + lb); ref("", "end", c == DESCUNION ? a - 1 : a + m); break; }
      case OUTER: t("e instanceof o\nend db\n"); ref("", "e", a); ref("e", "h", a); ref("e", "i", a + 2); size("e", "i", la + lb + 1); defs(ka, 0, "e.i", a + 2); defs(kb, 1, "e.i", a + 2 + la); ref("e.i", "z", a + 2 + la + lb); ref("e", "t", a + la + lb + 3); ref("", "end", a + la + lb + 4); size("", "o", la + lb + 4); defs(ka, 0, "o.i", 2); defs(kb, 1, "o.i", 2 + la); break;
    }
    if (c != STRUCT) t(".ende\n");
    if (two) { t(".org 3\n"); tput("b.s"); r = asmf("wla-z80", "b.s", "b.o"); vf_assert(r == 0, "assembles"); if (r) return 0; tn(); map1(0, 0x400, 1); at(0, 8); t(".db $5a\n"); for (i = 0; i < nn; i++) if (!strncmp(N[i], "_sizeof_", 8)) N[i--][0] = 0, memcpy(N[i + 1], N[nn - 1], 64), V[i + 1] = V[nn - 1], nn--; }
  } else { /* .ENUMID */
    int s = vf_range("step", -300, 300), k = vf_choice("step given", 2); char f[8]; base = vf_range("base", 0, 0x4000); two = vf_choice("exported", 2); vf_assume(base + 4 * s >= 0); defsym("base", base, 2); defsym("step", s + 300, 2); t(".redefine step = step-300\n.enumid base%s%s\n", k ? " step step" : "", two ? " export" : "");
    for (i = 0; i < 4; i++) { t(".enumid i%d\n", i); sprintf(f, "i%d", i); ref("", f, base + (k ? i * s : i)); } t(".enumid 7\n.enumid j\n"); ref("", "j", 7); if (two) { nn--; tput("b.s"); r = asmf("wla-z80", "b.s", "b.o"); vf_assert(r == 0, "assembles"); if (r) return 0; tn(); map1(0, 0x400, 1); at(0, 8); t(".db $5a\n"); } }
  for (i = 0; i < nn; i++) t(".dw %s\n", N[i]); tput("a.s"); r = asmf("wla-z80", "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0; r = linkf(two ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin"); P = 8; want(0x5a, 1, "marker"); for (i = 0; i < nn; i++) want(V[i], 2, N[i]); wantto(0x400, 0, "nothing else"); vf_reach("ok"); return 0;
}
