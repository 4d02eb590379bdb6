/* C05: labels. kind 0: unnamed labels; kind 1: parents, children and local labels; kind 2: isolated macros; kind 3: namespaces and files. */
#include "common.h"
enum { LAB, REF, BYTE };
struct I { int what, add, scope, sec, addr; char n[24]; } X[40]; static int N, scope, uns, lcs, ncall; static char par[24], kid[24]; static unsigned a; static int missing;
static int isun(const char *n) { return n[0] == '-' || n[0] == '+' || (n[0] == '_' && (n[1] == '_' || (n[1] != 0 && n[2] == 0 && (n[1] == 'b' || n[1] == 'f')))); }
static void item(int what, const char *n, int add) { X[N].what = what; X[N].add = add; X[N].sec = scope; X[N].scope = scope + (isun(n) ? uns : n[0] == '_' ? lcs : 0); strcpy(X[N].n, n); N++; }
static int find(int i) { /* what reference i is bound to, or -1 */
  int j, best = -1, k; const char *n = X[i].n; int bk = n[0] == '-' || !strcmp(n, "_b"), fw = n[0] == '+' || !strcmp(n, "_f");
  for (j = 0; j < N; j++) if (X[j].what == LAB) { if (bk || fw) { k = n[0] == '_' ? !strcmp(X[j].n, "__") : !strcmp(X[j].n, n); if (!k || X[j].scope != X[i].scope) continue; if (bk && j < i) best = j; if (fw && j > i && best < 0) best = j; } else if (!strcmp(X[j].n, n) && (n[0] != '_' || X[j].scope == X[i].scope)) best = j; }
  return best; }
static void refs(const char *n, int add, int viajp) { if (viajp) { t(" jp %s\n", n); item(BYTE, "", 0xc3); } else if (add) t(".dw %s%+d\n", n, add); else t(".dw %s\n", n); item(REF, n, add); }
static void un(int op) { static const char *L[] = {"-", "--", "+", "++", "__"}; static const char *R[] = {"-", "--", "+", "_b", "_f", "_b", "_f"}; 
  if (op < 5) { t("%s\n", L[op]); item(LAB, L[op], 0); } else if (op < 10) refs(R[op - 5], 0, op < 8); else if (op < 12) refs(R[op - 5], op == 10 ? 1 : -2, 0); else { t(".db $%x\n", 0xe0 + op); item(BYTE, "", 0xe0 + op); } }
static void full(char *o, const char *s) { int l = 0; while (s[l] == '@') l++; if (l == 0) strcpy(o, s); else if (l == 1) sprintf(o, "%s%s", par, s); else sprintf(o, "%s%s", kid[0] ? kid : par, s + (kid[0] ? 1 : 0)); }
static int dup(const char *n) { int j; for (j = 0; j < N; j++) if (X[j].what == LAB && !strcmp(X[j].n, n) && (n[0] != '_' || X[j].scope == scope + lcs)) return 1; return 0; }
static int ch(int op) { char f[24]; static const char *L[] = {"pa:", "pb", "@c:", "@d", "@@g:", "_l:", "@@c:"}; static const char *LN[] = {"pa", "pb", "@c", "@d", "@@g", "_l", "@@c"}; static const char *R[] = {"@c", "@@g", "__label__", "pa@c", "pb@d@g", "_l", "pb", "@d"};
  if (op < 7) { full(f, LN[op]); t("%s%s\n", L[op], op & 1 ? "" : " .db $99"); if (dup(f)) return 1; if (op == 0 || op == 1 || op == 5) { strcpy(par, f); kid[0] = 0; } else if (op < 4) strcpy(kid, f); item(LAB, f, 0); if (!(op & 1)) item(BYTE, "", 0x99); }
  else { const char *r = R[op - 7]; if (op == 9) { strcpy(f, par); } else full(f, r); t(".dw %s%s\n", r, op == 14 ? "+1" : ""); item(REF, f, op == 14 ? 1 : 0); } return 0; }
static char body[400];
static void lab(const char *n) { t("%s ", n); item(LAB, n, 0); } static void byte(int v) { t(".db $%x\n", v); item(BYTE, "", v); }
/* the body of the macro, expanded by the model; isolated: 1 unnamed, 2 local */
static void expand(int form, int iso) { char sp[24], sk[24], q[24]; int u = uns, l = lcs, tl; strcpy(sp, par); strcpy(sk, kid); ncall++; if (iso & 1) uns = 10 * ncall; if (iso & 2) lcs = 10 * ncall; if (iso) { par[0] = kid[0] = 0; } tl = TL; sprintf(q, "q%d", ncall - 1);
  if (form == 0) { refs("-", 0, 1); lab("-"); byte(1); refs("-", 0, 1); refs("+", 0, 1); lab("+"); byte(2); } else if (form == 1) { refs("_l", 1, 0); lab("_l"); byte(1); refs("_l", 0, 0); } else if (form == 2) { lab(q); strcpy(par, q); byte(1); sprintf(kid, "%s@c", q); lab(kid); byte(2); refs(kid, 0, 0); refs(kid, 1, 0); sprintf(kid, "%s@c@g", q); lab(kid); refs(par, 0, 0); sprintf(kid, "%s@c", q); } else { lab("__"); byte(1); refs("_b", 1, 0); refs("_f", 0, 0); lab("__"); byte(2); }
  TL = tl; if (iso) { strcpy(par, sp); strcpy(kid, sk); } uns = u; lcs = l; }
int main() {
  int r, i, j, kind = vf_param("kind", 0), ctx = vf_param("ctx", 0), n = vf_param("n", 3), op, bad = 0, big = ctx == 4; const char *c = "wla-z80"; int base0[3] = {0x4000, 0x4000, 0x4000}, off[3] = {0x10, 0x90, 0x50}; BIG = 0; a = vf_u8("a"); tn();
  t(".MEMORYMAP\nDEFAULTSLOT 1\nSLOT 0 $0 $100\nSLOT 1 $4000 $100\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL 3\nBANKSIZE $100\nBANKS 3\n.ENDRO\n"); defsym("ka", a, 1); t(".BANK 2 SLOT 1\n.ORG $10\n.db ka\n.org $11\n");
  off[0] = 0x11; scope = 0;
  if (kind == 2) { int form = vf_param("form", 0), iso = vf_choice("isolated", 4), nest = vf_choice("nested", 3), calls = vf_choice("calls", 2) + 1, pre = vf_choice("own label", 3), post = vf_choice("own reference", 3); static const char *ISO[] = {"", " isolateunnamed", " isolatelocal", " isolated"}; static const char *B[] = {" jp -\n- .db 1\n jp -\n jp +\n+ .db 2\n", ".dw _l+1\n_l .db 1\n.dw _l\n", "q\\@: .db 1\n@c .db 2\n.dw @c\n.dw @c+1\n@@g\n.dw __label__\n", "__ .db 1\n.dw _b+1\n.dw _f\n__ .db 2\n"};
    static const char *PL[] = {"-", "_l", "@c", "__"}, *RF[] = {"-", "_l", "@c", "_f"}; char f[24]; static const int oiso[] = {0, 0, 3};
    t(".macro inn%s\n%s.endm\n.macro outer%s\n.db 5\n inn\n.db 6\n.endm\n", ISO[iso], B[form], nest == 2 ? " isolated" : ""); vf_assume((nest == 0) | (calls == 1));
    t("pa:\n"); item(LAB, "pa", 0); strcpy(par, "pa"); byte(0x70); if (pre) { strcpy(f, PL[form]); if (form == 2) { strcpy(f, "pa@c"); strcpy(kid, f); } t("%s\n", PL[form]); item(LAB, f, 0); if (form == 1) { strcpy(par, f); kid[0] = 0; } byte(0x71); }
    if (form == 0) { refs("+", 0, 1); } for (i = 0; i < calls; i++) { if (nest) { int u = uns, l = lcs, tl; char sp[24], sk[24]; strcpy(sp, par); strcpy(sk, kid); if (nest == 2) { uns = lcs = 500; par[0] = kid[0] = 0; } t(" outer\n"); tl = TL; byte(5); expand(form, iso); byte(6); TL = tl; uns = u; lcs = l; if (nest == 2) { strcpy(par, sp); strcpy(kid, sk); } } else { t(" inn\n"); expand(form, iso); } }
    if (post) { if (form == 2) { full(f, "@c"); t(".dw @c%s\n", post == 2 ? "+1" : ""); item(REF, f, post == 2); } else refs(RF[form], form && post == 2 ? 1 : 0, form == 0); } refs(par, 0, 0), TL -= 0; if (form == 0) { lab("+"); byte(0x72); } if (form == 3) { lab("__"); byte(0x73); }
    for (i = 0; i < N; i++) for (j = 0; j < i; j++) if (X[i].what == LAB && X[j].what == LAB && !isun(X[i].n) && !strcmp(X[i].n, X[j].n) && X[i].scope == X[j].scope) bad = 1;
    n = 0; }
  if (ctx == 1 || ctx == 2) { t(".section \"one\" force\n"); scope = 1; }
  if (kind == 0) { un(0); un(4); un(7); un(12); } else if (kind == 1) { bad |= ch(0); }
  for (i = 0; i < n && !bad; i++) { op = vf_choice(msg("item %d", i), kind == 0 ? 12 : 15);
    if (ctx == 2 && i == 1) { if (kind == 0) { un(2); un(4); } t(".ends\n.org $90\n.section \"two\" force\n"); scope = 2; if (kind == 1) bad |= ch(1); else { un(0); un(12); } }
    if (kind == 0) un(op); else bad |= ch(op); }
  if (!bad) { if (kind == 0) { un(5); un(12); un(2); un(3); un(8); } else if (kind == 1) { refs(par, 2, 0); } }
  if (ctx == 1 || ctx == 2) t(".ends\n"); t(".org $f0\n.db $55\n");
  r = build(c); for (i = 0; i < N; i++) if (X[i].what == REF && find(i) < 0) missing = 1;
  if (bad || missing) { vf_assert((r == 1) | (r == 101), "refused"); vf_reach("refused"); return 0; } vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0;
  { int p = 0x11, s = X[0].sec; for (i = 0; i < N; i++) { if (X[i].sec != s) { p = 0x90; s = X[i].sec; } X[i].addr = p; p += X[i].what == REF ? 2 : X[i].what == BYTE; } }
  P = 0x210; want(a, 1, "first"); for (i = 0; i < N; i++) { if (X[i].what == BYTE) { if (P != 0x200 + X[i].addr) wantto(0x200 + X[i].addr, 0, "gap"); want(X[i].add, 1, "byte"); } if (X[i].what == REF) { if (P != 0x200 + X[i].addr) wantto(0x200 + X[i].addr, 0, "gap"); want(0x4000 + X[find(i)].addr + X[i].add, 2, msg("reference %d", i)); } }
  wantto(0x2f0, 0, "after"); want(0x55, 1, "end"); wantto(0x300, 0, "after"); vf_reach("ok"); return 0; }
