/* C06: comments, spacing and strings. */
#include "common.h"
static int G, pick, deco, hit; static unsigned C[4];
static void chr(int i, int nl) { unsigned c = C[i]; (void)nl; tch(c); }
static void cm(const char *s) { for (; *s; s++) if (*s >= '0' && *s <= '3') chr(*s - '0', 0); else tch(*s); }
static const char *MID[] = {"  ", "\t", " /*01*/ ", "/*01*/ ", " /*01*/", "/*01*/", "/**//*01*/", " /*01*/ /*/*/ "};
static const char *EOLD[] = {";01", " ;01", " //01", "//01", " /*01*/", "/*01*/", "\t", "\n\n", " ; \"01", "/*0\n1*/", " /*01\n*/\n", "\r", ";/*01", "//;*/01", "/*//01*/"};
static const char *BOL[] = {" ", "\t ", "/*01*/", "/*01*/ ", " /*01*/", "/*0\n1*/", "*01\n", ";01\n", "\n", "//01\n", "/* ; \n\n \" */\n", "\r\n", "* /*01\n", "/*/01*/"};
#define NE(a) ((int)(sizeof(a) / sizeof(a[0])))
/* text with gaps: ~ white space needed, ^ possible, & white space where a line can continue, $ end of line, | beginning of line */
static void g(const char *s) {
  for (; *s; s++) { int k = *s == '~' ? 1 : *s == '^' ? 2 : *s == '&' ? 3 : *s == '$' ? 4 : *s == '|' ? 5 : 0; if (!k) { tch(*s); continue; }
    if (G++ == pick) { hit = k; if (k <= 3) { deco = vf_choice("form", NE(MID) + (k == 3 ? 2 : 0)); if (k == 1 && 0) continue; cm(deco < NE(MID) ? MID[deco] : deco == NE(MID) ? " \\\n " : " /*01*/ \\ ;01\n"); } else if (k == 4) { cm(EOLD[vf_choice("form", NE(EOLD))]); t("\n"); } else cm(BOL[vf_choice("form", NE(BOL))]); }
    else if (k == 1 || k == 3) t(" "); else if (k == 4) t("\n"); } }
static unsigned n;
int main() {
  int r, i, kind = vf_param("kind", 0), cpu = vf_param("cpu", 0), sh = vf_param("part", 0), parts = vf_param("parts", 1), v; static const char *CPU[] = {"wla-z80", "wla-65816", "wla-6502"}; BIG = 0; n = vf_u8("n"); tn(); map1(0, 0x100, 1);
  for (i = 0; i < 4; i++) { C[i] = vf_u8(msg("c%d", i)); vf_assume((C[i] != 10) & (C[i] != 13) & (C[i] != 0)); }
  if (kind == 0) { vf_assume((C[0] != '*') | (C[1] != '/')); 
    vf_assume(n <= 84); defsym("n", n, 1); t(".macro m args x, s\n.db x, s ; \"\n.endm\n"); at(0, 0); pick = vf_choice("gap", vf_param("gaps", 60)); vf_assume(pick % parts == sh); 
    g("|start:~.db&1^,^"); t("$2+n*3"); g("^,&\"a;b/*c*/d//e\"^,&';'^,^'/'$"); g("|.db&(^n+1^)*2^,&n/4$"); g("|.rept~2$"); g(cpu == 0 ? "|ld~a,^(ix+5)$|.endr$" : cpu == 1 ? "|lda~[^16],^y$|.endr$" : "|lda~#5$|.endr$"); if (cpu == 0) g("|-~jp~-$"); g("|.if~n~==~5$|.db&9$|.else$|.db&8$|.endif$|.dw&lab,&lab+1$|lab:^.db&7$"); g("|m~n,&\"1;2\"$|__^$|.dw _b$");
    r = build(CPU[cpu]); vf_assume(hit); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; P = 0; want(1, 1, "one"); want(2 + n * 3, 1, "sum"); for (i = 0; i < 13; i++) want("a;b/*c*/d//e"[i] ? "a;b/*c*/d//e"[i] : ';', 1, "string"); want('/', 1, "character"); want((n + 1) * 2, 1, "product"); want(n / 4, 1, "quotient");
    for (i = 0; i < 2; i++) if (cpu == 0) { want(0xdd, 1, "ld"); want(0x7e, 1, "ld"); want(5, 1, "ld"); } else if (cpu == 1) { want(0xb7, 1, "lda"); want(0x10, 1, "lda"); } else { want(0xa9, 1, "lda"); want(5, 1, "lda"); }
    if (cpu == 0) { want(0xc3, 1, "jp"); want(P - 1, 2, "jp"); } want(n == 5 ? 9 : 8, 1, "branch"); v = P + 4; want(v, 2, "label"); want(v + 1, 2, "label"); want(7, 1, "labelled"); want(n, 1, "argument"); for (i = 0; i < 3; i++) want("1;2"[i], 1, "string argument"); v = P; want(v, 2, "unnamed label"); wantto(0x100, 0, "after"); vf_reach("ok"); return 0; }
  if (kind == 1) { /* any characters in strings */ static const char *AFT[] = {"", " ; \"", "/*\"*/", " // '"}; int cr = vf_choice("cr", 2), a = vf_choice("after", 4); const char *nl = cr ? "\r\n" : "\n"; for (i = 0; i < 4; i++) vf_assume((C[i] != '"') & (C[i] != '\\') & (C[i] != '{') & (C[i] != '}'));
    at(0, 0); t(".db \""); chr(0, 0); chr(1, 0); chr(2, 0); t("\", '"); chr(3, 0); t("' %s%s", AFT[a], nl); t(".db \"\\\""); chr(0, 0); t("\\\\"); chr(1, 0); t("\"%s%s", AFT[a], nl); t(".macro m%s.db \"", nl); chr(2, 0); t("\"%s%s.endm%sm%s", AFT[a], nl, nl, nl); t(".db $55 %s", AFT[a]);
    r = build("wla-z80"); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; P = 0; for (i = 0; i < 4; i++) want(C[i], 1, "character"); want('"', 1, "quote"); want(C[0], 1, "character"); want('\\', 1, "backslash"); want(C[1], 1, "character"); want(C[2], 1, "in a macro"); want(0x55, 1, "last"); wantto(0x100, 0, "after"); vf_reach("ok"); return 0; }
  if (kind == 2) { /* beginning and end of files, included or not */ int inc = vf_choice("included", 2), b = vf_choice("start", NE(BOL) + 1), e = vf_choice("end", NE(EOLD) + 1), k; vf_assume((C[0] != '*') | (C[1] != '/')); if (b == NE(BOL) && e > 3) vf_assume(0); if (b < NE(BOL) && e < NE(EOLD)) vf_assume((b + e) % 3 == 0); 
    at(0, 0); if (inc) t(".db 1\n.include \"i.s\" ; x\n.db 3\n"); else { static char s[600]; memcpy(s, T, TL); k = TL; tn(); if (b < NE(BOL)) cm(BOL[b]); i = TL; memcpy(T + TL, s, k); TL += k; t(".db 1\n"); }
    if (inc) { static char s[600]; memcpy(s, T, TL); k = TL; tn(); if (b < NE(BOL)) cm(BOL[b]); t(".db 2"); if (e < NE(EOLD)) cm(EOLD[e]); tput("i.s"); tn(); memcpy(T, s, k); TL = k; } else { t(".db 2"); if (e < NE(EOLD)) cm(EOLD[e]); }
    r = build("wla-z80"); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; P = 0; want(1, 1, "first"); want(2, 1, "second"); if (inc) want(3, 1, "third"); wantto(0x100, 0, "after"); vf_reach("ok"); return 0; }
  if (kind == 3) { static const char *U[] = {"/*01", "/*/", "/* *", "/*01\n.db 4\n", "/*", ".db 4 /*01\n.db 5\n", ".db 4, /*", "\"/*\" /*0*"}; int inc = vf_choice("included", 2); vf_assume((C[0] != '*') | (C[1] != '/')); i = vf_choice("which", NE(U)); at(0, 0); if (i == 7) vf_assume(C[0] != '/'); if (inc) { static char s[600]; int k = TL; memcpy(s, T, TL); tn(); cm(U[i]); tput("i.s"); tn(); memcpy(T, s, k); TL = k; t(".include \"i.s\"\n.db 9\n"); } else { t(".db 9\n"); cm(U[i]); }
    r = build("wla-z80"); vf_assert(r == 1, "a comment that does not end is refused"); vf_reach("refused"); return 0; }
  { /* .ENDASM and .ASM */ static const char *S[] = {"01", "\"01", ".db \"01\"", ".asm.", "x.asm", "/* .asm */", "; .asm 01", "\".asm\"", ".endasm\n.asm", ".ENDASM 01 .ASM", ".if 4", "{01}", ".macro x\n\\1 .shift", "'01", ".endasm\n.endasm\n 01\n.asm ; 01\n .Asm", ".include \"nothere\"", "\"0\\\".asm\"", ".E01"}; int k = vf_choice("which", NE(S)), mac = vf_choice("inside", 3); C[1] = "x/.{"[vf_choice("second", 4)]; vf_assume((C[0] != ';') & (C[0] != '"') & (C[0] != '\\') & (C[0] != ' ') & (C[0] != 9) & (C[0] != ')') & (C[0] != ']')); if (C[1] == '/') vf_assume(C[0] != '/'); at(0, 0); t(".db 1\n"); if (mac == 1) t(".macro q args z\n"); if (mac == 2) t(".rept 2\n"); t(vf_choice("same line", 2) ? ".db 2\n.endasm " : ".db 2\n.endasm\n"); cm(S[k]); t("\n.asm"); t(vf_choice("goes on", 2) ? " .db 3\n" : "\n.db 3\n"); if (mac == 1) t(".db z\n.endm\nq 4\n"); if (mac == 2) t(".endr\n"); t(".db 5\n");
    r = build("wla-z80"); vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; P = 0; want(1, 1, "before"); for (i = 0; i < 1 + (mac == 2); i++) { want(2, 1, "before"); want(3, 1, "after"); } if (mac == 1) want(4, 1, "argument"); want(5, 1, "end"); wantto(0x100, 0, "after"); vf_reach("ok"); return 0; }
}
