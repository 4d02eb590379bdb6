/* D03: text through character tables and string maps. */
#include "common.h"
static int sel(int c, int a, int b) { int m = -(c != 0); return (a & m) | (b & ~m); }
/* a printable character that needs no escape */
static int sym(const char *n) { int c = vf_range(n, 32, 126); vf_assume((c != '"') & (c != '\\')); return c; }
static void finish(void) { want(2, 1, "after"); wantto(0x100, 0, "after"); vf_reach("ok"); }
static void begin(void) { P = 0; wantto(3, 0, "before"); want(1, 1, "before"); }
int main() {
  int cpu = vf_param("cpu", 0), kind = vf_param("kind", 0), r, i; const char *c = cpu ? "wla-6800" : "wla-z80"; BIG = cpu;
  tn(); map1(0, 0x100, 1);
  if (kind == 0) { /* concrete entries with symbolic targets and symbolic text */
    int k0 = vf_range("k0", 0, 320), k1 = vf_range("k1", 0, 255), k2 = vf_range("k2", 0, 255), k3 = vf_range("k3", 0, 255), k4 = vf_range("k4", 0, 270), use = vf_choice("use", 6), x, y, ok = (k0 <= 250) & (k2 <= 253) & (k4 <= 255), table = vf_choice("table", 3);
    defsym("k0", k0, 2); defsym("k1", k1, 1); defsym("k2", k2, 1); defsym("k3", k3, 1); defsym("k4", k4, 2); at(0, 3);
    if (table == 2) t(".asciitable\nmap 0 to 255 = 0\nmap \"A\" to \"Z\" = 3\n.enda\n");
    if (table) t("%s\nmap \"A\" to \"F\" = k0\n MAP 'D' = k1\nmap 120 to 122 = k2\nmap \"!\" = k3\nmap 200 = k4\n.enda\n", table == 2 ? ".ASCTABLE" : ".asciitable"); else ok = 1;
    t(".db 1\n"); x = use < 4 ? sym("x") : vf_range("x", 0, 400) - 100; y = use < 3 ? sym("y") : 'D';
#define MAPPED(c) (table == 0 ? (c) : sel((c) == 'D', k1, sel(((c) >= 'A') & ((c) <= 'F'), k0 + (c) - 'A', sel(((c) >= 120) & ((c) <= 122), k2 + (c) - 120, sel((c) == '!', k3, sel((c) == 200, k4, (c)))))))
    if (use < 3) { t(use == 0 ? ".asc \"" : use == 1 ? ".ascstr \"A" : ".db \""); tch(x); t(use == 0 ? "q\", \"" : use == 1 ? "\", 70, \"" : "A\", 70, \""); tch(y); t("\"\n"); }
    else if (use == 3) { vf_assume((x != '\'') & (x != ';')); ok &= !table | (k1 < 255); t(".db asc('"); tch(x); t("'), 1+ASC(68)\n"); }
    else { defsym("x", x + 100, 2); t(".redefine x = x-100\n%s x, \"D\"\n", use == 4 ? ".asc" : ".ascstr"); ok &= use == 4 ? (x >= 0) & (x <= 255) : (x >= -128) & (x <= 255); }
    t(".db 2\n"); r = build(c); vf_assert(clean(r), "the assembler ends properly"); vf_assert((r == 0) == ok, "mappings and bytes inside a byte are accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
    begin(); if (use == 0) { want(MAPPED(x), 1, "mapped"); want('q', 1, "unmapped"); want(MAPPED(y), 1, "mapped"); } if (use == 1) { want(MAPPED('A'), 1, "mapped"); want(MAPPED(x), 1, "mapped"); want(70, 1, "byte"); want(MAPPED(y), 1, "mapped"); } if (use == 2) { want(x, 1, "plain"); want('A', 1, "plain"); want(70, 1, "byte"); want(y, 1, "plain"); }
    if (use == 3) { want(MAPPED(x), 1, "character"); want(1 + MAPPED('D'), 1, "character"); } if (use == 4) { want(MAPPED(x), 1, "mapped byte"); want(MAPPED('D'), 1, "mapped"); } if (use == 5) { want(x, 1, "byte"); want(MAPPED('D'), 1, "mapped"); }
    finish(); }
  if (kind == 1) { /* a symbolic range over concrete text */
    int a = vf_range("a", 0, 18) + 60, b = vf_range("b", 0, 18) + 60, k = vf_range("k", 0, 255), form = vf_choice("form", 2); static const char txt[] = "AJ<B"; int ok = (b >= a) & (k + b - a <= 255);
    if (form) vf_assume((a != '\\') & (b != '\\')); defsym("a", a, 1); defsym("b", b, 1); defsym("k", k, 1); at(0, 3); t(".asciitable\n"); if (form) { t("map \""); tch(a); t("\" to \""); tch(b); t("\" = k\n"); } else t("map a to b = k\n"); t(".enda\n.db 1\n.asc \"%s\", 74\n.db 2\n", txt);
    r = build(c); vf_assert(clean(r), "the assembler ends properly"); vf_assert((r == 0) == ok, "a range that fits is accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
    begin(); for (i = 0; i < 5; i++) { int ch = i == 4 ? 74 : txt[i]; want(sel((ch >= a) & (ch <= b), k + ch - a, ch), 1, "mapped"); } finish(); }
  if (kind == 2) { /* escapes in data, with neighbours */
    int e = vf_choice("escape", 10), d = vf_choice("directive", 3), h = vf_u8("h"), x = sym("x"), v = 0; at(0, 3); vf_assume(x != '>'); vf_assume(x != '<'); t(".asciitable\nmap \"%s\" = 7\n.enda\n.db 1\n%s \"", "\\\"", d == 0 ? ".db" : d == 1 ? ".asc" : ".byt"); tch(x);
    if (e < 6) { static const char es[] = "0trn\"\\", ev[] = "\0\t\r\n\"\\"; t("\\%c", es[e]); v = d == 1 && e == 4 ? 7 : ev[e]; } if (e == 6) { t("\\x"); thex(h, 2); v = sel(d == 1 && 1, sel(h == '"', 7, h), h); } if (e == 7) { t("\\<B"); v = 'B' | 0x80; } if (e == 8) { t("B\\>"); v = 'B' | 0x80; } if (e == 9) { t("\\x"); thex(h, 2); t("\\x41\\\\"); v = sel(d == 1 && 1, sel(h == '"', 7, h), h); }
    tch(x); t("\"\n.db 2\n"); r = build(c); vf_assert(r == 0, "escapes are accepted");
    begin(); want(x, 1, "before the escape"); want(v, 1, "escape"); if (e == 9) { want('A', 1, "second escape"); want('\\', 1, "third escape"); } want(x, 1, "after the escape"); finish(); }
  if (kind == 3) { /* string maps: the longest match; codes from the file */
    static const char *keys[] = {"a", "ab", "abc", "b", "ca", "bc\\n", "\\\""}, *txts[] = {"a", "ab", "abc", "b", "ca", "bc\n", "\""}; static const int lens[] = {1, 2, 1, 3, 2, 1, 1}; int n = vf_param("n", 4), code[7][3], order = vf_choice("order", 2), crlf = vf_choice("crlf", 2), j, s[8], q, bad = 0, ln[8], which[8], cnt = 0;
    for (i = 0; i < 7; i++) for (j = 0; j < lens[i]; j++) code[i][j] = i < 3 && j == 0 ? vf_u8(msg("code%d", i)) : 17 * i + j + 1;
    tn(); t("; comment 11=a%s\n# 22=a%s\n%s\n", crlf ? "\r" : "", crlf ? "\r" : "", crlf ? "\r" : ""); for (i = 0; i < 7; i++) { int m = order ? 6 - i : i; for (j = 0; j < lens[m]; j++) thex(code[m][j], 2); t("=%s%s\n", keys[m], crlf ? "\r" : ""); } t("99=zz"); tput("m.tbl"); tn(); map1(0, 0x100, 1);
    at(0, 3); t(".stringmaptable other \"m.tbl\"\n.STRINGMAPTABLE script \"m.tbl\"\n.db 1\n%s \"", crlf ? ".stringmap other" : ".STRINGMAP script,"); for (i = 0; i < n; i++) { int z = vf_choice(msg("s%d", i), 6); s[i] = "abc\nd\""[z]; if (z == 3) t("\\n"); else if (z == 5) t("\\\""); else t("%c", s[i]); } t("\"\n.db 2\n");
    for (q = 0; q < n && !bad; ) { int best = -1, bl = 0; for (i = 0; i < 7; i++) { int l = strlen(txts[i]), same = l <= n - q; for (j = 0; j < l && same; j++) same = s[q + j] == txts[i][j]; if (same && l > bl) { best = i; bl = l; } } if (best < 0) bad = 1; else { which[cnt] = best; ln[cnt++] = bl; q += bl; } }
    r = build(c); vf_assert(clean(r), "the assembler ends properly"); vf_assert((r == 0) == !bad, "text covered by the map is accepted, other text refused"); if (r) { vf_reach("refused"); return 0; }
    begin(); for (i = 0; i < cnt; i++) for (j = 0; j < lens[which[i]]; j++) want(code[which[i]][j], 1, "code"); (void)ln; finish(); }
  return 0;
}
