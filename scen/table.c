/* D06: typed tables and hexadecimal strings. */
#include "common.h"
static const char LAY[][8] = {"bwb", "wwbb", "ldb", "llw", "dd", "b", "wl", "bbbb"};
static const char *TXT[][2] = {{"byte, word, byte", "db dw byt"}, {"dsw 2, dsb 2", "word addr ds 2"}, {"long, dd, byte", "dl dsd 1 db"}, {"dsl 2, word", "faraddr dsl 1 dsw 1"}, {"dsd 2", "dd, dd"}, {"byte", "dsb 1"}, {"word long", "DW, DL"}, {"dsb 3, byte", "DSB 1, DB, DS 2"}};
int main() {
  int cpu = vf_param("cpu", 0), late = vf_param("late", 0), kind = vf_param("kind", 0), r, i, ok = 1; const char *c = cpu ? "wla-6800" : "wla-z80"; BIG = cpu;
  tn(); map1(0, 0x100, 1);
  if (kind == 0) { int l = vf_choice("layout", 8), alias = vf_choice("names", 2), cols = strlen(LAY[l]), form = vf_choice("form", 4), n = form == 0 ? cols : form == 1 ? cols * 2 : form == 2 ? cols + 1 : cols + vf_choice("more", 3) - 1, bad = vf_param("bad", 0), which = bad ? vf_choice("bad", n ? n : 1) : -1, W[12], cut = form == 2 ? 1 : -1; unsigned v[12], off[12], nbs[12], raw[12];
    /* form 0: one row, 1: two rows as data, 2: data in two statements, 3: a row with one cell too few, enough or one too many */
    for (i = 0; i < n; i++) { int k, w = LAY[l][i % cols], nb, wide; w = w == 'b' ? 1 : w == 'w' ? 2 : w == 'l' ? 3 : 4; W[i] = w; wide = (i == which) & (w < 4) & ((late != 1 && late != 3) || w == 1); nb = w + wide;
      for (v[i] = k = 0; k < nb; k++) v[i] |= (unsigned)vf_range(msg("v%d_%d", i, k), 0, k == nb - 1 ? (nb == 4 && w == 4 ? 127 : wide ? 3 : 255) : 255) << (8 * k);
      defsym(msg("k%d", i), v[i], nb); raw[i] = v[i]; nbs[i] = nb; off[i] = 0; if (wide && late != 1 && late != 3) { off[i] = (1u << (8 * w - 1)) + 2; t(".redefine k%d = k%d-%u\n", i, i, off[i]); v[i] -= off[i]; ok &= ((int)v[i] >= -(1 << (8 * w - 1))) & ((int)v[i] < (1 << (8 * w))); } else if (wide) ok &= v[i] < 256; }
    if (form == 3 && n != cols) ok = 0; at(0, 3); t(".db 1\n.table %s\n", TXT[l][alias]); if (n == 0) t(form == 3 ? ".row" : ".data"); for (i = 0; i < n; i++) t(i == 0 || i == cut ? "%s %s%d%s" : ",%s %s%d%s", i == 0 || i == cut ? (i ? "\n.data" : form == 0 || form == 3 ? ".row" : ".data") : "", late == 0 ? "k" : late == 3 ? "l" : "x", i, late == 2 ? "+1-1" : ""); t("\n.db 2\n"); if (late == 3) for (i = 0; i < n; i++) t(".define l%d = k%d\n", i, i);
    tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(clean(r), "the assembler ends properly");
    if (!r) { tn(); map1(0, 0x100, 1); for (i = 0; i < n; i++) { defsym(msg("y%d", i), raw[i], nbs[i]); t(".redefine x%d = y%d-%u\n", i, i, off[i]); t(".export x%d\n", i); } 
      tput("b.s"); r = late == 1 || late == 2 ? asmf(c, "b.s", "b.o") : 0; vf_assert(r == 0, "second file"); r = linkf(late == 1 || late == 2 ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(clean(r), "the linker ends properly"); }
    vf_assert((r == 0) == ok, "full rows of fitting cells are accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
    get("out.bin"); P = 0; wantto(3, 0, "before"); want(1, 1, "before"); for (i = 0; i < n; i++) want(v[i], W[i], "cell"); want(2, 1, "after"); wantto(0x100, 0, "after"); vf_reach("ok"); return 0; }
  { int form = vf_choice("form", 5), bad = vf_param("bad", 0), n = bad ? 1 : vf_choice("bytes", 2) * 2 + 1, b[4], h, wc = 0, up = bad ? 0 : vf_choice("upper", 2); /* hexadecimal digits; or any printable character in one place */
    at(0, 3); t(".db 1\n"); t(form == 0 ? ".hex \"" : form == 3 ? ".hex block\n" : form == 4 ? ".HEX BLOCK\n  " : ".hex "); if (bad) wc = vf_range("char", 32, 126);
    for (i = 0; i < n; i++) { int m; b[i] = i % 2 ? 90 : vf_u8(msg("b%d", i)); if (i && form != 0) t(form == 3 ? "\n" : " "); for (h = 0; h < 2; h++) { int dgt = b[i] >> (4 - 4 * h) & 15, ch = hexd(dgt); m = -(up & (dgt > 9)); ch = (ch & ~m) | ((ch - 32) & m); if (bad && i == n - 1 && h == 1) { int isd = (wc >= '0') & (wc <= '9'), lc = wc | 32, isl = (lc >= 'a') & (lc <= 'f'), val = isd ? wc - '0' : lc - 'a' + 10; vf_assume((wc != '"') & (wc != '\\') & (wc != ';') & (form == 0 || (wc != ' ' && wc != ',' && wc != '\'' && wc != '*' && wc != '/' && wc != '.' && wc != ':' && wc != '-' && wc != '+'))); ch = wc; ok &= isd | isl; b[i] = (b[i] & 0xf0) | (val & 15); } tch(ch); } }
    t(form == 0 ? "\"\n" : "\n"); if (form >= 3) t(".endhex\n"); t(".db 2\n"); r = build(c); vf_assert(clean(r), "the assembler ends properly"); vf_assert((r == 0) == ok, "hexadecimal digits are accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
    P = 0; wantto(3, 0, "before"); want(1, 1, "before"); for (i = 0; i < n; i++) want(b[i], 1, "byte"); want(2, 1, "after"); wantto(0x100, 0, "after"); vf_reach("ok"); }
  return 0;
}
