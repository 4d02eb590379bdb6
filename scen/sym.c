/* L05: symbol files. */
#include "common.h"
static unsigned char IMG[0x400]; static int LS[400], LE[400], NL;
static unsigned hx(int at, int n) { unsigned v = 0; int i; for (i = 0; i < n; i++) { unsigned c = OUT[at + i]; int m = -(int)(c >= 'a'); v = v * 16 + (((c - '0') & ~m) | ((c - 'a' + 10) & m)); } return v; }
static int eq(int at, int end, const char *s) { int i; for (i = 0; s[i]; i++) { if (at + i >= end || OUT[at + i] != (unsigned char)s[i]) return 0; } return at + i == end; }
static void lines(void) { int i, s = 0; NL = 0; for (i = 0; i < OUTN; i++) if (OUT[i] == '\n') { LS[NL] = s; LE[NL++] = i; s = i + 1; } }
/* the only line of a section whose text from column on is name (column -1: any line); 0 none, negative: more than one */
static int in_section(const char *sec, int col, const char *name) { int i, on = sec == 0, hit = -1, n = 0; for (i = 0; i < NL; i++) { if (sec && LE[i] > LS[i] && OUT[LS[i]] == '[') { on = eq(LS[i], LE[i], sec); continue; } if (on && LE[i] - LS[i] > col && OUT[LS[i] + col - 1] == ' ' && eq(LS[i] + col, LE[i], name)) { hit = i; n++; } } return n == 0 ? -1 : n == 1 ? hit : -2; }
struct N { const char *name; int bank, addr, sym; }; /* bank < 0: not known before; addr: where the reference is */
static int LINE[8]; static unsigned CRC, CRC2;
static unsigned crc(const unsigned char *p, int n) { unsigned c = ~0u; int i; while (n--) { c ^= *p++; for (i = 0; i < 8; i++) c = c >> 1 ^ (0xEDB88320u & -(c & 1)); } return ~c; }
int main() {
  static const char *NAMES[] = {"A", "B", "A@kid", "FA", "GA", "HA", "V", "V2", "I", "I.x", "I.y", "OUTER", "_loc2"}; static int mode, disc; int kind = vf_param("kind", 0), r, i, l, nn = 13, snes = vf_param("snes", 0), o, b0, b1, bb = vf_param("base", 0), q; unsigned x, d; const char *cpu = snes ? "wla-65816" : "wla-z80"; const char *f1;
  mode = vf_param("mode", 0); disc = vf_choice("discard", 2); f1 = mode == 0 ? "-S" : mode == 1 ? "-s" : "-sE"; o = vf_choice("o", 3); b0 = snes ? 0x8000 : vf_range("b0", 0, 0xf0) * 0x100; b1 = snes ? 0x8000 : vf_range("b1", 0, 0xf000); x = vf_range("x", 0, 0xffff); d = vf_u8("d"); if (kind == 1) { b0 = 0x2000; b1 = 0x4300; x = 0x1234; d = 7; } tn(); defsym("b0", b0, 2); defsym("b1", b1, 2); defsym("x", x, 2); defsym("d", d, 1);
#define MAP t(".MEMORYMAP\nDEFAULTSLOT 0\nSLOTSIZE $100\nSLOT 0 b0\nSLOT 1 b1\nSLOTSIZE $100\nSLOT 2 $fe00\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL 3\nBANKSIZE $100\nBANKS 3\n.ENDRO\n"); if (snes) t(".LOROM\n");
  MAP { static char head[4000]; int hl = TL; memcpy(head, T, TL); t(".bank 2 slot 1\n.org $90\nOUTER: .db $77\n_dup: .db 1\n.dw _dup\n.define ob $1234\n.export ob\n"); tput("b.s"); r = kind == 1 ? vf_run(cpu, "-i", "-o", "b.o", "b.s", (char *)0) : asmf(cpu, "b.s", "b.o"); vf_assert(r == 0, "b assembles"); if (r) return 0; memcpy(T, head, hl); TL = hl; }
  t(".struct st\nx db\ny dw\n.endst\n.base $%x\n.define d1 x\n.redefine d2 -1-x\n.export d1, d2\n.bank 1 slot 1\n.org %d\nA: .db $A1\n@kid: .db d\n.sym SA\n_dup: .db 3\n.br\nB: .db $B1\n+: .db 1\n_loc2: .db 2\n", bb, o);
  t(".section \"F\" force\nFA: .db $F1\nFB: .db 1\n.ends\n.bank 2 slot 0\n.section \"G\" free\n.db 0\nGA: .db $61\n.sym SG\n.ends\n.section \"H\" superfree\nHA: .db $81\n.ends\n.section \"D\" free\nDA: .db $D1\n.ends\n.ramsection \"R\" bank 0 slot 2 org 3 force\nV db\nV2 dw\nI instanceof st\n.ends\n.base 0\n.bank 0 slot 0\n.org $80\n");
  for (i = 0; i < nn; i++) if (snes) t(".dl %s\n", NAMES[i]); else t(".dw %s\n.db :%s\n", NAMES[i], NAMES[i]); t(".dw d1, -1-d2\n"); if (kind == 1) { static const char *M[] = {"FA:", "FB:", ".db 0\n", "GA:", "HA:", "DA:"}; tch(0); TL--; for (i = 0; i < 6; i++) { char *w = strstr((char *)T, M[i]); int k; LINE[i] = 1; for (k = 0; k < w - (char *)T; k++) LINE[i] += T[k] == '\n'; } t(".bank 1 slot 1\n.org $40\n.section \"P\" appendto \"F\"\n PA: .dw $1122\n\n.include \"inc.s\"\n.rept 2\n.db 5\n.endr\n.ends\n"); tch(0); TL--; { char *w = strstr((char *)T, " PA:"); int k; LINE[6] = 1; for (k = 0; k < w - (char *)T; k++) LINE[6] += T[k] == '\n'; } CRC = crc(T, TL); tput("a.s"); tn(); t("\n.db 6, 7\n"); tput("inc.s"); CRC2 = crc(T, TL); } else tput("a.s"); r = kind == 1 ? vf_run(cpu, "-i", "-o", "a.o", "a.s", (char *)0) : asmf(cpu, "a.s", "a.o"); vf_assert(r == 0, "a assembles"); if (r) return 0;
  tn(); t("[objects]\na.o\nb.o\n"); tput("lf"); vf_remove("out.bin"); r = kind == 1 ? disc ? vf_run("wlalink", "-A", "-d", "-S", "lf", "out.bin", (char *)0) : vf_run("wlalink", "-A", "-S", "lf", "out.bin", (char *)0) : disc ? vf_run("wlalink", "-d", f1, "lf", "out.bin", (char *)0) : vf_run("wlalink", f1, "lf", "out.bin", (char *)0); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin"); vf_assert(OUTN == 0x300, "size"); memcpy(IMG, OUT, 0x300); get("out.sym"); vf_assert(OUTN > 0, "symbol file"); lines();
  { int p = 0x80 + nn * 3; vf_assert(IMG[p] + 256u * IMG[p + 1] == x && IMG[p + 2] + 256u * IMG[p + 3] == x, "definitions"); }
  for (i = 0; i < nn; i++) { unsigned ra = IMG[0x80 + 3 * i] + 256u * IMG[0x81 + 3 * i], rb = IMG[0x82 + 3 * i]; static char eqn[40]; 
    if (mode == 2) { int n = 0, hit = 0; for (l = 0; l < NL; l++) { int k = (int)strlen(NAMES[i]); if (LE[l] - LS[l] == k + 11 && OUT[LS[l] + k] == ':' && eq(LS[l], LS[l] + k, NAMES[i])) { n++; hit = l; } } vf_assert(n == 1, msg("%s once", NAMES[i])); if (n != 1) return 0; q = LE[hit] - 5; vf_assert(eq(q - 6, q, ": equ ") || eq(q - 5, q, " equ "), "format"); vf_assert(OUT[q + 4] == 'H' && hx(q, 4) == ra, msg("%s address", NAMES[i])); (void)eqn; continue; }
    l = in_section(mode == 0 ? "[labels]" : 0, snes && mode == 1 ? 9 : 8, NAMES[i]); vf_assert(l >= 0, msg("%s listed once", NAMES[i])); if (l < 0) return 0; q = LS[l];
    if (snes && mode == 1) { vf_assert(hx(q, 4) == rb && hx(q + 4, 4) == ra, msg("%s place", NAMES[i])); } else { vf_assert(OUT[q + 2] == ':' && hx(q, 2) == rb, msg("%s bank", NAMES[i])); vf_assert(hx(q + 3, 4) == ra, msg("%s address", NAMES[i])); } }
  /* unreferenced: the label is there exactly when its bytes are */
  { int have = 0, n = 0; for (i = 0; i < 0x300; i++) have |= i < 0x80 && 0; for (i = 0x200; i < 0x290; i++) have += IMG[i] == 0xD1; for (i = 0; i < NL; i++) { int e = LE[i]; n += mode == 2 ? eq(LS[i], LS[i] + 3, "DA:") : e - LS[i] > 3 && eq(e - 3, e, " DA"); } vf_assert(have == !disc && n == have, "unreferenced section"); }
  for (i = 0; i < NL; i++) { int e = LE[i]; if (e > LS[i] && mode != 2 && OUT[LS[i]] != ';' && OUT[LS[i]] != '[') vf_assert(OUT[e - 1] != '+', "anonymous labels stay out"); }
  if (kind == 1) { static unsigned ra[16]; static int ln[16], src[16], sz[16]; int n = 0, on = 0, nl = 0, fa, ga, ha, da = 0, ba, bf = 0; (void)sz; unsigned ca;
    fa = 0x100 + o + 6; l = in_section("[sections]", 31, "G"); ga = hx(LS[l], 8); l = in_section("[sections]", 31, "H"); ha = hx(LS[l], 8); if (!disc) { l = in_section("[sections]", 31, "D"); da = hx(LS[l], 8); }
#define EN(a, k, f) { ra[n] = a; ln[n] = k; src[n++] = f; }
    EN(fa, LINE[0], 1) EN(fa + 1, LINE[1], 1) EN(ga, LINE[2], 1) EN(ga + 1, LINE[3], 1) EN(ha, LINE[4], 1) if (!disc) EN(da, LINE[5], 1) EN(fa + 2, LINE[6], 1) EN(fa + 4, 2, 2) EN(fa + 6, LINE[6] + 4, 1) EN(fa + 7, LINE[6] + 4, 1)
    for (i = 0; i < NL; i++) { if (LE[i] > LS[i] && OUT[LS[i]] == '[') { on = eq(LS[i], LE[i], "[addr-to-line mapping v2]"); continue; } if (on && LE[i] > LS[i]) { int k, hit = 0; q = LS[i]; nl++; vf_assert(LE[i] - q == 40, "format"); if (LE[i] - q != 40) return 0; for (k = 0; k < n; k++) if (hx(q, 8) == ra[k]) { hit++; ba = (int)(ra[k] >> 8); vf_assert(hx(q + 9, 2) == (unsigned)(ba + bb) && hx(q + 12, 4) == (ra[k] & 0xff), msg("bank and offset of entry %d", k)); vf_assert(hx(q + 17, 4) == (ra[k] & 0xff) + (k == 0 || k == 1 || k > n - 5 ? (unsigned)b1 : (unsigned)b0), msg("memory address of entry %d", k)); vf_assert(hx(q + 22, 4) == 1 + (unsigned)bf && (int)hx(q + 27, 4) == src[k], msg("file of entry %d", k)); vf_assert((int)hx(q + 32, 8) == ln[k], msg("line of entry %d", k)); } vf_assert(hit == 1, "entry of a line that has bytes"); } } vf_assert(nl == n, "as many entries as lines with bytes");
    l = in_section("[source files v2]", 19, "a.s "); vf_assert(l >= 0, "source file"); if (l >= 0) vf_assert(hx(LS[l], 4) == 1 && hx(LS[l] + 5, 4) == 1 && hx(LS[l] + 10, 8) == CRC, "source file checksum"); l = in_section("[source files v2]", 19, "inc.s "); vf_assert(l >= 0, "included file"); if (l >= 0) vf_assert(hx(LS[l], 4) == 1 && hx(LS[l] + 5, 4) == 2 && hx(LS[l] + 10, 8) == CRC2, "included file checksum"); l = in_section("[source files v2]", 19, "b.s "); vf_assert(l >= 0 && hx(LS[l], 4) == 2, "source file of the second object");
    ca = crc(IMG, 0x300); on = 0; for (i = 0; i < NL; i++) { if (eq(LS[i], LE[i], "[rom checksum]")) on = i + 1; } vf_assert(on && LE[on] - LS[on] == 8 && hx(LS[on], 8) == ca, "checksum of the image"); vf_reach("ok"); return 0; }
  if (mode == 0) { unsigned fa = IMG[0x80 + 9] + 256u * IMG[0x81 + 9], fb = IMG[0x82 + 9], aa = IMG[0x80] + 256u * IMG[0x81], ab = IMG[0x82], ba = IMG[0x83] + 256u * IMG[0x84], ga = IMG[0x80 + 12] + 256u * IMG[0x81 + 12], gb = IMG[0x82 + 12];
    l = in_section("[symbols]", 8, "SA"); vf_assert(l >= 0, "symbol listed"); if (l >= 0) vf_assert(hx(LS[l], 2) == ab && hx(LS[l] + 3, 4) == aa + 2, "symbol"); l = in_section("[symbols]", 8, "SG"); vf_assert(l >= 0, "symbol in a section listed"); if (l >= 0) vf_assert(hx(LS[l], 2) == gb && hx(LS[l] + 3, 4) == ga + 1, "symbol in a section");
    { int on = 0, n = 0; for (i = 0; i < NL; i++) { if (LE[i] > LS[i] && OUT[LS[i]] == '[') { on = eq(LS[i], LE[i], "[breakpoints]"); continue; } if (on && LE[i] > LS[i]) { n++; vf_assert(LE[i] - LS[i] == 7 && hx(LS[i], 2) == ab && hx(LS[i] + 3, 4) == ba, "breakpoint"); } } vf_assert(n == 1, "one breakpoint"); }
    l = in_section("[definitions]", 9, "d1"); vf_assert(l >= 0, "definition listed"); if (l >= 0) vf_assert(hx(LS[l], 8) == x, "definition"); l = in_section("[definitions]", 9, "d2"); vf_assert(l >= 0, "negative definition listed"); if (l >= 0) vf_assert(hx(LS[l], 8) == (unsigned)(-1 - (int)x), "negative definition"); l = in_section("[definitions]", 9, "ob"); vf_assert(l >= 0, "definition of the other object"); if (l >= 0) vf_assert(hx(LS[l], 8) == 0x1234, "definition of the other object");
    /* sections: output address, bank, offset, memory address, size, name */
    l = in_section("[sections]", 31, "F"); vf_assert(l >= 0, "section listed"); if (l >= 0) { q = LS[l]; vf_assert(hx(q, 8) == 0x100u + o + 6, "output address"); if (!snes) vf_assert(hx(q + 9, 2) == fb, "section bank"); vf_assert(hx(q + 12, 4) == (unsigned)o + 6, "section offset"); vf_assert(hx(q + 17, 4) == fa, "memory address"); vf_assert(hx(q + 22, 8) == 2, "size"); }
    l = in_section("[sections]", 31, "G"); vf_assert(l >= 0, "free section listed"); if (l >= 0) { q = LS[l]; vf_assert((snes || hx(q + 9, 2) == gb) && hx(q + 17, 4) == ga - 1 && hx(q + 22, 8) == 2, "free section"); { unsigned oa = hx(q, 8); oa = vf_concrete(oa); vf_assert(oa + 1 < 0x300 && IMG[oa + 1] == 0x61, "bytes of the free section"); } }
    l = in_section("[sections]", 31, "D"); vf_assert(disc ? l < 0 : l >= 0, "unreferenced section listed"); l = in_section("[ramsections]", 22, "R"); vf_assert(l >= 0, "RAM section listed"); if (l >= 0) { q = LS[l]; vf_assert(hx(q, 2) == (unsigned)IMG[0x82 + 18] && hx(q + 8, 4) == 0xfe03 && hx(q + 13, 8) == 6, "RAM section"); } }
  vf_reach("ok"); return 0; }
