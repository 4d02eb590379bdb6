/* L04: ROM headers. */
#include "common.h"
static unsigned char W[0x10000]; static unsigned char U[0x10000]; static int refuse;
static void w(int at, unsigned v) { W[at] = (unsigned char)v; }
/* a string field: symbolic first and last character, length chosen */
static void str(const char *name, const char *pre, int at, int max, int pad, int min) {
  static int no; int n = vf_choice(msg("%s length", name), 5), i, len = n == 0 ? min : n == 1 ? 2 : n == 2 ? max - 1 : n == 3 ? max : max + 1; unsigned a = vf_u8(msg("%s first", name)), z = vf_u8(msg("%s last", name)); no++; if (len < min) len = min; 
  vf_assume((a > 32) & (a < 127) & (a != '"') & (a != '\\') & (a != '{') & (a != '}')); vf_assume((z > 32) & (z < 127) & (z != '"') & (z != '\\') & (z != '{') & (z != '}'));
  t("%s%s \"", pre, name); for (i = 0; i < len; i++) { unsigned c = i == 0 ? a : i == len - 1 ? z : (unsigned)('b' + i % 20); tch(c); if (i < max) w(at + i, c); } t("\"\n"); for (; i < max; i++) w(at + i, pad); if (len > max) refuse = 1; }
struct F { const char *name; int off, lo, hi; };
static const struct F GB[] = {{"CARTRIDGETYPE", 0x147, -128, 255}, {"RAMSIZE", 0x149, -128, 255}, {"COUNTRYCODE", 0x14a, -128, 255}, {"DESTINATIONCODE", 0x14a, -128, 255}, {"VERSION", 0x14c, -128, 255}, {"ROMSIZE", 0x148, -128, 255}, {"LICENSEECODEOLD", 0x14b, -128, 255}};
static const struct F SN[] = {{"CARTRIDGETYPE", 1, -128, 255}, {"ROMSIZE", 2, -128, 255}, {"SRAMSIZE", 3, 0, 7}, {"COUNTRY", 4, -128, 255}, {"LICENSEECODE", 5, -128, 255}, {"VERSION", 6, -128, 255}};
static unsigned ch2(const char *n) { unsigned c = vf_u8(n); vf_assume((c > 32) & (c < 127) & (c != '"') & (c != '\\') & (c != '{') & (c != '}')); return c; }
static int s16(const char *n, int at) { unsigned v = vf_range(n, 0, 1023); defsym(n, v, 2); (void)at; return (int)v - 400; } /* written as (n-400) */
int main() {
  int r, i, kind = vf_param("kind", 0), size = 0x400, f = 0xa5, big = 0, base = 0, form, which; const char *cpu = "wla-gb"; tn(); BIG = 0;
  if (kind == 0) { /* Game Boy */ int v, l, nl, gb, nm; const char *p; v = 0; form = vf_choice("form", 2); which = vf_choice("field", 9); nl = vf_choice("logo", 2); gb = vf_choice("kind", 5); vf_assume((which == 8) | (nl == gb % 2)); p = form ? "" : ".";
    map1(0, 0x200, 2); t(".emptyfill $a5\n"); memset(W, f, size); v = s16("v", 0); l = vf_choice("twice", 3); vf_assume((l == 0) | (which < 7)); vf_assume((which == 7) | (which == 8) | (gb < 2)); if (form) t(".gbheader\n"); 
    { static const char *K[] = {"", "ROMDMG", "ROMSGB", "ROMGBC", "ROMGBCONLY"}; static const char *G = "\xce\xed\x66\x66\xcc\x0d"; 
      if (gb) t("%s%s\n", p, K[gb]); if (nl) { t("%sNINTENDOLOGO\n", p); for (i = 0; i < 6; i++) w(0x104 + i, G[i]); for (; i < 48; i++) U[0x104 + i] = 1; } }
    if (which < 7) { const struct F *q = &GB[which]; t("%s%s v-400\n", p, q->name); if (l == 1) t("%s%s v-400\n", p, q->name); if (l == 2) { t("%s%s v-399\n", p, q->name); refuse = 1; } vf_assume(((v >= -130) & (v <= 257)) | (l == 0)); if (form ? (v < q->lo) | (v > q->hi) : which == 1 ? (v < 0) | (v > 5) : (v < ((which == 2) | (which == 3) | (which == 5) ? 0 : -128)) | (v > 255)) refuse = 1; w(q->off, v); if (which == 6) { w(0x144, 0); w(0x145, 0); } }
    nm = 0; if (which == 8) { str("NAME", p, 0x134, 16, 0, 1); nm = 1; if (gb >= 3) { /* fifteen characters and the kind */ } }
    if (which == 7) { unsigned c = ch2("c"), d = ch2("d"); t("%sLICENSEECODENEW \"", p); tch(c); tch(d); t("\"\n%sROMSIZE\n", p); w(0x144, c); w(0x145, d); w(0x14b, 0x33); w(0x148, 0); if (vf_choice("both", 2)) { t("%sLICENSEECODEOLD 4\n", p); refuse = 1; } }
    if (gb == 1) w(0x146, 0); if (gb == 2) w(0x146, 3); if (gb >= 3) { w(0x143, gb == 3 ? 0x80 : 0xc0); }
    if (form) { t(".endgb\n"); U[0x14d] = U[0x14e] = U[0x14f] = 1; } (void)nm; t(".bank 1 slot 0\n.org $10\n.db 1\n"); w(0x210, 1); }
  else if (kind == 1) { /* SNES */ int mode = vf_param("mode", 0), fast, v; cpu = "wla-65816"; size = mode ? 0x10000 : 0x8000; base = mode ? 0xffd5 : 0x7fd5; form = vf_choice("form", 2); which = vf_choice("field", form ? 8 : 2); fast = vf_choice("speed", 3); vf_assume((which == 0) | (fast == 0)); map1(0, size, 1); t(".emptyfill $a5\n"); memset(W, f, size); v = s16("v", 0); if (form) t(".snesheader\n");
    { const char *p = form ? "" : "."; static const char *S[] = {"SLOWROM", "FASTROM"}; if (vf_choice("id first", 2)) t("%s%s\n", p, mode ? "HIROM" : "LOROM"); else if (form) { /* the mode last */ big = 1; } else vf_assume(0); if (fast) t("%s%s\n", p, S[fast - 1]); w(base, 0x20 + (mode == 1) + (fast == 2 ? 16 : 0));
      if (which == 0) { str("NAME", p, base - 0x15, 21, 0, 1); } else if (which == 1 && form) str("ID", p, base - 0x23, 4, 0, 1); else if (which > 1) { const struct F *q = &SN[which - 2]; t("%s %s\n", q->name, "v-400"); if ((v < q->lo) | (v > q->hi)) refuse = 1; w(base + q->off, v); }
      if (big) t("%s\n", mode ? "HIROM" : "LOROM"); } if (form) { t(".endsnes\n"); for (i = 7; i < 11; i++) U[base + i] = 1; } big = 0; t(".org $10\n.db 1\n"); w(0x10, 1); }
  else if (kind == 2) { /* SNES vectors */ int mode = vf_choice("mode", 2), emu = vf_choice("emulation", 2), have = vf_choice("given", 7), how = vf_choice("how", 4), k, v; static const char *NV[] = {"COP", "BRK", "ABORT", "NMI", "UNUSED", "IRQ"}, *EV[] = {"COP", "UNUSED", "ABORT", "NMI", "RESET", "IRQBRK"}; cpu = "wla-65816"; size = mode ? 0x10000 : 0x8000; base = (mode ? 0xffe4 : 0x7fe4) + (emu ? 16 : 0); v = (int)vf_range("v", 0, 0xffff); vf_assume((how == 1) | (v == 0x1234));
    t(".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $%x $%x\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL 1\nBANKSIZE $%x\nBANKS 1\n.ENDRO\n.emptyfill $a5\n.%s\n", mode ? 0 : 0x8000, size, size, mode ? "HIROM" : "LOROM"); memset(W, f, size); w(mode ? 0xffd5 : 0x7fd5, 0x20 + mode); defsym("v", v, 2); t(emu ? ".snesemuvector\n" : ".snesnativevector\n");
    for (i = 0; i < 6; i++) { k = (i * 5 + 2) % 6; if (have == 6 || k == have) { const char *nm = (emu ? EV : NV)[k]; unsigned x; if (how == 0) { t("%s handler\n", nm); x = (mode ? 0 : 0x8000) + 0x21; } else if (how == 1) { t("%s v-%d\n", nm, k == have ? 100 : 0); x = v - (k == have ? 100 : 0); } else if (how == 2) { t("%s handler+2*%d\n", nm, k); x = (mode ? 0 : 0x8000) + 0x21 + 2 * k; } else { t("%s v+65536\n", nm); refuse = 1; x = 0; } w(base + 2 * k, x); w(base + 2 * k + 1, x >> 8); } else { w(base + 2 * k, 0); w(base + 2 * k + 1, 0); } }
    t(emu ? ".endemuvector\n" : ".endnativevector\n"); t(".org $20\n.db 1\nhandler: .db 2\n"); w(0x20, 1); w(0x21, 2); }
  else if (kind == 3) { /* Mega Drive */ static const struct { const char *n; int at, len; const char *def; } S[] = {{"SYSTEMTYPE", 0x100, 16, "SEGA MEGA DRIVE "}, {"COPYRIGHT", 0x110, 16, ""}, {"TITLEDOMESTIC", 0x120, 48, ""}, {"TITLEOVERSEAS", 0x150, 48, ""}, {"SERIALNUMBER", 0x180, 14, ""}, {"DEVICESUPPORT", 0x190, 16, "J"}, {"MODEMSUPPORT", 0x1bc, 12, ""}, {"REGIONSUPPORT", 0x1f0, 3, "JUE"}}; int k; unsigned v, x; cpu = "wla-68000"; size = 0x200; map1(0, size, 1); t(".emptyfill $a5\n"); memset(W, f, size); which = vf_choice("field", 13); v = vf_u8("v"); x = vf_u8("x"); defsym("v", v, 1); defsym("x", x, 1); t(".smdheader\n"); U[0x18e] = U[0x18f] = 1;
    for (i = 0; i < 8; i++) { memset(W + S[i].at, ' ', S[i].len); for (k = 0; S[i].def[k]; k++) w(S[i].at + k, S[i].def[k]); } memset(W + 0x1a0, 0, 16); w(0x1a6, 1); w(0x1a7, 0xff); w(0x1a9, 0xff); for (i = 13; i < 16; i++) w(0x1a0 + i, 0xff); memset(W + 0x1b0, 0, 12); memcpy(W + 0x1b0, "RA\xa0 ", 4); memset(W + 0x1c8, ' ', 40); memset(W + 0x1f3, ' ', 13);
    if (which < 8) str(S[which].n, "", S[which].at, S[which].len, ' ', 1); else if (which == 8) { t("ROMADDRESSRANGE v*257, x*65537*100\n"); for (i = 0; i < 8; i++) w(0x1a0 + i, i < 4 ? v * 257u >> (24 - 8 * i) : x * 6553700u >> (56 - 8 * i)); } else if (which == 9) { t("RAMADDRESSRANGE $ff0000+x, $ff0000+v\n"); w(0x1ab, x); w(0x1ae, 0); w(0x1af, v); } else if (which == 10) { t("EXTRAMEMORY \"EX\", v, x, v*256, x*256+1\n"); w(0x1b0, 'E'); w(0x1b1, 'X'); w(0x1b2, v); w(0x1b3, x); w(0x1b6, v); w(0x1ba, x); w(0x1bb, 1); } else if (which == 11) { t("EXTRAMEMORY \"EX\", v+256, x, 0, 0\n"); refuse = 1; }
    t(".endsmd\n.org $10\n.db 1\n"); w(0x10, 1); if (which == 12) { t(".smdheader\n.endsmd\n"); refuse = 1; } }
  else { /* Master System */ static const int SZ[] = {0x2000, 0x4000, 0x8000}; int sz = vf_param("size", 0), v, x, rc = 4, rs; cpu = "wla-z80"; size = SZ[sz]; base = size - 16; rs = 0xa + sz; map1(0, size, 1); t(".emptyfill $a5\n"); memset(W, f, size); v = s16("v", 0); x = vf_u8("x"); defsym("x", x, 1); which = vf_choice("field", 9); t(".smsheader\n"); { int at0 = which == 6 ? 0x100 : base; if (which == 6) t("BASEADDRESS $100\n"); base = at0; }
    memcpy(W + base, "TMR SEGA", 8); for (i = 8; i < 16; i++) w(base + i, 0); U[base + 10] = U[base + 11] = 1;
    if (which == 0) { t("PRODUCTCODE x, 70, v-400\n"); w(base + 12, x); w(base + 13, 70); w(base + 14, v << 4); if ((v < 0) | (v > 15)) refuse = 1; } else if (which == 1) { t("VERSION v-400\n"); w(base + 14, v); if ((v < 0) | (v > 15)) refuse = 1; } else if (which == 2) { t("REGIONCODE v-400\n"); rc = v; if ((v < 3) | (v > 7)) refuse = 1; } else if (which == 3) { t("RESERVEDSPACE v-400, x\n"); w(base + 8, v); w(base + 9, x); if ((v < -128) | (v > 255)) refuse = 1; } else if (which == 4) { t("ROMSIZE v-400\n"); rs = v; if ((v < 0) | (v > 15)) refuse = 1; } else if (which == 5) { t("FORCECHECKSUM x*257+$ff-$ff\n"); U[base + 10] = U[base + 11] = 0; w(base + 10, x); w(base + 11, x); } else if (which == 7) { t("PRODUCTCODE v-400, x, 5\nVERSION 9\n"); w(base + 12, v); w(base + 13, x); w(base + 14, 0x59); if ((v < -128) | (v > 255)) refuse = 1; } else if (which == 8) { t("VERSION 3\nVERSION 4\n"); refuse = 1; }
    w(base + 15, rc << 4 | rs); t(".endsms\n.org $10\n.db 1\n"); w(0x10, 1); }
  r = build(cpu); if (refuse) { vf_assert(r == 1, "refused"); vf_reach("refused"); return 0; } vf_assert(clean(r) && r == 0, "accepted"); if (r) return 0; vf_assert(OUTN == size, "size of the image");
  { int ok = 1, lo = 0; for (i = 0; i < size; i++) { if (!U[i]) ok &= OUT[i] == W[i]; if ((i & 15) == 15) { if (i - lo > 0xff || (i & 0xff) == 0xff || (i & ~0x3f) == (base & ~0x3f) || i > size - 0x60 || (i >= 0x100 && i < 0x200)) { vf_assert(ok, msg("bytes %x to %x", lo, i)); lo = i + 1; ok = 1; } } } }
  vf_reach("ok"); return 0; }
