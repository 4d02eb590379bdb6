/* L03: checksums of Game Boy, Master System, SNES and Mega Drive images with symbolic bytes at the places that matter. */
#include "common.h"
static unsigned char IMG[1 << 19]; static int SIZE, BS, NP;
static void piece(int a, int n) { unsigned char b[64]; char f[16]; int i; for (i = 0; i < n; i++) { b[i] = vf_u8(msg("x%d", a + i)); IMG[a + i] = b[i]; } sprintf(f, "p%d.bin", NP++); vf_put(f, b, n); at(a / BS, a % BS); t(".incbin \"%s\"\n", f); }
int main() {
  int sys = vf_param("sys", 0), kb = vf_param("kb", 32), fill = vf_param("fill", 0xc5), i, r, mode = vf_param("mode", 0), mask0 = -1, mask1 = -1; unsigned sum = 0; const char *cpu; static const char *MODES[] = {".lorom", ".hirom"};
  SIZE = kb * 1024; tn();
  if (sys == 0) { cpu = "wla-gb"; BS = 0x4000; } else if (sys == 1) { cpu = "wla-z80"; BS = SIZE < 0x4000 ? SIZE : 0x4000; } else if (sys == 2) { cpu = "wla-65816"; BS = mode ? 0x10000 : 0x8000; } else { cpu = "wla-68000"; BS = SIZE; }
  if (sys == 1 && vf_param("bank", 0)) BS = SIZE;
  map1(sys == 2 && !mode ? 0x8000 : 0, BS, SIZE / BS); t(".emptyfill %d\n", fill); for (i = 0; i < SIZE; i++) IMG[i] = fill;
  if (sys == 0) { /* sum of all bytes but the sum's own; complement of the header bytes */
    int two = mode != 1; t(two ? ".computegbchecksum\n.computegbcomplementcheck\n" : ".computegbchecksum\n"); if (!two || mode == 2) { piece(0, 2); piece(0x132, 2); piece(0x150, 2); piece(0x3fff, 1); piece(0x4000, 1); piece(SIZE - 2, 2); } if (mode != 2) piece(0x134, 2); if (mode != 2) piece(0x14a, 3);
    r = build(cpu); vf_assert(r == 0, "builds"); if (r) return 0; vf_assert(OUTN == SIZE, "size");
    if (two) { for (i = 0x134; i <= 0x14c; i++) sum -= IMG[i] + 1; vf_assert(OUT[0x14d] == (sum & 255), "complement"); IMG[0x14d] = OUT[0x14d]; }
    for (sum = i = 0; i < SIZE; i++) if (i != 0x14e && i != 0x14f) sum += IMG[i]; IMG[0x14e] = sum >> 8; IMG[0x14f] = sum; vf_assert((OUT[0x14f] == (sum & 255)) & (OUT[0x14e] == (sum >> 8 & 255)), "checksum");
  } else if (sys == 1) { /* everything below the tag, and above it up to the size the header names */
    int tag = SIZE < 0x4000 ? 0x1ff0 : SIZE < 0x8000 ? 0x3ff0 : 0x7ff0, hdr = vf_param("hdr", 0), code = vf_param("code", 0), end, rc;
    static const int CODES[] = {0xc, 0xe, 0xf, 0xa, 0xb}, ENDS[] = {32, 64, 128, 8, 16};
    if (hdr == 0) t(".computesmschecksum\n"); else if (hdr == 1) t(".smstag\n"); else t(".smsheader\nromsize $%x\n.endsms\n", CODES[code]);
    piece(0, 2); piece(0x1fef, 1); if (SIZE > 0x2000) piece(0x2000, 2); if (SIZE > 0x4000) { piece(0x3fee, 2); piece(0x4000, 2); } if (SIZE >= 0x8000) piece(0x7fee, 2); if (SIZE > 0x8000) { piece(0x8000, 2); piece(SIZE - 2, 2); }
    if (hdr == 0 && vf_param("own", 0)) { piece(tag, 10); piece(tag + 12, 3); }
    rc = hdr == 2 ? CODES[code] : SIZE < 0x4000 ? 0xa : SIZE < 0x8000 ? 0xb : 0xc;
    r = build(cpu); vf_assert(r == 0, "builds"); if (r) return 0; vf_assert(OUTN == SIZE, "size");
    end = (hdr == 2 ? ENDS[code] : SIZE < 0x4000 ? 8 : SIZE < 0x8000 ? 16 : 32) * 1024;
    if (hdr) for (i = 0; i < 8; i++) IMG[tag + i] = "TMR SEGA"[i];
    for (i = 0; i < end; i++) if (i < tag || i > tag + 15) sum += IMG[i];
    if (hdr == 2) { tag = end == 0x2000 ? 0x1ff0 : end == 0x4000 ? 0x3ff0 : 0x7ff0; }
    vf_assert((OUT[tag + 10] == (sum & 255)) & (OUT[tag + 11] == (sum >> 8 & 255)), "checksum"); IMG[tag + 10] = sum; IMG[tag + 11] = sum >> 8;
    if (hdr == 2) { IMG[tag + 12] = IMG[tag + 13] = IMG[tag + 14] = 0; IMG[tag + 8] = IMG[tag + 9] = OUT[tag + 8]; } IMG[tag + 15] = 0x40 | rc;
  } else if (sys == 2) { /* checksum fields count as $ffff and 0; a size that is no power of two repeats its tail */
    int tag = mode ? 0xffdc : 0x7fdc, p2 = 1, a = 0; t("%s\n.computesneschecksum\n", MODES[mode]); piece(0, 2); piece(tag - 2, 2); piece(tag + 4, 2); piece(SIZE - 3, 2); if (SIZE > BS) piece(BS - 1, 1), piece(BS, 1);
    r = build(cpu); vf_assert(r == 0, "builds"); if (r) return 0; vf_assert(OUTN == SIZE, "size");
    IMG[tag] = IMG[tag + 1] = 255; IMG[tag + 2] = IMG[tag + 3] = 0; IMG[tag - 7] = mode ? 0x21 : 0x20; while (p2 * 2 <= SIZE) p2 *= 2;
    for (i = 0; i < p2; i++) sum += IMG[i]; if (p2 < SIZE) { int rest = SIZE - p2; for (i = 0; i < p2; i++) sum += IMG[p2 + i % rest]; }
    vf_assert((OUT[tag + 2] == (sum & 255)) & (OUT[tag + 3] == (sum >> 8 & 255)), "checksum"); vf_assert((OUT[tag] == (~sum & 255)) & (OUT[tag + 1] == (~sum >> 8 & 255)), "complement"); IMG[tag] = ~sum; IMG[tag + 1] = ~sum >> 8; IMG[tag + 2] = sum; IMG[tag + 3] = sum >> 8;
  } else { /* 16-bit big endian words after the header */
    t(".computesmdchecksum\n"); piece(0, 2); piece(0x18c, 2); piece(0x1fe, 2); piece(0x200, 3); piece(SIZE - 4, 4);
    r = build(cpu); vf_assert(r == 0, "builds"); if (r) return 0; vf_assert(OUTN == SIZE, "size");
    for (i = 0x200; i < SIZE; i += 2) sum += IMG[i] << 8 | IMG[i + 1]; vf_assert((OUT[0x18f] == (sum & 255)) & (OUT[0x18e] == (sum >> 8 & 255)), "checksum"); IMG[0x18e] = sum >> 8; IMG[0x18f] = sum;
  }
  for (i = 0; i < SIZE; i += 0x400) vf_assert(vf_eqmem(OUT + i, IMG + i, 0x400), msg("bytes at $%x", i));
  vf_reach("ok"); return 0;
}
