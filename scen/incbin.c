/* D04: .INCBIN of a file with symbolic contents: skip, read length, swap, filters, size definitions, the same file twice. */
#include "common.h"
int main() {
  int cpu = vf_param("cpu", 0), filter = vf_param("filter", 0), len = vf_choice("length", vf_param("max", 7)) + 1, skip = 0, read = 0, hs = vf_choice("skip given", 2), hr = vf_choice("read given", 2), swap = vf_choice("swap", 2), order = vf_choice("order", 2), n, i, ok, r, fs = filter ? filter : 1; unsigned char d[16], e[64]; const char *c = cpu ? "wla-6800" : "wla-z80";
  if (hs) skip = vf_choice("skip", 9) - 1; if (hr) { read = vf_choice("read", 16) - 8; }
  for (i = 0; i < len; i++) d[i] = vf_u8(msg("b%d", i)); vf_put("f.bin", d, len);
  n = read < 0 ? len + read - skip : hr ? read : len - skip; ok = (skip >= 0) & (skip < len) & (n >= 0) & (skip + n <= len) & !(hr && read == 0); if (swap && fs == 1 && n % 2) ok = 0; if (n % fs) ok = 0;
  tn(); map1(0, 0x100, 1); if (filter) t(".macro flt\n.redefine _out \\1%s\n.redefine seen \\2*10+\\3\n.endm\n", filter == 1 ? "/2+\\2*3" : ""); at(0, 5); t(".db 1\n.incbin \"f.bin\"");
  if (hs && !order) t(" skip %d", skip); if (hr) t(" read %d", read); if (hs && order) t(" skip %d", skip); if (swap && !order) t(" swap"); t(" fsize fz"); if (filter) t(" filter flt filtersize %d", filter); t(" freadsize rz"); if (swap && order) t(" swap"); t("\n.db 2, fz, rz\n"); if (filter && n > 0) t(".db seen\n");
  t(".org $80\n.incbin \"f.bin\"\n.db 3\n");
  r = build(c); vf_assert((r == 0) == ok && clean(r), "what the file can satisfy is accepted, all else refused"); if (r) { vf_reach("refused"); return 0; }
  vf_assert(OUTN == 0x100, "size"); for (i = 0; i < n; i++) e[i] = d[skip + (swap && fs == 1 ? i ^ 1 : i)];
  if (filter == 1) for (i = 0; i < n; i++) e[i] = e[i] / 2 + i * 3;
  else if (filter) { int k; for (i = 0; i + fs <= n; i += fs) if (swap ^ cpu) for (k = 0; k < fs / 2; k++) { unsigned char x = e[i + k]; e[i + k] = e[i + fs - 1 - k]; e[i + fs - 1 - k] = x; } }
  P = 0; wantto(5, 0, "before"); want(1, 1, "before"); vf_assert(vf_eqmem(OUT + P, e, n), "included bytes"); P += n; want(2, 1, "after"); want(len, 1, "file size"); want(n, 1, "read size"); if (filter && n) want((n / fs - 1) * 10 + fs, 1, "filter index"); 
  wantto(0x80, 0, "after"); vf_assert(vf_eqmem(OUT + 0x80, d, len), "second inclusion"); P += len; want(3, 1, "after the second"); wantto(0x100, 0, "rest"); vf_reach("ok"); return 0;
}
