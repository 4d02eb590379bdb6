/* D01: lines of several values of all kinds, in order, every width, in and out of sections. */
#include "common.h"
int main() {
  static const char *CPUS[] = {"wla-z80", "wla-6800", "wla-65816"}; const char *cpu = CPUS[vf_param("cpu", 0)]; int r, i, sec = vf_param("sec", 0), org = 0x23, bnk = 2; unsigned a, b, c, d, lab, la2;
  BIG = vf_param("cpu", 0) == 1; a = vf_range("a", 0, 65535); b = vf_range("b", 0, 65535); c = vf_range("c", 0, 65535); d = vf_u8("d");
  tn(); map1(0x4000, 0x100, 3); defsym("e1", c, 2); defsym("e2", d, 1); defsym("e4", c, 2); t(".redefine e4 ((e4>>1)<<16)+$1234\n.export e1, e2, e4\n"); tput("b.s");
  r = asmf(cpu, "b.s", "b.o"); vf_assert(r == 0, "b"); if (r) return 0;
  tn(); map1(0x4000, 0x100, 3); defsym("a", a, 2); defsym("b", b, 2); defsym("d", d, 1);
  at(bnk, org); if (sec) t(".section \"S\" %s\n", sec == 1 ? "force" : "free");
  t("L1:\n.db a&255, d, a>>8, \"xY\", 'q', e2, 0-1, e2+0, b&$7f\n.dw a, b, e1, L1, L2, L2-L1, e1+0, a ~ e1\n.dl a*256, e1, L1, L2+1, b*d, e1*256\n.dd (a>>1)*65536, e4, L2, e4+1, 0-b, d\nL2:\n.db $99\n");
  t(".dw L1+3, L1 & $ff00, 1,2,3\n.byte e2\n.word e1, a\n.long e1\n.addr L2\n");
  if (sec) t(".ends\n");
  tput("a.s"); vf_remove("out.bin"); r = asmf(cpu, "a.s", "a.o"); vf_assert(r == 0, "a"); if (r) return 0;
  r = linkf("a.o\nb.o\n", "out.bin"); vf_assert(r == 0, "link"); if (r) return 0; get("out.bin"); vf_assert(OUTN == 0x300, "size");
  P = bnk * 0x100 + (sec == 2 ? 0 : org); lab = 0x4000 + (sec == 2 ? 0 : org); la2 = lab + 10 + 16 + 18 + 24;
  for (i = 0; i < P; i++) vf_assert(OUT[i] == 0, "before");
  want(a, 1, "db"); want(d, 1, "db"); want(a >> 8, 1, "db"); want('x', 1, "db"); want('Y', 1, "db"); want('q', 1, "db"); want(d, 1, "db ext"); want(255, 1, "db -1"); want(d, 1, "db ext+0"); want(b & 0x7f, 1, "db");
  want(a, 2, "dw"); want(b, 2, "dw"); want(c, 2, "dw ext"); want(lab, 2, "dw label"); want(la2, 2, "dw later label"); want(la2 - lab, 2, "dw difference"); want(c, 2, "dw ext+0"); want(a ^ c, 2, "dw a~ext");
  { unsigned base = (unsigned)bnk << 16; /* a 24-bit reference to a label includes its bank */
  want(a * 256, 3, "dl"); want(c, 3, "dl ext"); want(base + lab, 3, "dl label"); want(base + la2 + 1, 3, "dl label+1"); want(b * d, 3, "dl"); want(c * 256, 3, "dl ext*256"); }
  want((a >> 1) << 16, 4, "dd"); want(((c >> 1) << 16) + 0x1234, 4, "dd ext"); want(la2, 4, "dd label"); want(((c >> 1) << 16) + 0x1235, 4, "dd ext+1"); want(0 - b, 4, "dd -b"); want(d, 4, "dd d");
  want(0x99, 1, "db"); want(lab + 3, 2, "dw label+3"); want(lab & 0xff00, 2, "dw label&"); want(1, 2, "1"); want(2, 2, "2"); want(3, 2, "3"); want(d, 1, "byte"); want(c, 2, "word"); want(a, 2, "word"); want(c, 3, "long"); want(la2, 2, "addr");
  for (i = P; i < 0x300; i++) vf_assert(OUT[i] == 0, "after");
  vf_reach("ok"); return 0;
}
