/* Shared building blocks of the scenarios. */
#ifndef COMMON_H
#define COMMON_H
#include "vf.h"
/* one ROM bank / several equal banks */
static void map1(unsigned slot, unsigned size, int banks) { t(".MEMORYMAP\nDEFAULTSLOT 0\nSLOT 0 $%x $%x\n.ENDME\n.ROMBANKMAP\nBANKSTOTAL %d\nBANKSIZE $%x\nBANKS %d\n.ENDRO\n", slot, size, banks, size, banks); }
static void at(int bank, unsigned org) { t(".BANK %d SLOT 0\n.ORG $%x\n", bank, org); }
static int asmf(const char *cpu, const char *src, const char *obj) { return vf_run(cpu, "-o", obj, src, (char *)0); }
static int linkf(const char *objs, const char *out) { tn(); t("[objects]\n%s", objs); tput("lf"); return vf_run("wlalink", "lf", out, (char *)0); }
/* assemble the text collected in T (as a.s) and link it alone; 0 when both succeed */
static int build(const char *cpu) { int r; tput("a.s"); vf_remove("out.bin"); vf_remove("a.o"); r = asmf(cpu, "a.s", "a.o"); if (r) return r; r = linkf("a.o\n", "out.bin"); if (r) return 100 + r; get("out.bin"); return 0; }
/* outcome of a run that had to end one way or another: 0 fine, 1 refused; anything else is a crash or a hang */
static int clean(int r) { return (r == 0) | (r == 1); }
/* reading numbers back from OUT */
static unsigned le(int at, int n) { unsigned v = 0; int i; for (i = 0; i < n; i++) v |= (unsigned)OUT[at + i] << (8 * i); return v; }
static unsigned be(int at, int n) { unsigned v = 0; int i; for (i = 0; i < n; i++) v = (v << 8) | OUT[at + i]; return v; }
static unsigned lebe(int big, int at, int n) { return big ? be(at, n) : le(at, n); }
static unsigned maskn(int n) { return n >= 4 ? 0xffffffffu : (1u << (8 * n)) - 1; }
/* make name a definition that holds the low bytes of v (1 to 4 of them), unsigned, through a file */
static void defsym(const char *name, unsigned v, int n) {
  char f[40]; int i; sprintf(f, "d_%s.bin", name); fval(f, v, n); t(".fopen \"%s\" fp_%s\n", f, name);
  for (i = 0; i < n; i++) t(".fread fp_%s t%d_%s\n", name, i, name);
  t(".redefine %s = t0_%s", name, name); for (i = 1; i < n; i++) t("+(t%d_%s*%u)", i, name, 1u << (8 * i)); t("\n.fclose fp_%s\n", name);
}
static char MSG[512];
static const char *msg(const char *f, ...) { va_list ap; va_start(ap, f); vsnprintf(MSG, sizeof MSG, f, ap); va_end(ap); return MSG; }
/* reading the image back piece by piece */
static int P, BIG;
static void want(unsigned v, int n, const char *what) { vf_assert(((lebe(BIG, P, n) ^ v) & maskn(n)) == 0, msg("%s at offset %d", what, P)); P += n; }
static void wantto(int end, int v, const char *what) { int ok = 1; while (P < end) { ok &= OUT[P] == (v & 255); P++; } vf_assert(ok, msg("%s up to %d", what, end)); }
#endif
