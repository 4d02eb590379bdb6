/* D05: repeated values, random and sine series. */
#include "common.h"
static unsigned mt[624]; static int mi;
static void seed(unsigned s) { mt[0] = s; for (mi = 1; mi < 624; mi++) mt[mi] = 1812433253u * (mt[mi - 1] ^ (mt[mi - 1] >> 30)) + mi; }
static unsigned rnd(void) { unsigned y; if (mi >= 624) { int k; for (k = 0; k < 624; k++) { y = (mt[k] & 0x80000000u) | (mt[(k + 1) % 624] & 0x7fffffffu); mt[k] = mt[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); } mi = 0; } y = mt[mi++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; y ^= y >> 18; return y; }
double sin(double), cos(double);
static const char *D[] = {".ds", ".dsb", ".dsw", ".dsl", ".dsd"};
int main() {
  int cpu = vf_param("cpu", 0), kind = vf_param("kind", 0), late = vf_param("late", 0), r, i; const char *c = cpu ? "wla-6800" : "wla-z80"; BIG = cpu;
  tn(); map1(0, 0x400, 1);
  if (kind == 0) { int d = vf_choice("directive", 5), w = d ? d : 1, n = vf_range("count", 0, 9), k, nb = w == 4 ? 4 : w + (late == 0 || late == 2 || w == 1), ok; unsigned v = 0;
    for (k = 0; k < nb; k++) v |= (unsigned)vf_range(msg("v%d", k), 0, k == nb - 1 ? (w == 4 ? 127 : nb > w ? 3 : 255) : 255) << (8 * k);
    ok = (n > 0) & (w == 4 ? 1 : (v >> (8 * w)) == 0); put8("n.bin", n); t(".fopen \"n.bin\" fp\n.fread fp n\n"); defsym("k", v, nb);
    at(0, 3); if (vf_param("sec", 0)) t(".section \"s\" force\n"); t(".db 1\n%s n%s ", D[d], vf_param("sp", 0) ? " " : ","); t(late == 0 ? "k" : late == 1 ? "x" : late == 2 ? "x-1" : "l"); t("\n.db 2\n"); if (vf_param("sec", 0)) t(".ends\n"); if (late == 3) t(".define l = k\n"); tput("a.s"); r = asmf(c, "a.s", "a.o"); vf_assert(clean(r), "the assembler ends properly");
    if (!r) { tn(); map1(0, 0x400, 1); defsym("x", v, nb); if (late == 2) t(".redefine x = x+1\n"); t(".export x\n"); tput("b.s"); r = asmf(c, "b.s", "b.o"); vf_assert(r == 0, "second file"); r = linkf("a.o\nb.o\n", "out.bin"); vf_assert(clean(r), "the linker ends properly"); }
    vf_assert((r == 0) == ok, "counts and values that fit are accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
    get("out.bin"); P = 0; wantto(3, 0, "before"); want(1, 1, "before"); n = vf_concrete(n); for (i = 0; i < n; i++) want(v, w, "item"); want(2, 1, "after"); wantto(0x400, 0, "after"); vf_reach("ok"); return 0; }
  if (kind == 1) { static const int WID[] = {-1, 0, 1, 6, 9, 99, 127, 255, 1000, 65535}; static const unsigned S[] = {1, 12345, 0x7fffffff};
    int word = vf_choice("word", 2), n = vf_choice("count", 4), two = vf_choice("again", 2), wid = WID[vf_choice("width", word ? 10 : 8)], max = word ? 65535 : 255, neg, lo, kw = vf_choice("keywords", 2); unsigned s = S[vf_param("seed", 0)];
    neg = vf_choice("negative", 2); if (wid < 0) wid = -1; lo = vf_range("lo", 0, max - (wid > 0 ? wid : 0)); defsym("lo", lo, 2); if (neg) { t(".redefine lo = lo-%d\n", word ? 32768 : 128); lo -= word ? 32768 : 128; }
    at(0, 0); for (i = 0; i <= two; i++) t(".seed %u\n.db 1\n.d%crnd %s%d, %slo, %slo+%d\n", s, word ? 'w' : 'b', kw ? "count " : "", n, kw ? "min " : "", kw ? "max " : "", wid); t(".db 2\n");
    r = build(c); vf_assert((r == 0) == ((n > 0) & (wid > 0)), "good ranges are accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
    P = 0; for (i = 0; i <= two; i++) { int j; want(1, 1, "before"); seed(s); for (j = 0; j < n; j++) want(rnd() % (unsigned)(wid + 1) + lo, 1 + word, "random number"); }
    want(2, 1, "after"); wantto(0x400, 0, "after"); vf_reach("ok"); return 0; }
  { int word = vf_param("word", 0), co = vf_param("cos", 0), n = vf_range("count", 0, 3), a = vf_choice("angle", 4) * 110, step = vf_choice("step", 2) * 170 + 8, e = vf_range("e", 0, 220), amp = word ? 9000 : 60, lo = word ? -32768 : -128, hi = word ? 65535 : 255, ok = 1, x[6]; double A = a, pi = 3.1415926535897931;
    put8("n.bin", n); t(".fopen \"n.bin\" fp\n.fread fp n\n"); defsym("e", e, 2); at(0, 0); t(".db 1\n.d%c%s %d, n, %d, %d, e\n.db 2\n", word ? 'w' : 'b', co ? "cos" : "sin", a, step, amp);
    n = vf_concrete(n); for (i = 0; i <= n; i++) { double f = amp * (co ? cos(A * pi / 180) : sin(A * pi / 180)) + e; x[i] = (int)f; ok &= (x[i] >= lo) & (x[i] <= hi); A += step; while (A >= 360) A -= 360; }
    r = build(c); vf_assert((r == 0) == ok, "series that fit are accepted, others refused"); if (r) { vf_reach("refused"); return 0; }
    P = 0; want(1, 1, "before"); for (i = 0; i <= n; i++) want(x[i], 1 + word, "item"); want(2, 1, "after"); wantto(0x400, 0, "after"); vf_reach("ok"); }
  return 0;
}
