/* Unary operators and built-in functions, nested and inside larger expressions, immediate or link time. */
#include "common.h"
static double EV[128]; static int EN; static char ETX[128][64];
static void x(const char *text, double v) { t(".dd %s\n", text); strcpy(ETX[EN], text); EV[EN++] = v; }
static double FL(double d) { int i = (int)d; return i - (d < (double)i); }
static double CE(double d) { int i = (int)d; return i + (d > (double)i); }
static double RN(double d) { return d < 0 ? -FL(0.5 - d) : FL(d + 0.5); }
static double MN(double p, double q) { return p < q ? p : q; }
static double MX(double p, double q) { return p > q ? p : q; }
static double AB(double p) { return p < 0 ? -p : p; }
static double SG(double p) { return (double)((p > 0) - (p < 0)); }
int main() {
  int late = vf_param("late", 0), cpu = vf_param("cpu", 0), part = vf_param("part", 0), r, i, a, b, s, q; double A, B, S, Q; const char *cn = cpu ? "wla-6800" : "wla-z80";
  a = vf_range("a", 0, 65535); b = vf_range("b", 1, 255); s = vf_range("s", 0, 255); q = s - 128;
  A = a; B = b; S = q; Q = q / 4.0;
  if (late == 1) { tn(); map1(0, 0x400, 1); defsym("A", a, 2); defsym("B", b, 1); defsym("s", s, 1); t(".define S s-128\n.export A, B, S\n"); tput("b.s"); r = asmf(cn, "b.s", "b.o"); vf_assert(r == 0, "exports"); if (r) return 0; }
  tn(); map1(0, 0x400, 1); if (!late) { defsym("A", a, 2); defsym("B", b, 1); defsym("s", s, 1); t(".define S s-128\n"); }
  puttext("here.txt", "x"); t(".define ISDEF 5\n"); at(0, 0);
  if (part == 0) {
    x("lobyte(A)", a & 255); x("hibyte(A)", a >> 8); x("loword(A*3)", (a * 3) & 0xffff); x("hiword(A*3)", (a * 3) >> 16); x("lobyte(A)+256*hibyte(A)", a); x("-lobyte(A)", -(a & 255)); x("hibyte(A)-lobyte(A)*2", (a >> 8) - (a & 255) * 2);
    x("<A", a & 255); x(">A", a >> 8); x("<A+1", (a & 255) + 1); x("2*>A", 2 * (a >> 8)); x("<(A+1)", (a + 1) & 255); x("hibyte(lobyte(A)*B)", ((a & 255) * b) >> 8); x("lobyte(S)", q & 255); x("hibyte(S)", (q >> 8) & 255); x("loword(S)", q & 0xffff); x("hiword(S)", (q >> 16) & 0xffff);
    x("0-A", -A); x("-A+B", B - A); x("-(A-B)", B - A); x("B-(A-S)-1", B - (A - S) - 1); x("-(S)", -S); x("A*-1", -A); x("A--3", A + 3); x("A~$ffff", a ^ 0xffff);
    x("bank(L1)", 0); x("lobyte(L1)", 2); x("bank(L1)+A", A);
  }
  if (part == 1) {
    x("abs(S)", AB(S)); x("sign(S)", SG(S)); x("-abs(S)", -AB(S)); x("abs(S-B)*2", AB(S - B) * 2); x("sign(A-B)", SG(A - B)); x("sign(S)*abs(S)", S);
    x("min(A,B)", MN(A, B)); x("max(A,B)", MX(A, B)); x("min(S,-3)", MN(S, -3)); x("max(S,-3)", MX(S, -3)); x("max(B, min(A, 1000)) + 1", MX(B, MN(A, 1000)) + 1); x("10-max(A,B)", 10 - MX(A, B)); x("-min(A,B)", -MN(A, B));
    x("clamp(A,10,1000)", MN(MX(A, 10), 1000)); x("clamp(S,-20,B)", MN(MX(S, -20), B)); x("1+clamp(A,B,300)*2", 1 + MN(MX(A, B), 300) * 2); x("clamp(5,-20,S+130)", MN(MX(5, -20), S + 130)); x("-clamp(A,10,1000)", -MN(MX(A, 10), 1000));
    vf_assume(b <= 300);
  }
  if (part == 2) {
    x("floor(S/4)", FL(Q)); x("ceil(S/4)", CE(Q)); x("round(S/4)", RN(Q)); x("-floor(S/4)", -FL(Q)); x("-ceil(S/4)", -CE(Q)); x("-round(S/4)", -RN(Q)); x("floor(S/4)*4+B", FL(Q) * 4 + B); x("floor(A/8)+ceil(A/8)", FL(a / 8.0) + CE(a / 8.0)); x("round(A/2)", RN(a / 2.0)); x("abs(floor(S/4))", AB(FL(Q))); x("floor(abs(S)/4)", FL(AB(Q)));
    x("S/4", (double)(int)Q); x("A/8*8", A); x("(S/4)*4", S); x("floor(3.75)", 3); x("round(2.5)", 3); x("ceil(2.25)", 3); x("10/2.5", 4); x("1.5*2", 3); x("B*0.5", (double)(b / 2)); x("B*0.25+0.75", (double)((b + 3) / 4));
  }
  if (part == 3) {
    double q4 = S / 4, b8 = B / 8, a16 = A / 16;
    x("S/4 >= B/8", q4 >= b8); x("S/4 <= B/8", q4 <= b8); x("S/4 < B/8", q4 < b8); x("S/4 > B/8", q4 > b8); x("S/4 == B/8", q4 == b8); x("S/4 != B/8", q4 != b8);
    x("A>=B", a >= b); x("A<=B", a <= b); x("A<B", a < b); x("A>B", a > b); x("A==B", a == b); x("A!=B", a != b); x("S<0", q < 0); x("S>=-5", q >= -5); x("A/16 >= B", a16 >= B); x("B <= A/16", B <= a16); x("B < A/16", B < a16); x("B > A/16", B > a16);
    x("A<B && S<0", (a < b) & (q < 0)); x("A<B || S<0", (a < b) | (q < 0)); x("A==B || S==0 && B>9", (a == b) | ((q == 0) & (b > 9))); x("(A==B || S==0) && B>9", ((a == b) | (q == 0)) & (b > 9)); x("A && S", (a != 0) & (q != 0)); x("S || A", (a != 0) | (q != 0));
    x("A+(B>S)*2", A + 2 * (b > q)); x("3-(A<=B)", 3 - (a <= b)); x("A+1 > B*2", a + 1 > b * 2); x("A>>1 < B", (a >> 1) < b); x("A < B<<2", a < (b << 2)); x("A & B == B", a & (b == b)); x("A & 255 == B", a & (255 == b)); x("(A & 255) == B", (a & 255) == b); x("A < B == 1", (a < b) == 1); x("1 == A < B", 1 == (a < b)); x("-S < B", -q < b); x("(A>B)+(A<B)+(A==B)", 1); x("(A>=B)*(A<=B)", a == b);
  }
  if (part == 0 && !late) { x("defined(ISDEF)", 1); x("defined(NOTDEF)", 0); x("exists(\"here.txt\")", 1); x("exists(\"nothere.txt\")", 0); x("defined(ISDEF)+A", A + 1); }
  t(".org 2\nL1:\n"); /* inside the data: only the address matters */
  if (late == 2) { defsym("A", a, 2); defsym("B", b, 1); defsym("s", s, 1); t(".define S s-128\n"); }
  tput("a.s"); r = asmf(cn, "a.s", "a.o"); vf_assert(r == 0, "assembles"); if (r) return 0;
  r = linkf(late == 1 ? "a.o\nb.o\n" : "a.o\n", "out.bin"); vf_assert(r == 0, "links"); if (r) return 0; get("out.bin"); BIG = cpu; P = 0;
  for (i = 0; i < EN; i++) want((unsigned)(int)EV[i], 4, ETX[i]);
  vf_reach("ok"); return 0;
}
