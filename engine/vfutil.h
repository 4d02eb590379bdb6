/* Helpers for writing scenarios. */
#include <stdarg.h>
int vsnprintf(char *, size_t, const char *, va_list);
static char T[1 << 17]; static int TL;              /* the text being written */
static void tn(void) { TL = 0; }
__attribute__((noinline)) static void t(const char *fmt, ...) { va_list ap; va_start(ap, fmt); TL += vsnprintf(T + TL, sizeof(T) - TL, fmt, ap); va_end(ap); }
static void tch(int c) { T[TL++] = (char)c; }
static int hexd(int v) { v &= 15; { int m = -(v > 9); return (('0' + v) & ~m) | (('a' - 10 + v) & m); } }
static void thex(unsigned v, int digits) { while (digits-- > 0) tch(hexd((int)(v >> (4 * digits)))); }          /* fixed width, may be symbolic */
static void tdec(unsigned v, int digits) { unsigned d = 1; int i; for (i = 1; i < digits; i++) d *= 10; for (; digits > 0; digits--, d /= 10) tch('0' + (int)((v / d) % 10)); } /* fixed width decimal */
static void tput(const char *file) { vf_put(file, T, TL); }
static void puttext(const char *file, const char *text) { vf_put(file, text, (int)strlen(text)); }
static void put8(const char *file, int v) { unsigned char b = (unsigned char)v; vf_put(file, &b, 1); }
static unsigned char OUT[1 << 20]; static int OUTN;
static int get(const char *file) { OUTN = vf_get(file, OUT, sizeof OUT); return OUTN; }
/* a symbolic number the assembler reads through .FOPEN/.FREAD: n bytes, little endian */
static void fval(const char *file, unsigned v, int n) { unsigned char b[4]; int i; for (i = 0; i < n; i++) b[i] = (unsigned char)(v >> (8 * i)); vf_put(file, b, n); }
static int outhas(const char *needle) { static char o[1 << 16]; int n = vf_get("@out", o, sizeof o - 1); if (n < 0) return 0; if (n > (int)sizeof o - 1) n = sizeof o - 1; o[n] = 0; return strstr(o, needle) != 0; }
