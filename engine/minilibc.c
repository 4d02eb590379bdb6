/* A small C library for programs run by symx. Character functions are branch-free so symbolic text does not fork. */
#include <stddef.h>
#include <stdarg.h>
typedef struct VFFILE FILE;
typedef long time_t;
FILE *stdin = (FILE *)0, *stdout = (FILE *)0x6000000100000000UL, *stderr = (FILE *)0x6000000200000000UL;
void *malloc(size_t); void *calloc(size_t, size_t); void *realloc(void *, size_t); void free(void *);
void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t);
void __vf_exit(int); void *__vf_open(const char *, const char *); int __vf_close(void *); long __vf_write(void *, const void *, long); long __vf_read(void *, void *, long); int __vf_getc(void *);
int __vf_taketok(void *, int *); void __vf_puttok(void *, int); int __vf_seek(void *, long, int); long __vf_tell(void *); int __vf_eof(void *); int __vf_remove(const char *); int __vf_is_sym(int);
long __vf_fmtd(char *, long, const char *, double); void __vf_fault(int, const char *); double __vf_strtod(const char *);
static int the_errno; int *__errno_location(void) { return &the_errno; }
static void (*exits[32])(void); static int nexits;
int atexit(void (*f)(void)) { if (nexits >= 32) return -1; exits[nexits++] = f; return 0; }
void exit(int c) { while (nexits > 0) exits[--nexits](); __vf_exit(c & 255); }
void abort(void) { __vf_fault(134, "abort"); }
int main(int, char **);
void __vf_start(int argc, char **argv) { exit(main(argc, argv)); }
/* ---- characters */
#define RNG(c, a, b) ((unsigned)((c) - (a)) <= (unsigned)((b) - (a)))
int toupper(int c) { return c - (RNG(c, 'a', 'z') << 5); }
int tolower(int c) { return c + (RNG(c, 'A', 'Z') << 5); }
int isdigit(int c) { return RNG(c, '0', '9'); } int isupper(int c) { return RNG(c, 'A', 'Z'); } int islower(int c) { return RNG(c, 'a', 'z'); }
int isalpha(int c) { return RNG(c, 'a', 'z') | RNG(c, 'A', 'Z'); } int isalnum(int c) { return isalpha(c) | isdigit(c); } int isspace(int c) { return (c == ' ') | RNG(c, 9, 13); }
int isxdigit(int c) { return isdigit(c) | RNG(c, 'a', 'f') | RNG(c, 'A', 'F'); } int isprint(int c) { return RNG(c, 32, 126); } int ispunct(int c) { return RNG(c, 33, 126) & !isalnum(c); } int iscntrl(int c) { return RNG(c, 0, 31) | (c == 127); } int isgraph(int c) { return RNG(c, 33, 126); }
/* ---- strings */
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)); return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); if (!k) return (char *)h; for (; *h; h++) if (!strncmp(h, n, k)) return (char *)h; return 0; }
size_t strcspn(const char *s, const char *r) { size_t n = 0; while (s[n] && !strchr(r, s[n])) n++; return n; }
size_t strspn(const char *s, const char *r) { size_t n = 0; while (s[n] && strchr(r, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *r) { s += strcspn(s, r); return *s ? (char *)s : 0; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
char *strtok(char *s, const char *d) { static char *sv; if (s) sv = s; if (!sv) return 0; sv += strspn(sv, d); if (!*sv) { sv = 0; return 0; } s = sv; sv += strcspn(sv, d); if (*sv) *sv++ = 0; else sv = 0; return s; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (; n; n--, x++, y++) if (*x != *y) return *x < *y ? -1 : 1; return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return 0; }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; }
long strtol(const char *s, char **e, int base) {
  const char *p = s; long v = 0; int neg = 0, any = 0; while (isspace((unsigned char)*p)) p++; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  for (;; p++) { int c = (unsigned char)*p, d; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = toupper(c) - 'A' + 10; else break; if (d >= base) break; v = v * base + d; any = 1; }
  if (e) *e = (char *)(any ? p : s); return neg ? -v : v; }
unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); } long atol(const char *s) { return strtol(s, 0, 10); } double atof(const char *s) { return __vf_strtod(s); }
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) { /* stable merge sort, as glibc's */
  char *t, *x = b; size_t n1, i, j, k; if (n < 2) return; n1 = n / 2; qsort(b, n1, w, cmp); qsort(x + n1 * w, n - n1, w, cmp); t = malloc(n * w); i = 0; j = n1; k = 0;
  while (i < n1 && j < n) { if (cmp(x + i * w, x + j * w) <= 0) { memcpy(t + k * w, x + i * w, w); i++; } else { memcpy(t + k * w, x + j * w, w); j++; } k++; }
  while (i < n1) { memcpy(t + k * w, x + i * w, w); i++; k++; } while (j < n) { memcpy(t + k * w, x + j * w, w); j++; k++; } memcpy(b, t, n * w); free(t); }
/* ---- time: fixed, so runs are reproducible */
time_t time(time_t *t) { if (t) *t = 1000000000; return 1000000000; }
struct tm { int tm_sec, tm_min, tm_hour, tm_mday, tm_mon, tm_year, tm_wday, tm_yday, tm_isdst; long off; const char *zone; };
static struct tm the_tm = {40, 46, 1, 9, 8, 101, 0, 251, 0, 0, "UTC"};
struct tm *localtime(const time_t *t) { (void)t; return &the_tm; } struct tm *gmtime(const time_t *t) { (void)t; return &the_tm; }
char *ctime(const time_t *t) { static char b[32]; (void)t; strcpy(b, "Sun Sep  9 01:46:40 2001\n"); return b; }
size_t strftime(char *s, size_t n, const char *f, const struct tm *t) { (void)f; (void)t; if (n < 11) return 0; strcpy(s, "2001-09-09"); return 10; }
char *getenv(const char *n) { (void)n; return 0; }
unsigned sleep(unsigned n) { (void)n; return 0; }
/* ---- files */
FILE *fopen(const char *n, const char *m) { void *h = __vf_open(n, m); if (!h) the_errno = 2; return h; }
FILE *tmpfile(void) { static int k; static char b[32]; int i = 0, v = ++k; strcpy(b, "@tmp"); i = 4; do { b[i++] = '0' + v % 10; v /= 10; } while (v); b[i] = 0; FILE *f = __vf_open(b, "w+"); return f; }
int fclose(FILE *f) { return __vf_close(f); }
int fflush(FILE *f) { (void)f; return 0; } void setbuf(FILE *f, char *b) { (void)f; (void)b; } int setvbuf(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { if (!sz || !n) return 0; return (size_t)__vf_write(f, p, (long)(sz * n)) / sz; }
size_t fread(void *p, size_t sz, size_t n, FILE *f) { if (!sz || !n) return 0; return (size_t)__vf_read(f, p, (long)(sz * n)) / sz; }
int fputc(int c, FILE *f) { char b = (char)c; __vf_write(f, &b, 1); return c & 255; } int putc(int c, FILE *f) { return fputc(c, f); } int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { __vf_write(f, s, (long)strlen(s)); return 1; } int puts(const char *s) { fputs(s, stdout); fputc('\n', stdout); return 1; }
int fgetc(FILE *f) { return __vf_getc(f); } int getc(FILE *f) { return __vf_getc(f); }
int ungetc(int c, FILE *f) { if (c == -1) return c; __vf_seek(f, -1, 1); return c; }
char *fgets(char *s, int n, FILE *f) { int i = 0; while (i < n - 1) { int c = __vf_getc(f); if (c == -1) break; s[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; s[i] = 0; return s; }
int fseek(FILE *f, long o, int w) { return __vf_seek(f, o, w); } long ftell(FILE *f) { return __vf_tell(f); } void rewind(FILE *f) { __vf_seek(f, 0, 0); } int feof(FILE *f) { return __vf_eof(f); } int ferror(FILE *f) { (void)f; return 0; }
int remove(const char *n) { return __vf_remove(n); } int unlink(const char *n) { return __vf_remove(n); }
void perror(const char *s) { fputs(s, stderr); }
/* ---- printf */
struct sink { FILE *f; char *b; size_t n, cap; char tmp[128]; int k; };
static void flushs(struct sink *s) { if (s->f && s->k) { __vf_write(s->f, s->tmp, s->k); s->k = 0; } }
static void out(struct sink *s, char c) { if (s->f) { s->tmp[s->k++] = c; if (s->k == 128) flushs(s); } else if (s->n + 1 < s->cap) s->b[s->n] = c; s->n++; }
static void fmtv(struct sink *s, const char *f, va_list ap) {
  for (; *f; f++) {
    int left = 0, zero = 0, plus = 0, alt = 0, width = 0, prec = -1, lng = 0, simple = 1; char buf[64]; const char *str; int len, i; const char *start = f;
    if (*f != '%') { out(s, *f); continue; } f++;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else if (*f == ' ') ; else break; simple = 0; }
    if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; simple = 0; } else while (isdigit(*f)) { width = width * 10 + (*f++ - '0'); simple = 0; }
    if (*f == '.') { simple = 0; f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'h' || *f == 'z') { if (*f != 'h') lng++; f++; }
    switch (*f) {
    case '%': out(s, '%'); continue;
    case 'c': buf[0] = (char)va_arg(ap, int); str = buf; len = 1; break;
    case 's': str = va_arg(ap, const char *); if (!str) str = "(null)"; for (len = 0; (prec < 0 || len < prec) && str[len]; len++); break;
    case 'f': case 'g': case 'e': { char fm[16]; int k = 0; const char *q; for (q = start; q <= f && k < 15; q++) if (*q != 'l') fm[k++] = *q; fm[k] = 0; len = (int)__vf_fmtd(buf, 64, fm, va_arg(ap, double)); str = buf; width = 0; break; }
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'p': {
      unsigned long v; int neg = 0, k = 63; unsigned base = (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10;
      if (*f == 'p') { v = (unsigned long)va_arg(ap, void *); } else if (*f == 'd' || *f == 'i') { long x; if (lng) x = va_arg(ap, long); else { int xi = va_arg(ap, int); if (simple && s->f && __vf_is_sym(xi)) { flushs(s); __vf_puttok(s->f, xi); s->n++; continue; } x = xi; } if (x < 0) { neg = 1; v = 0UL - (unsigned long)x; } else v = (unsigned long)x; }
      else { if (lng) v = va_arg(ap, unsigned long); else v = va_arg(ap, unsigned int); }
      if (base == 16 && (zero || prec > 0)) { /* fixed-width hexadecimal: emit the digits without branching on their values when it fits */
        int nd = prec > 0 ? prec : width; unsigned long lim = nd < 16 ? (1UL << (4 * nd)) : 0; if (nd < 16 && nd > 0 && v < lim && !alt) { char lo = *f == 'X' ? 'A' - 10 : 'a' - 10; int pad = width - nd; if (!left) while (pad-- > 0) out(s, ' '); for (i = nd - 1; i >= 0; i--) { int d = (int)((v >> (4 * i)) & 15); int m = -(d > 9); out(s, (char)((('0' + d) & ~m) | ((lo + d) & m))); } if (left) while (pad-- > 0) out(s, ' '); continue; } }
      { char hx = *f == 'X' ? 'A' - 10 : 'a' - 10; unsigned long w = v; do { unsigned d = (unsigned)(w % base); buf[k--] = d > 9 ? (char)(hx + d) : (char)('0' + d); w /= base; } while (w); while (63 - k < prec) buf[k--] = '0'; if (alt && base == 16) { buf[k--] = 'x'; buf[k--] = '0'; } if (zero && !left && prec < 0) while (63 - k < width - (neg || plus)) buf[k--] = '0'; if (neg) buf[k--] = '-'; else if (plus) buf[k--] = '+'; str = buf + k + 1; len = 63 - k; }
      break; }
    default: out(s, '%'); if (!*f) return; out(s, *f); continue;
    }
    if (!left) for (i = len; i < width; i++) out(s, ' '); for (i = 0; i < len; i++) out(s, str[i]); if (left) for (i = len; i < width; i++) out(s, ' ');
  }
}
int vfprintf(FILE *f, const char *fm, va_list ap) { struct sink s; s.f = f; s.n = 0; s.k = 0; s.b = 0; s.cap = 0; fmtv(&s, fm, ap); flushs(&s); return (int)s.n; }
int fprintf(FILE *f, const char *fm, ...) { va_list ap; int r; va_start(ap, fm); r = vfprintf(f, fm, ap); va_end(ap); return r; }
int printf(const char *fm, ...) { va_list ap; int r; va_start(ap, fm); r = vfprintf(stdout, fm, ap); va_end(ap); return r; }
int vprintf(const char *fm, va_list ap) { return vfprintf(stdout, fm, ap); }
int vsnprintf(char *b, size_t n, const char *fm, va_list ap) { struct sink s; s.f = 0; s.n = 0; s.k = 0; s.b = b; s.cap = n; fmtv(&s, fm, ap); if (n) b[s.n < n ? s.n : n - 1] = 0; return (int)s.n; }
int snprintf(char *b, size_t n, const char *fm, ...) { va_list ap; int r; va_start(ap, fm); r = vsnprintf(b, n, fm, ap); va_end(ap); return r; }
int sprintf(char *b, const char *fm, ...) { va_list ap; int r; va_start(ap, fm); r = vsnprintf(b, 1 << 20, fm, ap); va_end(ap); return r; }
/* ---- scanf */
struct src { FILE *f; const char *s; int eof; };
static int gch(struct src *s) { if (s->f) return __vf_getc(s->f); if (!*s->s) { s->eof = 1; return -1; } return (unsigned char)*s->s++; }
static void ung(struct src *s, int c) { if (c == -1) return; if (s->f) __vf_seek(s->f, -1, 1); else s->s--; }
/* the next character, or -2 in front of a pending number */
static int gch2(struct src *s) { int d; long at = __vf_tell(s->f); if (__vf_taketok(s->f, &d)) { __vf_seek(s->f, at, 0); return -2; } return gch(s); }
/* the decimal spelling of a pending number, without a branch on its value */
static void tokstr(char *p, int v) {
  unsigned u = v < 0 ? 0u - (unsigned)v : (unsigned)v, d[10], k = 1; int i, j, n = 1, neg = v < 0; unsigned q = 1;
  for (i = 0; i < 10; i++, q *= 10) { d[i] = (u / q) % 10; if (i) n += u >= q; }
  for (i = 0; i < 12; i++) { int c = 0; for (j = 1; j <= 10; j++) { /* n == j digits: character i is digit j-1-(i-neg) */ int x0 = i < j ? '0' + (int)d[j - 1 - i] : 0, x1 = i == 0 ? '-' : i - 1 < j ? '0' + (int)d[j - i] : 0; int x = (x1 & -neg) | (x0 & (neg - 1)); c |= x & -(n == j); } p[i] = (char)c; }
}
static int scan(struct src *s, const char *f, va_list ap) {
  int n = 0, c, tok;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { int dummy; for (;;) { /* a pending number is not white space */ c = -2; if (s->f) { long at = __vf_tell(s->f); if (__vf_taketok(s->f, &dummy)) { __vf_seek(s->f, at, 0); break; } } c = gch(s); if (c == -1 || !isspace(c)) { ung(s, c); break; } } continue; }
    if (*f != '%') { c = gch(s); if (c == -1) return n ? n : -1; if (c != (unsigned char)*f) { ung(s, c); return n; } continue; }
    f++; { int skip = 0, width = 0, lng = 0; if (*f == '*') { skip = 1; f++; } while (isdigit(*f)) width = width * 10 + (*f++ - '0'); while (*f == 'l' || *f == 'h') { if (*f == 'l') lng++; f++; }
      if (*f == 'c') { char *p = skip ? 0 : va_arg(ap, char *); int k = width ? width : 1; while (k--) { c = gch(s); if (c == -1) return n ? n : -1; if (p) *p++ = (char)c; } if (!skip) n++; continue; }
      if (skip && *f == 's' && s->f) { int k = 0; /* discard a word, pending numbers included, without spelling them out */
        for (;;) { if (__vf_taketok(s->f, &tok)) { k = 1; continue; } c = gch(s); if (c == -1) { if (!k) return n ? n : -1; break; } if (isspace(c)) { if (!k) continue; ung(s, c); break; } k = 1; if (width && ++width == 0) break; } continue; }
      if (*f == 's' && !skip && (!width || width > 11) && s->f) { long at; int t2; do c = gch2(s); while (c >= 0 && isspace(c)); if (c >= 0) ung(s, c); at = __vf_tell(s->f); if (c == -2 && __vf_taketok(s->f, &tok)) { c = gch2(s); if (c >= 0) ung(s, c); if (c == -1 || (c >= 0 && isspace(c))) { tokstr(va_arg(ap, char *), tok); n++; goto next; } __vf_seek(s->f, at, 0); } }
      for (;;) { if (s->f && (*f == 'd' || *f == 'i' || *f == 'u') && __vf_taketok(s->f, &tok)) { if (!skip) { if (lng) *va_arg(ap, long *) = tok; else *va_arg(ap, int *) = tok; n++; } goto next; } c = gch(s); if (c == -1) return n ? n : -1; if (!isspace(c)) break; }
      if (*f == 's' || *f == '[') { char *p = skip ? 0 : va_arg(ap, char *); int k = 0; const char *set = 0; int inv = 0, setlen = 0; if (*f == '[') { f++; if (*f == '^') { inv = 1; f++; } set = f; while (*f && (*f != ']' || f == set)) f++; setlen = (int)(f - set); }
        while (c != -1) { if (set) { int in = 0, q; for (q = 0; q < setlen; q++) if (set[q] == (char)c) in = 1; if (in == inv) break; } else if (isspace(c)) break; if (p) p[k] = (char)c; k++; if (width && k >= width) { c = -2; break; } c = gch(s); }
        if (c >= 0) ung(s, c); if (set && !k) return n; if (p) { p[k] = 0; n++; } continue; }
      { long v = 0; int neg = 0, any = 0, base = *f == 'x' || *f == 'X' ? 16 : 10, k = 0; if (c == '-') { neg = 1; c = gch(s); k++; } else if (c == '+') { c = gch(s); k++; }
        while (c != -1) { int d; if (isdigit(c)) d = c - '0'; else if (base == 16 && isxdigit(c)) d = toupper(c) - 'A' + 10; else break; v = v * base + d; any = 1; k++; if (width && k >= width) { c = -2; break; } c = gch(s); }
        if (c >= 0) ung(s, c); if (!any) return n; if (neg) v = -v; if (!skip) { if (lng) *va_arg(ap, long *) = v; else *va_arg(ap, int *) = (int)v; n++; } }
    next:; }
  }
  return n;
}
int fscanf(FILE *f, const char *fm, ...) { va_list ap; int r; struct src s; s.f = f; s.s = 0; s.eof = 0; va_start(ap, fm); r = scan(&s, fm, ap); va_end(ap); return r; }
int __isoc99_fscanf(FILE *f, const char *fm, ...) { va_list ap; int r; struct src s; s.f = f; s.s = 0; s.eof = 0; va_start(ap, fm); r = scan(&s, fm, ap); va_end(ap); return r; }
int sscanf(const char *b, const char *fm, ...) { va_list ap; int r; struct src s; s.f = 0; s.s = b; s.eof = 0; va_start(ap, fm); r = scan(&s, fm, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *b, const char *fm, ...) { va_list ap; int r; struct src s; s.f = 0; s.s = b; s.eof = 0; va_start(ap, fm); r = scan(&s, fm, ap); va_end(ap); return r; }
