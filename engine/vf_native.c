/* Native implementation of the scenario API: replays one input assignment against the real executables. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
struct in { char name[64]; int seq; int v; } ins[100000]; static int nin;
struct pr { char name[64]; int v; } prs[64]; static int npr;
struct sq { char name[64]; int n; } sqs[4096]; static int nsq;
static char bindir[4096]; static int failed;
int scenario_main(void);
static int lookup(const char *n, int dflt) {
  int i, k; for (i = 0; i < nsq; i++) if (!strcmp(sqs[i].name, n)) break;
  if (i == nsq) { snprintf(sqs[i].name, 64, "%s", n); sqs[i].n = 0; nsq++; }
  k = sqs[i].n++; for (i = 0; i < nin; i++) if (ins[i].seq == k && !strcmp(ins[i].name, n)) return ins[i].v; return dflt; }
int vf_range(const char *n, int lo, int hi) { (void)hi; return lookup(n, lo); } int vf_u8(const char *n) { return lookup(n, 0); } int vf_choice(const char *n, int k) { (void)k; return lookup(n, 0); }
void vf_assume(int c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _exit(4); } }
void vf_assert(int c, const char *m) { if (!c) { printf("ASSERT-FAIL: %s\n", m); failed = 1; } }
void vf_reach(const char *l) { printf("reach %s\n", l); } void vf_kill(void) { fflush(stdout); _exit(failed); }
static void mkdirs(const char *f) { char b[4096]; char *p; snprintf(b, sizeof b, "%s", f); for (p = b + 1; *p; p++) if (*p == '/') { *p = 0; mkdir(b, 0755); *p = '/'; } }
void vf_put(const char *f, const void *b, int n) { FILE *o; mkdirs(f); o = fopen(f, "wb"); if (!o) { perror(f); exit(5); } if (n) fwrite(b, 1, n, o); fclose(o); }
int vf_get(const char *f, void *b, int cap) { FILE *o = fopen(f, "rb"); int n = 0, c; uint64_t h = 1469598103934665603ULL; if (!o) { if (strcmp(f, "@out")) printf("event get %s -1 0\n", f); return -1; } while ((c = getc(o)) != EOF) { if (n < cap) ((unsigned char *)b)[n] = (unsigned char)c; n++; h ^= (unsigned)c; h *= 1099511628211ULL; } fclose(o); if (strcmp(f, "@out")) printf("event get %s %d %016llx\n", f, n, (unsigned long long)h); return n; }
int vf_exists(const char *f) { return access(f, F_OK) == 0; } void vf_remove(const char *f) { unlink(f); }
int vf_same(const char *a, const char *b) { FILE *x = fopen(a, "rb"), *y = fopen(b, "rb"); int r = 1, c, d; if (!x || !y) { r = !x == !y; goto done; } do { c = getc(x); d = getc(y); if (c != d) r = 0; } while (c != EOF && d != EOF && r); done: if (x) fclose(x); if (y) fclose(y); return r; }
int vf_param(const char *n, int d) { int i; for (i = 0; i < npr; i++) if (!strcmp(prs[i].name, n)) return prs[i].v; return d; }
void vf_note(const char *n, int v) { printf("event val %s %d\n", n, v); } int vf_eqmem(const void *a, const void *b, int n) { return !memcmp(a, b, n); } int vf_concrete(int v) { return v; }
static int fillv = 0xbe; void vf_fill(int v) { fillv = v; } int vf_native(void) { return 1; } void vf_dump(const char *n, int v) { printf("dump %s: %d\n", n, v); }
int vf_run(const char *mod, ...) {
  char path[8192]; char *av[64]; int n = 0, st, code; va_list ap; pid_t p; char *a; char e[64];
  snprintf(path, sizeof path, "%s/%s", bindir, mod); av[n++] = (char *)mod; va_start(ap, mod); while ((a = va_arg(ap, char *)) && n < 63) av[n++] = a; va_end(ap); av[n] = 0; fflush(stdout);
  p = fork(); if (!p) { int o = open("@stdout", O_WRONLY | O_CREAT | O_TRUNC, 0644), e2 = open("@stderr", O_WRONLY | O_CREAT | O_TRUNC, 0644); struct rlimit rl = {60, 60}; dup2(o, 1); dup2(e2, 2); setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 256 << 20; setrlimit(RLIMIT_FSIZE, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    snprintf(e, sizeof e, "%d", (~fillv) & 255 ? (~fillv) & 255 : 0); setenv("MALLOC_PERTURB_", e, 1); setenv("ASAN_OPTIONS", "exitcode=139:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:malloc_fill_byte=190:max_malloc_fill_size=1048576", 1); alarm(120); execv(path, av); _exit(127); }
  waitpid(p, &st, 0); if (WIFEXITED(st)) code = WEXITSTATUS(st); else { int s = WTERMSIG(st); code = s == SIGALRM || s == SIGXCPU || s == SIGXFSZ ? 124 : s == SIGABRT || s == SIGBUS ? 139 : 128 + s; }
  { FILE *o = fopen("@out", "wb"), *i; int c; i = fopen("@stdout", "rb"); while (i && (c = getc(i)) != EOF) putc(c, o); if (i) fclose(i); i = fopen("@stderr", "rb"); while (i && (c = getc(i)) != EOF) putc(c, o); if (i) fclose(i); fclose(o); }
  printf("event run %s %d\n", mod, code); return code; }
int main(int argc, char **argv) { /* replay-file bindir workdir */
  FILE *f; char line[512], a[64]; int x, y; if (argc < 4) return 5; f = fopen(argv[1], "r"); if (!f) return 5;
  while (fgets(line, sizeof line, f)) { char *e1 = strrchr(line, ' '), *e2 = 0; if (!strncmp(line, "input ", 6) && e1 && (*e1 = 0, e2 = strrchr(line + 6, ' ')) && e2 - line - 6 < 63) { *e2 = 0; strcpy(a, line + 6); x = atoi(e2 + 1); y = atoi(e1 + 1);  strcpy(ins[nin].name, a); ins[nin].seq = x; ins[nin].v = y; nin++; } else if ((e1 ? *e1 = ' ' : 0), sscanf(line, "param %63s %d", a, &x) == 2) { strcpy(prs[npr].name, a); prs[npr].v = x; npr++; } }
  fclose(f); snprintf(bindir, sizeof bindir, "%s", argv[2]); if (chdir(argv[3])) return 5; setvbuf(stdout, 0, _IOLBF, 0);
  scenario_main(); fflush(stdout); return failed; }
