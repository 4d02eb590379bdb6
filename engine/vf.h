/* The scenario API: the same scenario source runs symbolically under symx and natively (replay). */
#ifndef VF_H
#define VF_H
#include <stddef.h>
int vf_range(const char *name, int lo, int hi); int vf_u8(const char *name); int vf_choice(const char *name, int n);
void vf_assume(int c); void vf_assert(int c, const char *msg); void vf_reach(const char *label); void vf_kill(void);
void vf_put(const char *file, const void *buf, int len); int vf_get(const char *file, void *buf, int cap); int vf_exists(const char *file); void vf_remove(const char *file); int vf_same(const char *a, const char *b);
int vf_run(const char *mod, ...); int vf_param(const char *name, int dflt); void vf_note(const char *name, int v); int vf_eqmem(const void *a, const void *b, int n); int vf_concrete(int v); void vf_fill(int v); int vf_native(void); void vf_dump(const char *n, int v);
int sprintf(char *, const char *, ...); int snprintf(char *, size_t, const char *, ...); size_t strlen(const char *); void *memcpy(void *, const void *, size_t); void *memset(void *, int, size_t); char *strcpy(char *, const char *); char *strcat(char *, const char *); int strcmp(const char *, const char *); char *strstr(const char *, const char *); char *strchr(const char *, int); int strncmp(const char *, const char *, size_t); int memcmp(const void *, const void *, size_t);
#include "vfutil.h"
#endif
