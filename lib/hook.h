/* Force-included into every file of /repo that is compiled for a proof or a replay: routes the allocator through
   v_malloc/v_calloc/v_free (lib/rt.c), which count live allocations, inject allocation failures and watch secrets. */
#ifndef V_HOOK_H
#define V_HOOK_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
void *v_malloc(size_t n);
void *v_calloc(size_t a, size_t n);
void v_free(void *p);
#define malloc v_malloc
#define calloc v_calloc
#define free v_free
int v_memcmp(const void *a, const void *b, size_t n);
#define memcmp v_memcmp
#ifdef V_STRINGS
size_t v_strlen(const char *s);
void *v_memchr(const void *s, int c, size_t n);
void *v_memmove(void *d, const void *s, size_t n);
#define memmove(d, s, n) v_memmove(d, s, n)
long v_strtol(const char *s, char **end, int base);
#define strlen v_strlen
#define memchr v_memchr
#define strtol v_strtol
#endif
#ifdef V_FILES
size_t v_fread(void *p, size_t sz, size_t n, FILE *f);
size_t v_fwrite(const void *p, size_t sz, size_t n, FILE *f);
int v_ferror(FILE *f);
int v_feof(FILE *f);
int v_fflush(FILE *f);
void v_rewind(FILE *f);
FILE *v_fopen(const char *path, const char *mode);
int v_fclose(FILE *f);
int v_rename(const char *a, const char *b);
int v_remove(const char *a);
int v_snprintf(char *p, size_t n, const char *fmt, ...);
size_t v_strlen(const char *s);
#undef ferror
#undef feof
#define fread v_fread
#define fwrite v_fwrite
#define ferror v_ferror
#define feof v_feof
#define fflush v_fflush
#define rewind v_rewind
#define fopen v_fopen
#define fclose v_fclose
#define rename v_rename
#define remove v_remove
#define snprintf v_snprintf
#define strlen v_strlen
#endif
#include "hs_payload.h"
#endif
