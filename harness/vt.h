/* Included first in every source of the library: its heap and its files go through harness/alloc.c */
#ifndef VT_H
#define VT_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
#include <omp.h>
void *vt_malloc(size_t n);
void *vt_calloc(size_t n, size_t m);
void *vt_realloc(void *p, size_t n);
void *vt_reallocarray(void *p, size_t n, size_t m);
void *vt_aligned_alloc(size_t al, size_t n);
int vt_posix_memalign(void **p, size_t al, size_t n);
char *vt_strdup(const char *s);
char *vt_strndup(const char *s, size_t n);
void vt_free(void *p);
FILE *vt_fopen(const char *path, const char *mode);
int vt_fclose(FILE *f);
#ifndef VT_IMPL
#define malloc vt_malloc
#define calloc vt_calloc
#define realloc vt_realloc
#define reallocarray vt_reallocarray
#define aligned_alloc vt_aligned_alloc
#define posix_memalign vt_posix_memalign
#undef strdup
#undef strndup
#define strdup vt_strdup
#define strndup vt_strndup
#define free vt_free
#define fopen vt_fopen
#define fclose vt_fclose
#endif
#endif
