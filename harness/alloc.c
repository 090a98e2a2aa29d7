/* Heap of the library under test: red zones, poisoned fresh and freed memory, balance. */
#define VT_IMPL
#include "vt.h"
#include <stdint.h>
#include <pthread.h>
#include <sched.h>
#ifdef VT_SAN      /* every access is checked: outside blocks, in released ones, outside of arrays on the stack */
#include <sanitizer/asan_interface.h>
#define HIDE(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define SHOW(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
static long e_access;
static void report(const char *s) { (void)s; __sync_add_and_fetch(&e_access, 1); }
__attribute__((constructor)) static void hook(void) { __asan_set_error_report_callback(report); }
#else
#define HIDE(p, n)
#define SHOW(p, n)
static const long e_access = 0;
#endif
#ifdef VT_RACE
void vt_forget(void *p, size_t n);
long vt_races(char *s, int n);
#else
#define vt_forget(p, n)
#endif
#define LIVE 0x4c49564556545f31ull
#define DEAD 0x444541445654315full
#define RZ 64
#define QN 2048
typedef struct { uint64_t magic; size_t n; void *base; uint64_t pad[5]; } head;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static long live, bytes, total, e_double, e_unknown, e_zone, e_late;
static head *ring[QN]; static int rp;
static int yieldp; static unsigned rs = 12345;
static void jitter(void) {
  if (!yieldp) return;
  unsigned r = __sync_add_and_fetch(&rs, 0x9e3779b9u); r ^= r >> 15; r *= 0x2c1b3c6du; r ^= r >> 12;
  if ((int)(r % 100) < yieldp) sched_yield();
}
static int zone_ok(head *h) {
  unsigned char *b = (unsigned char *)(h + 1) + h->n, *f = (unsigned char *)h->pad; int i;
  for (i = 0; i < RZ; i++) if (b[i] != 0xA5) return 0;
  for (i = 0; i < (int)sizeof h->pad; i++) if (f[i] != 0xA5) return 0;
  return 1;
}
static void *aligned(size_t al, size_t n, int fill) {
  size_t lead = al > sizeof(head) ? al : sizeof(head);
  char *base; head *h;
  if (al <= 16) base = malloc(lead + n + RZ); else if (posix_memalign((void **)&base, al, lead + n + RZ)) base = NULL;
  if (!base) return NULL;
  h = (head *)(base + lead) - 1;
  h->magic = LIVE; h->n = n; h->base = base; memset(h->pad, 0xA5, sizeof h->pad);
  memset(h + 1, fill, n); memset((char *)(h + 1) + n, 0xA5, RZ);
  HIDE(h, sizeof *h); HIDE((char *)(h + 1) + n, RZ);
  pthread_mutex_lock(&mu); live++; bytes += (long)n; total++; pthread_mutex_unlock(&mu);
  jitter();
  vt_forget(h, sizeof *h + n + RZ);
  return h + 1;
}
static void *get(size_t n, int fill) { return aligned(16, n, fill); }
void *vt_aligned_alloc(size_t al, size_t n) { return aligned(al, n, 0xFF); }
int vt_posix_memalign(void **p, size_t al, size_t n) { void *q = aligned(al, n, 0xFF); if (!q) return 12; *p = q; return 0; }
void *vt_malloc(size_t n) { return get(n, 0xFF); }      /* all bits set: NaN as a double */
void *vt_calloc(size_t n, size_t m) { return get(n * m, 0); }
void vt_free(void *p) {
  if (!p) return;
  head *h = (head *)p - 1;
  jitter();
  vt_forget(p, 0);
  pthread_mutex_lock(&mu);
  SHOW(h, sizeof *h);
  if (h->magic == DEAD) { e_double++; pthread_mutex_unlock(&mu); return; }
  if (h->magic != LIVE) { e_unknown++; pthread_mutex_unlock(&mu); return; }
  SHOW((char *)(h + 1) + h->n, RZ);
  if (!zone_ok(h)) e_zone++;
  h->magic = DEAD; live--; bytes -= (long)h->n;
  memset(p, 0xFF, h->n);
  HIDE(p, h->n); HIDE(h, sizeof *h);
  head *o = ring[rp]; ring[rp] = h; rp = (rp + 1) % QN;
  if (o) {
    SHOW(o, sizeof *o); SHOW(o + 1, o->n);
    size_t i; unsigned char *b = (unsigned char *)(o + 1);
    for (i = 0; i < o->n; i++) if (b[i] != 0xFF) { e_late++; break; }
    o->magic = 0; free(o->base);
  }
  pthread_mutex_unlock(&mu);
}
void *vt_realloc(void *p, size_t n) {
  void *q = vt_malloc(n);
  if (p) { head *h = (head *)p - 1; SHOW(h, sizeof *h); memcpy(q, p, h->n < n ? h->n : n); vt_free(p); }
  return q;
}
void *vt_reallocarray(void *p, size_t n, size_t m) { return vt_realloc(p, n * m); }
char *vt_strndup(const char *s, size_t n) { n = strnlen(s, n); char *q = vt_malloc(n + 1); memcpy(q, s, n); q[n] = 0; return q; }
char *vt_strdup(const char *s) { return vt_strndup(s, strlen(s)); }
/* an open file counts as a block of one byte */
#define FN 4096
static FILE *files[FN];
FILE *vt_fopen(const char *path, const char *mode) {
  FILE *f = fopen(path, mode); int i;
  if (!f) return f;
  pthread_mutex_lock(&mu);
  for (i = 0; i < FN; i++) if (!files[i]) { files[i] = f; live++; bytes++; total++; break; }
  pthread_mutex_unlock(&mu);
  return f;
}
int vt_fclose(FILE *f) {
  int i;
  pthread_mutex_lock(&mu);
  for (i = 0; f && i < FN; i++) if (files[i] == f) { files[i] = NULL; live--; bytes--; break; }
  pthread_mutex_unlock(&mu);
  return fclose(f);
}
/* live blocks (and files), live bytes, blocks ever allocated, then errors: double free, free of a foreign pointer, red zone (or access found wrong), write after free, bytes shared by threads */
void vt_stats(long out[8]) {
#ifndef VT_SAN
  int j; size_t i;
#endif
  pthread_mutex_lock(&mu);
#ifndef VT_SAN
  for (j = 0; j < QN; j++) if (ring[j]) {
    unsigned char *b = (unsigned char *)(ring[j] + 1);
    for (i = 0; i < ring[j]->n; i++) if (b[i] != 0xFF) { e_late++; memset(b, 0xFF, ring[j]->n); break; }
  }
#endif
  out[0] = live; out[1] = bytes; out[2] = total; out[3] = e_double; out[4] = e_unknown; out[5] = e_zone + e_access; out[6] = e_late;
#ifdef VT_RACE
  out[7] = vt_races(NULL, 0);
#else
  out[7] = 0;
#endif
  pthread_mutex_unlock(&mu);
}
void vt_yield(int percent) { yieldp = percent; }
