/* Record of the memory the threads of one parallel region share (RACE=1): every access of the library, as the
   compiler reports it, is looked up in a table of who wrote and who read these bytes since the last barrier.
   Bytes changed by one thread and accessed by another are counted; what is done under a lock or atomically, and
   threads writing the same values, is not. */
#define _GNU_SOURCE
#define VT_IMPL
#include "vt.h"
#ifdef VT_RACE
#include <stdint.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <pthread.h>
#define NB 22
#define WIN 24
#define NLOCK 4096
typedef struct { uint64_t key, w /* threads that wrote the present value */; uint32_t epoch; int16_t r1, r2; uint8_t wm, m1, m2; uint8_t val[8]; } cell;
typedef struct { void *p, *pc; size_t n; uint8_t old[64]; } pend;
static cell *tab; static volatile char lk[NLOCK];
static volatile uint32_t regions = 1; static long races; static char where[200];
static __thread int tid = -1, quiet; static __thread pend last; static __thread uint32_t now;
__attribute__((constructor)) static void up(void) {
  tab = mmap(NULL, sizeof(cell) << NB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (tab == MAP_FAILED) tab = NULL;
}
static cell *at(uint64_t g, uint64_t h) {
  uint64_t i; cell *c, *e = NULL;
  for (i = 0; i < WIN; i++) {
    c = tab + ((h + i) & ((1u << NB) - 1));
    if (c->epoch == now && c->key == g) return c;
    if (c->epoch != now && !e) e = c;
  }
  if (e) { memset(e, 0, sizeof *e); e->key = g; e->epoch = now; e->r1 = e->r2 = -1; }
  return e;
}
static inline uint64_t hash(uint64_t g) { g *= 0x9e3779b97f4a7c15ull; return (g >> 30) & ((1u << NB) - 64); }
static void hold(uint64_t h) { volatile char *l = lk + ((h >> 6) & (NLOCK - 1)); while (__sync_lock_test_and_set(l, 1)) while (*l); }
static void drop(uint64_t h) { __sync_lock_release(lk + ((h >> 6) & (NLOCK - 1))); }
static void hit(void *pc) {
  if (__sync_add_and_fetch(&races, 1) == 1) {
    Dl_info d;
    if (dladdr(pc, &d)) snprintf(where, sizeof where, "%s+%ld", d.dli_sname ? d.dli_sname : "?", (long)((char *)pc - (char *)(d.dli_saddr ? d.dli_saddr : d.dli_fbase)));
  }
}
#define ME (1ull << (tid & 63))
static int same(const uint8_t *a, const uint8_t *b, uint8_t m) { int i; for (i = 0; i < 8; i++) if ((m >> i & 1) && a[i] != b[i]) return 0; return 1; }
static void granule(uint64_t g, uint8_t m, int wr, const uint8_t *old, void *pc) {
  uint64_t h = hash(g); int bad = 0; cell *c;
  hold(h);
  if ((c = at(g, h))) {
    if (!wr) {
      if ((c->wm & m) && !(c->w & ME)) bad = 1;
      if (c->r1 < 0 || c->r1 == tid) { c->r1 = (int16_t)tid; c->m1 |= m; }
      else if (c->r2 < 0 || c->r2 == tid) { c->r2 = (int16_t)tid; c->m2 |= m; }
    } else {
      uint8_t v[8]; memcpy(v, (void *)(g << 3), 8);
      if ((c->wm & m) == m && same(v, c->val, m)) c->w |= ME;                    /* the same value again */
      else if (!(c->wm & m) && old && same(v, old, m)) ;                          /* nothing changed */
      else {
        if ((c->wm & m) && (c->w & ~ME)) bad = 1;
        if ((c->r1 >= 0 && c->r1 != tid && (c->m1 & m)) || (c->r2 >= 0 && c->r2 != tid && (c->m2 & m))) bad = 1;
        if (c->w & ~ME) c->wm = 0;
        c->w = ME; c->wm |= m;
        int i; for (i = 0; i < 8; i++) if (m >> i & 1) c->val[i] = v[i];
      }
    }
  }
  drop(h);
  if (bad) hit(pc);
}
static void span(void *p, size_t n, int wr, const uint8_t *old, void *pc) {
  uint64_t a = (uint64_t)p, z = a + n, g; uint8_t o[8];
  for (g = a >> 3; g <= (z - 1) >> 3; g++) {
    unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (z - 1) >> 3 ? ((z - 1) & 7) + 1 : 8, i;
    if (old) for (i = lo; i < hi; i++) o[i] = old[(g << 3) + i - a];
    granule(g, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), wr, old ? o : NULL, pc);
  }
}
/* the last write of this thread has been done */
static void settle(void) { if (last.n) { size_t n = last.n; last.n = 0; span(last.p, n, 1, n <= sizeof last.old ? last.old : NULL, last.pc); } }
static void note(void *p, size_t n, int wr, void *pc) {
  if (tid < 0 || !tab) return;
  settle();
  if (quiet || !n) return;
  if (!wr) { span(p, n, 0, NULL, pc); return; }
  last.p = p; last.n = n; last.pc = pc;
  if (n <= sizeof last.old) memcpy(last.old, p, n);
}
/* a block is handed out or given back: nothing of it is shared yet */
void vt_forget(void *p, size_t n) {
  uint64_t a = (uint64_t)p, g, i;
  if (tid < 0 || !tab) return;
  settle();
  if (!n) return;
  for (g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    uint64_t h = hash(g); hold(h);
    for (i = 0; i < WIN; i++) { cell *c = tab + ((h + i) & ((1u << NB) - 1)); if (c->epoch == now && c->key == g) { c->w = 0; c->r1 = c->r2 = -1; c->wm = c->m1 = c->m2 = 0; } }
    drop(h);
  }
}
long vt_races(char *s, int n) { if (n) snprintf(s, (size_t)n, "%s", where); return races; }
#define PC __builtin_return_address(0)
#define ACC(n) void __tsan_read##n(void *p) { note(p, n, 0, PC); } void __tsan_write##n(void *p) { note(p, n, 1, PC); } \
  void __tsan_unaligned_read##n(void *p) { note(p, n, 0, PC); } void __tsan_unaligned_write##n(void *p) { note(p, n, 1, PC); } \
  void __tsan_volatile_read##n(void *p) { (void)p; } void __tsan_volatile_write##n(void *p) { (void)p; }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { note(p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { note(p, n, 1, PC); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) { if (tid >= 0) settle(); }
void __tsan_vptr_update(void *p, void *q) { (void)p; (void)q; } void __tsan_vptr_read(void *p) { (void)p; }
#define ATO(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int m) { (void)m; return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int m) { (void)m; __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int m) { (void)m; return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int m) { (void)m; return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int m) { (void)m; return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int m) { (void)m; return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int m) { (void)m; return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int m) { (void)m; return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int m, int f) { (void)m; (void)f; __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATO(8, uint8_t) ATO(16, uint16_t) ATO(32, uint32_t) ATO(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; __sync_synchronize(); } void __tsan_atomic_signal_fence(int m) { (void)m; }
/* regions of the calling thread only; within them every thread has a number of its own */
typedef struct { void (*fn)(void *); void *data; int n; uint32_t base; } start;
static void enter(void *p) {
  start *s = p;
  tid = __sync_fetch_and_add(&s->n, 1); now = s->base; quiet = 0;
  last.n = 0;
  s->fn(s->data);
  settle();
  tid = -1;
}
void __real_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
void __wrap_GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  if (tid >= 0) { __real_GOMP_parallel(fn, data, n, flags); return; }     /* nested: one thread */
  start s = {fn, data, 0, __sync_add_and_fetch(&regions, 4096)};
  __real_GOMP_parallel(enter, &s, n, flags);
}
#define AFTER(f) void __real_##f(void); void __wrap_##f(void) { if (tid >= 0) settle(); __real_##f(); if (tid >= 0) now++; }
AFTER(GOMP_barrier) AFTER(GOMP_loop_end) AFTER(GOMP_sections_end)
#define LOCK(f, g, A, a) void __real_##f A; void __wrap_##f A { if (tid >= 0) settle(); __real_##f a; quiet++; } void __real_##g A; void __wrap_##g A { if (tid >= 0) settle(); quiet--; __real_##g a; }
LOCK(GOMP_critical_start, GOMP_critical_end, (void), ())
LOCK(GOMP_atomic_start, GOMP_atomic_end, (void), ())
LOCK(GOMP_critical_name_start, GOMP_critical_name_end, (void **p), (p))
LOCK(omp_set_lock, omp_unset_lock, (omp_lock_t *p), (p))
#else
typedef int nothing;
#endif
