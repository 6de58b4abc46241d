/* Minimal OpenMP runtime (clang's kmpc entry points) on plain pthreads, so that ThreadSanitizer sees every
   synchronisation.  VP_RACE_I / VP_RACE_J: thread 0 runs exactly iteration I and thread 1 exactly iteration J of
   every worksharing loop that has them; otherwise the iterations are dealt out in contiguous blocks to 16 threads. */
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
typedef struct { int32_t a, b, c, d; const char* e; } ident_t;
typedef void (*micro_t)(int32_t*, int32_t*, ...);
static __thread int tid_, team_ = 1;
static int explicit_ = -1;
static long ri, rj;
static pthread_barrier_t bar;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static void init(void) {
  if (explicit_ >= 0) return;
  const char *a = getenv("VP_RACE_I"), *b = getenv("VP_RACE_J");
  explicit_ = a && b;
  if (explicit_) { ri = atol(a); rj = atol(b); }
}
typedef struct { micro_t f; int n, tid, team; void* a[16]; } job_t;
static void* run(void* p) {
  job_t* j = p;
  int32_t g = j->tid, b = 0;
  tid_ = j->tid; team_ = j->team;
  void** a = j->a;
  j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]);
  return NULL;
}
void __kmpc_fork_call(ident_t* l, int32_t n, micro_t f, ...) {
  init();
  job_t base;
  memset(&base, 0, sizeof base);
  va_list ap;
  va_start(ap, f);
  for (int i = 0; i < n && i < 16; i++) base.a[i] = va_arg(ap, void*);
  va_end(ap);
  base.f = f; base.n = n;
  if (team_ > 1) { int st = tid_; base.tid = 0; base.team = 1; int t = team_; run(&base); tid_ = st; team_ = t; return; }
  int T = explicit_ ? 2 : 16;
  job_t j[16];
  pthread_t th[16];
  pthread_barrier_init(&bar, NULL, T);
  for (int t = 0; t < T; t++) { j[t] = base; j[t].tid = t; j[t].team = T; pthread_create(&th[t], NULL, run, &j[t]); }
  for (int t = 0; t < T; t++) pthread_join(th[t], NULL);
  pthread_barrier_destroy(&bar);
}
int32_t __kmpc_global_thread_num(ident_t* l) { return tid_; }
#define SI(NAME, T) void NAME(ident_t* l, int32_t g, int32_t sched, int32_t* last, T* lb, T* ub, T* st, T inc, T chunk) { \
    T lo = *lb, hi = *ub; \
    if (hi < lo) return; \
    *st = hi - lo + 1; \
    if (team_ == 1) { if (last) *last = 1; return; } \
    if (explicit_) { \
      T w = (T)(tid_ ? rj : ri); \
      if (w < lo || w > hi) { *lb = hi + 1; *ub = hi; if (last) *last = 0; return; } \
      *lb = *ub = w; if (last) *last = w == hi; return; \
    } \
    T n = hi - lo + 1, q = n / team_, r = n % team_; \
    T a = tid_ * q + ((T)tid_ < r ? (T)tid_ : r), c = q + ((T)tid_ < r); \
    *lb = lo + a; *ub = lo + a + c - 1; if (last) *last = c > 0 && *ub == hi; }
SI(__kmpc_for_static_init_4, int32_t)
SI(__kmpc_for_static_init_4u, uint32_t)
SI(__kmpc_for_static_init_8, int64_t)
SI(__kmpc_for_static_init_8u, uint64_t)
void __kmpc_for_static_fini(ident_t* l, int32_t g) {}
static __thread int64_t dlb, dub, dlast;
static __thread int dlive;
#define DI(S, T) void __kmpc_dispatch_init_##S(ident_t* l, int32_t g, int32_t sched, T lb, T ub, T st, T ch) { \
    T a = lb, b = ub, s; int32_t la; __kmpc_for_static_init_##S(l, g, 34, &la, &a, &b, &s, 1, 1); dlb = a; dub = b; dlive = 1; } \
  int __kmpc_dispatch_next_##S(ident_t* l, int32_t g, int32_t* last, T* lb, T* ub, T* st) { \
    if (!dlive || dub < dlb) return 0; dlive = 0; *lb = (T)dlb; *ub = (T)dub; *st = 1; if (last) *last = 0; return 1; } \
  void __kmpc_dispatch_fini_##S(ident_t* l, int32_t g) {}
DI(4, int32_t)
DI(4u, uint32_t)
DI(8, int64_t)
DI(8u, uint64_t)
void __kmpc_barrier(ident_t* l, int32_t g) { if (team_ > 1) pthread_barrier_wait(&bar); }
void __kmpc_critical(ident_t* l, int32_t g, void* c) { pthread_mutex_lock(&mu); }
void __kmpc_critical_with_hint(ident_t* l, int32_t g, void* c, uint32_t h) { pthread_mutex_lock(&mu); }
void __kmpc_end_critical(ident_t* l, int32_t g, void* c) { pthread_mutex_unlock(&mu); }
int32_t __kmpc_reduce(ident_t* l, int32_t g, int32_t n, size_t s, void* d, void* f, void* lk) { pthread_mutex_lock(&mu); return 1; }
void __kmpc_end_reduce(ident_t* l, int32_t g, void* lk) { pthread_mutex_unlock(&mu); if (team_ > 1) pthread_barrier_wait(&bar); }
int32_t __kmpc_reduce_nowait(ident_t* l, int32_t g, int32_t n, size_t s, void* d, void* f, void* lk) { pthread_mutex_lock(&mu); return 1; }
void __kmpc_end_reduce_nowait(ident_t* l, int32_t g, void* lk) { pthread_mutex_unlock(&mu); }
int32_t __kmpc_master(ident_t* l, int32_t g) { return tid_ == 0; }
void __kmpc_end_master(ident_t* l, int32_t g) {}
int32_t __kmpc_masked(ident_t* l, int32_t g, int32_t f) { return tid_ == f; }
void __kmpc_end_masked(ident_t* l, int32_t g) {}
int32_t __kmpc_single(ident_t* l, int32_t g) { return tid_ == 0; }
void __kmpc_end_single(ident_t* l, int32_t g) {}
void __kmpc_serialized_parallel(ident_t* l, int32_t g) {}
void __kmpc_end_serialized_parallel(ident_t* l, int32_t g) {}
void __kmpc_push_num_threads(ident_t* l, int32_t g, int32_t n) {}
void __kmpc_push_proc_bind(ident_t* l, int32_t g, int32_t n) {}
void __kmpc_flush(ident_t* l) {}
/* the library's calls are redirected here with -Domp_...= */
int vp_omp_thread_num(void) { return tid_; }
int vp_omp_num_threads(void) { return team_; }
