/* Preloaded into the threaded programs: delays threads at random, and (VERIF_OMP_TEAM=1) runs the teams of
   OpenMP on plain pthreads, whose synchronisation ThreadSanitizer understands. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>

static int level = -1, own = -1, threads;
static unsigned long long seed;
static void init(void)
{
    const char *s = getenv("VERIF_OMP_SEED"), *l = getenv("VERIF_OMP_JITTER"), *t = getenv("VERIF_OMP_TEAM"), *n = getenv("OMP_NUM_THREADS");
    seed = s ? strtoull(s, 0, 10) : 1;
    threads = n && atoi(n) > 0 ? atoi(n) : 1;
    own = t && *t == '1';
    level = l ? atoi(l) : 0;
}
__attribute__((constructor)) static void start(void) { init(); }

struct team { int n; void (*f)(void*); void* d; pthread_barrier_t bar; pthread_mutex_t m; long lo, hi, step, chunk, single; int loops; };
static __thread struct team* team;
static __thread int me, myloops;
static __thread unsigned long long z;

static unsigned rnd(void)
{
    if (!z) z = seed * 977 + (unsigned long long)me * 0x9e3779b97f4a7c15ull + 12345;
    z ^= z << 13; z ^= z >> 7; z ^= z << 17;
    return (unsigned)(z >> 16);
}
static void jitter(unsigned often)
{
    if (level <= 0) return;
    unsigned r = rnd();
    if (r % often) return;
    r = rnd();
    if (r % 4) sched_yield(); else usleep(r % (level * 20));
}
void* _Znwm(size_t n)
{
    jitter(50);
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void* _Znam(size_t n) { return _Znwm(n); }

/* in a module loaded later libgomp is not among the libraries that follow */
static void* following(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) { void* h = dlopen("libgomp.so.1", RTLD_LAZY); if (h) p = dlsym(h, name); }
    if (!p) abort();
    return p;
}
#define NEXT(name, type) static __typeof__(type) real; if (!real) real = (__typeof__(type))following(name)

int omp_get_thread_num(void) { NEXT("omp_get_thread_num", int (*)(void)); return own ? me : real(); }
int omp_get_num_threads(void) { NEXT("omp_get_num_threads", int (*)(void)); return own ? (team ? team->n : 1) : real(); }
int omp_get_max_threads(void) { NEXT("omp_get_max_threads", int (*)(void)); return own ? threads : real(); }
int omp_in_parallel(void) { NEXT("omp_in_parallel", int (*)(void)); return own ? team && team->n > 1 : real(); }
void omp_set_num_threads(int n) { NEXT("omp_set_num_threads", void (*)(int)); if (own) threads = n > 0 ? n : 1; else real(n); }

struct arg { struct team* t; int id; };
static void* body(void* p)
{
    struct arg a = *(struct arg*)p;
    team = a.t; me = a.id; myloops = 0; z = 0;
    if (level > 0 && rnd() % 3 == 0) usleep(rnd() % (level * 200));
    team->f(team->d);
    return 0;
}
static void go(void (*f)(void*), void* d, unsigned n, long lo, long hi, long step, long chunk)
{
    struct team t = {.f = f, .d = d, .n = team ? 1 : n ? (int)n : threads, .lo = lo, .hi = hi, .step = step, .chunk = chunk};
    struct team* outer = team; int outerMe = me, outerLoops = myloops;
    pthread_barrier_init(&t.bar, 0, t.n);
    pthread_mutex_init(&t.m, 0);
    pthread_t* th = calloc(t.n, sizeof *th);
    struct arg* a = calloc(t.n, sizeof *a);
    for (int i = 1; i < t.n; i++) { a[i].t = &t; a[i].id = i; if (pthread_create(&th[i], 0, body, &a[i])) abort(); }
    team = &t; me = 0; myloops = 0;
    f(d);
    for (int i = 1; i < t.n; i++) pthread_join(th[i], 0);
    team = outer; me = outerMe; myloops = outerLoops;
    pthread_barrier_destroy(&t.bar); pthread_mutex_destroy(&t.m);
    free(th); free(a);
}
void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned flags)
{
    NEXT("GOMP_parallel", void (*)(void (*)(void*), void*, unsigned, unsigned));
    if (own) go(f, d, n, 0, 0, 1, 1); else real(f, d, n, flags);
}
#define PLOOP(kind) \
void GOMP_parallel_loop_##kind(void (*f)(void*), void* d, unsigned n, long lo, long hi, long step, long chunk, unsigned flags) \
{ NEXT("GOMP_parallel_loop_" #kind, void (*)(void (*)(void*), void*, unsigned, long, long, long, long, unsigned)); \
  if (own) { go(f, d, n, lo, hi, step, chunk); } else real(f, d, n, lo, hi, step, chunk, flags); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
void GOMP_parallel_loop_runtime(void (*f)(void*), void* d, unsigned n, long lo, long hi, long step, unsigned flags)
{ NEXT("GOMP_parallel_loop_runtime", void (*)(void (*)(void*), void*, unsigned, long, long, long, unsigned)); if (own) go(f, d, n, lo, hi, step, 1); else real(f, d, n, lo, hi, step, flags); }
static bool next(long* a, long* b)
{
    struct team* t = team;
    jitter(2);
    pthread_mutex_lock(&t->m);
    long lo = t->lo, left = t->step > 0 ? (t->hi - lo + t->step - 1) / t->step : (lo - t->hi - t->step - 1) / -t->step;
    bool ok = left > 0;
    if (ok)
    {
        long k = t->chunk > 0 ? t->chunk : 1;
        if (k > left) k = left;
        t->lo = lo + k * t->step;
        *a = lo; *b = t->lo;
    }
    pthread_mutex_unlock(&t->m);
    return ok;
}
static bool begin(long lo, long hi, long step, long chunk, long* a, long* b)
{
    struct team* t = team;
    pthread_mutex_lock(&t->m);
    if (t->loops == myloops) { t->loops++; t->lo = lo; t->hi = hi; t->step = step; t->chunk = chunk; }
    myloops++;
    pthread_mutex_unlock(&t->m);
    return next(a, b);
}
#define LOOP(kind) \
bool GOMP_loop_##kind##_start(long lo, long hi, long step, long chunk, long* a, long* b) \
{ NEXT("GOMP_loop_" #kind "_start", bool (*)(long, long, long, long, long*, long*)); return own && team ? begin(lo, hi, step, chunk, a, b) : real(lo, hi, step, chunk, a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) \
{ NEXT("GOMP_loop_" #kind "_next", bool (*)(long*, long*)); return own && team ? next(a, b) : real(a, b); } \
typedef unsigned long long ull_##kind; \
bool GOMP_loop_ull_##kind##_start(bool up, ull_##kind lo, ull_##kind hi, ull_##kind step, ull_##kind chunk, ull_##kind* a, ull_##kind* b) \
{ NEXT("GOMP_loop_ull_" #kind "_start", bool (*)(bool, ull_##kind, ull_##kind, ull_##kind, ull_##kind, ull_##kind*, ull_##kind*)); \
  return own && team ? begin((long)lo, (long)hi, (long)step, (long)chunk, (long*)a, (long*)b) : real(up, lo, hi, step, chunk, a, b); } \
bool GOMP_loop_ull_##kind##_next(ull_##kind* a, ull_##kind* b) \
{ NEXT("GOMP_loop_ull_" #kind "_next", bool (*)(ull_##kind*, ull_##kind*)); return own && team ? next((long*)a, (long*)b) : real(a, b); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
void GOMP_barrier(void) { NEXT("GOMP_barrier", void (*)(void)); if (own) { if (team) pthread_barrier_wait(&team->bar); } else real(); }
void GOMP_loop_end(void) { NEXT("GOMP_loop_end", void (*)(void)); if (own) { if (team) pthread_barrier_wait(&team->bar); } else real(); }
void GOMP_loop_end_nowait(void) { NEXT("GOMP_loop_end_nowait", void (*)(void)); if (!own) real(); }
bool GOMP_single_start(void)
{
    NEXT("GOMP_single_start", bool (*)(void));
    if (!own) return real();
    if (!team) return true;
    pthread_mutex_lock(&team->m);
    bool first = team->loops == myloops;
    if (first) team->loops++;
    myloops++;
    pthread_mutex_unlock(&team->m);
    return first;
}
static pthread_mutex_t any = PTHREAD_MUTEX_INITIALIZER, atomics = PTHREAD_MUTEX_INITIALIZER, names = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t* named(void** p)
{
    pthread_mutex_lock(&names);
    if (!*p) { pthread_mutex_t* m = malloc(sizeof *m); pthread_mutex_init(m, 0); *p = m; }
    pthread_mutex_t* m = *p;
    pthread_mutex_unlock(&names);
    return m;
}
void GOMP_critical_name_start(void** p) { NEXT("GOMP_critical_name_start", void (*)(void**)); jitter(3); if (own) pthread_mutex_lock(named(p)); else real(p); }
void GOMP_critical_name_end(void** p) { NEXT("GOMP_critical_name_end", void (*)(void**)); if (own) pthread_mutex_unlock(named(p)); else real(p); jitter(5); }
void GOMP_critical_start(void) { NEXT("GOMP_critical_start", void (*)(void)); jitter(3); if (own) pthread_mutex_lock(&any); else real(); }
void GOMP_critical_end(void) { NEXT("GOMP_critical_end", void (*)(void)); if (own) pthread_mutex_unlock(&any); else real(); jitter(5); }
void GOMP_atomic_start(void) { NEXT("GOMP_atomic_start", void (*)(void)); if (own) pthread_mutex_lock(&atomics); else real(); }
void GOMP_atomic_end(void) { NEXT("GOMP_atomic_end", void (*)(void)); if (own) pthread_mutex_unlock(&atomics); else real(); }
void omp_init_lock(void** l) { NEXT("omp_init_lock", void (*)(void**)); if (own) { *l = 0; named(l); } else real(l); }
void omp_destroy_lock(void** l) { NEXT("omp_destroy_lock", void (*)(void**)); if (!own) real(l); }
void omp_set_lock(void** l) { NEXT("omp_set_lock", void (*)(void**)); jitter(3); if (own) pthread_mutex_lock(named(l)); else real(l); }
void omp_unset_lock(void** l) { NEXT("omp_unset_lock", void (*)(void**)); if (own) pthread_mutex_unlock(named(l)); else real(l); }
