/* GOMP entry points on plain threads, so that the thread sanitizer sees every
   fork and join of the parallel regions gcc generates */
#include <pthread.h>
#include <stdlib.h>
#include <sched.h>

static int nthr = 1;
static __thread int me = 0, team = 1;
static __thread pthread_barrier_t *bar = 0;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
typedef struct { void (*fn)(void *); void *data; int id, n; pthread_barrier_t *b; } job;
typedef struct { pthread_mutex_t m; long next, end, chunk, inc; } dyn;
static dyn loop = { PTHREAD_MUTEX_INITIALIZER, 0, 0, 1, 1 };

void omp_set_num_threads(int n) { nthr = n > 0 ? n : 1; }
int omp_get_num_threads(void) { return team; }
int omp_get_thread_num(void) { return me; }
int omp_get_max_threads(void) { return nthr; }
void GOMP_barrier(void) { if (bar) pthread_barrier_wait(bar); }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&crit); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&crit); }

static void *start(void *p) {
    job *j = p;
    me = j->id; team = j->n; bar = j->b;
    j->fn(j->data);
    return 0;
}

static void run(void (*fn)(void *), void *data, unsigned n) {
    int i, k = n ? (int)n : nthr;
    job *j = calloc(k, sizeof *j);
    pthread_t *t = calloc(k, sizeof *t);
    pthread_barrier_t b;
    pthread_barrier_init(&b, 0, k);
    for (i = 0; i < k; i++) {
        j[i].fn = fn; j[i].data = data; j[i].id = i; j[i].n = k; j[i].b = &b;
        pthread_create(&t[i], 0, start, &j[i]);
    }
    for (i = 0; i < k; i++) pthread_join(t[i], 0);
    pthread_barrier_destroy(&b);
    free(t); free(j);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    (void)flags;
    run(fn, data, n);
}

/* combined "parallel for" with a dynamic or guided schedule */
static void par_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long chunk) {
    loop.next = s; loop.end = e; loop.inc = inc; loop.chunk = chunk > 0 ? chunk : 1;
    run(fn, data, n);
}
#define PAR(name) void name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
    { (void)f; par_loop(fn, d, n, s, e, i, c); }
PAR(GOMP_parallel_loop_dynamic) PAR(GOMP_parallel_loop_guided)
PAR(GOMP_parallel_loop_nonmonotonic_dynamic) PAR(GOMP_parallel_loop_nonmonotonic_guided)

static int grab(long *s, long *e) {
    int ok;
    pthread_mutex_lock(&loop.m);
    ok = loop.next < loop.end;
    if (ok) {
        *s = loop.next;
        loop.next += loop.chunk * loop.inc;
        if (loop.next > loop.end) loop.next = loop.end;
        *e = loop.next;
    }
    pthread_mutex_unlock(&loop.m);
    return ok;
}
int GOMP_loop_dynamic_next(long *s, long *e) { return grab(s, e); }
int GOMP_loop_guided_next(long *s, long *e) { return grab(s, e); }
int GOMP_loop_nonmonotonic_dynamic_next(long *s, long *e) { return grab(s, e); }
int GOMP_loop_nonmonotonic_guided_next(long *s, long *e) { return grab(s, e); }

/* "for" inside a parallel region: the first thread to arrive sets the loop up */
static int arrived = 0;
static int first(long s, long e, long inc, long chunk, long *a, long *b) {
    pthread_mutex_lock(&loop.m);
    if (arrived == 0) { loop.next = s; loop.end = e; loop.inc = inc; loop.chunk = chunk > 0 ? chunk : 1; }
    if (++arrived == team) arrived = 0;
    pthread_mutex_unlock(&loop.m);
    return grab(a, b);
}
int GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return first(s, e, i, c, a, b); }
int GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return first(s, e, i, c, a, b); }
int GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return first(s, e, i, c, a, b); }
int GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return first(s, e, i, c, a, b); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
