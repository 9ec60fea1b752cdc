#include "c14rt.hpp"
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <new>

namespace sch {
enum St { NONE, READY, BLOCKED, DONE };
static __thread int tid = -1;
static __thread int omp_n = 1, omp_me = 0;
static const Plan *plan;
static Result *res;
static int state[MAXT];
static sem_t sem[MAXT], mainsem;
static int nextpre, live;
static bool recording;
static uint64_t blocks;
extern "C" int sch_tid() { return tid; }

// ------------------------------------------------------------------ baton
static void wait_on(sem_t *s) { while (sem_wait(s) && errno == EINTR) {} }
static int pick(int me)
{
    for (int d = 1; d <= MAXT; d++) { const int t = (me + d) % MAXT; if (t != me && state[t] == READY) return t; }
    for (int d = 1; d <= MAXT; d++) { const int t = (me + d) % MAXT; if (t != me && state[t] == BLOCKED) return t; }
    return -1;
}
static void go_to(int t)
{
    const int me = tid;
    if (t == me || t < 0) return;
    sem_post(&sem[t]);
    wait_on(&sem[me]);
}
// the thread cannot proceed (or spins): let the others run
static void blocked()
{
    if (tid < 0) { sched_yield(); return; }
    if (++blocks > 2000000) { res->deadlock = 1; _exit(41); }
    const int me = tid, t = pick(me);
    if (t < 0) {
        if (blocks % 1000 == 999 && blocks > 1000000) { res->deadlock = 1; _exit(41); }
        return;
    }
    state[me] = BLOCKED;
    go_to(t);
    state[me] = READY;
}
static void leave()
{
    const int me = tid;
    state[me] = DONE;
    const int t = pick(me);
    tid = -1;
    live--;
    if (t >= 0) sem_post(&sem[t]);
    else sem_post(&mainsem);
}
static void step()
{
    const uint64_t s = res->steps++;
    if (nextpre < plan->npre && plan->pre[nextpre].step == s) {
        const int to = plan->pre[nextpre++].to;
        if (to >= 0 && to < MAXT && state[to] == READY) go_to(to);
    }
}

// ------------------------------------------------------------ access record
struct Page { uint64_t no; Page *next; uint64_t cell[512]; uint8_t listed[512]; };
static Page *buckets[1 << 14];
static Page *lastp;
static char *pool, *poolend;
static uint64_t *pset;
static uint64_t psize;
// happens-before, byte by byte, for the words that are scheduling points
struct Clock { uint32_t c[MAXT]; };
struct Hot { uint32_t r[MAXT][8], w[MAXT][8]; };
static Hot *hots;
static Clock vc[MAXT];
static inline void join(Clock &a, const Clock &b) { for (int t = 0; t < MAXT; t++) if (b.c[t] > a.c[t]) a.c[t] = b.c[t]; }
struct Sync { uint64_t g; Clock c; };
constexpr uint64_t NSYNC = 1 << 16;
static Sync syncs[NSYNC];
static Clock *sync_of(const void *p)
{
    const uint64_t g = (uint64_t)p >> 3;
    for (uint64_t i = g * 0x9e3779b97f4a7c15ULL >> 20;; i++) {
        Sync &s = syncs[i & (NSYNC - 1)];
        if (!s.g) s.g = g;
        if (s.g == g) return &s.c;
    }
}
static void synchronise(const void *p)     // acquire and release
{
    if (tid < 0) return;
    Clock *c = sync_of(p);
    join(vc[tid], *c);
    *c = vc[tid];
    vc[tid].c[tid]++;
}
static Page *page(uint64_t no)
{
    if (lastp && lastp->no == no) return lastp;
    Page **b = &buckets[(no * 0x9e3779b97f4a7c15ULL) >> 50];
    for (Page *p = *b; p; p = p->next) if (p->no == no) return lastp = p;
    if (pool + sizeof(Page) > poolend) {
        const size_t sz = size_t(64) << 20;
        pool = (char *)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (pool == MAP_FAILED) _exit(3);
        poolend = pool + sz;
    }
    Page *p = (Page *)pool;
    pool += sizeof(Page);
    p->no = no;
    p->next = *b;
    *b = p;
    return lastp = p;
}
static void forget()
{
    for (auto &b : buckets) for (Page *p = b; p; p = p->next) memset(p->cell, 0, sizeof p->cell);
    if (psize) memset(hots, 0, psize * sizeof *hots);
}
static Hot *hot(uint64_t g)
{
    if (!psize) return nullptr;
    for (uint64_t i = g * 0x9e3779b97f4a7c15ULL >> 20;; i++) {
        const uint64_t v = pset[i & (psize - 1)];
        if (v == g) return &hots[i & (psize - 1)];
        if (!v) return nullptr;
    }
}
static void conflict(uint64_t g)
{
    uint8_t &l = page(g >> 9)->listed[g & 511];
    if (l) return;
    l = 1;
    if (res->nconf >= MAXCONF) { res->too_many = true; return; }
    res->conf[res->nconf++] = g;
}
static inline unsigned bytes(uint64_t g, uint64_t first, uint64_t last, uint64_t a, size_t n)
{
    unsigned m = 0xff;
    if (g == first) m &= 0xffu << (a & 7);
    if (g == last) m &= 0xffu >> (7 - ((a + n - 1) & 7));
    return m;
}
static inline void acc(const void *ptr, size_t n, bool w, bool sync = false)
{
    if (tid < 0 || !recording || !n) return;
    const uint64_t a = (uint64_t)ptr, first = a >> 3, last = (a + n - 1) >> 3;
    if (psize) {
        for (uint64_t g = first; g <= last; g++)
            if (hot(g)) { step(); break; }
        if (!sync)
            for (uint64_t g = first; g <= last; g++)
                if (Hot *h = hot(g)) {
                    const unsigned m = bytes(g, first, last, a, n);
                    const Clock &me = vc[tid];
                    for (int b = 0; b < 8; b++) {
                        if (!(m >> b & 1)) continue;
                        for (int t = 0; t < MAXT; t++)
                            if (t != tid && (h->w[t][b] > me.c[t] || (w && h->r[t][b] > me.c[t])) && !res->race) {
                                res->race = (g << 3) + b;
                                res->racer[0] = tid;
                                res->racer[1] = t;
                                res->race_write = w;
                            }
                        (w ? h->w : h->r)[tid][b] = me.c[tid];
                    }
                }
    }
    if (sync) synchronise(ptr);
    res->accesses++;
    const int me = tid;
    for (uint64_t g = first; g <= last; g++) {
        const unsigned m = bytes(g, first, last, a, n);
        Page *pg = page(g >> 9);
        uint64_t &c = pg->cell[g & 511];
        if (!c) res->words++;
        // per thread eight read bits and eight write bits
        const uint64_t old = c;
        c |= uint64_t(m) << (me * 16 + (w ? 8 : 0));
        if (old == 0) continue;
        for (int t = 0; t < MAXT; t++) {
            if (t == me) continue;
            const unsigned o = unsigned(old >> (t * 16)) & 0xffff;
            if (((o >> 8) & m) || (w && (o & 0xff & m))) { conflict(g); break; }
        }
    }
}

// ------------------------------------------------------------------ threads
static void (*theop)(int);
static pthread_key_t key;
static void at_exit(void *) { leave(); }     // after the thread's own destructors
static void *body(void *arg)
{
    const int me = int((intptr_t)arg) - 1;
    wait_on(&sem[me]);
    tid = me;
    pthread_setspecific(key, arg);
    theop(me);
    return nullptr;
}
void run(const Plan &p, Result &r, void (*op)(int))
{
    plan = &p;
    res = &r;
    memset(&r, 0, sizeof r);
    theop = op;
    nextpre = 0;
    for (int t = 0; t < MAXT; t++) { state[t] = NONE; sem_init(&sem[t], 0, 0); }
    sem_init(&mainsem, 0, 0);
    psize = 0;
    if (p.npoints) {
        uint64_t sz = 64;
        while (sz < 4 * p.npoints) sz *= 2;
        pset = (uint64_t *)mmap(nullptr, sz * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (uint64_t k = 0; k < p.npoints; k++) {
            uint64_t i = p.points[k] * 0x9e3779b97f4a7c15ULL >> 20;
            while (pset[i & (sz - 1)]) i++;
            pset[i & (sz - 1)] = p.points[k];
        }
        psize = sz;
        hots = (Hot *)mmap(nullptr, sz * sizeof(Hot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    pthread_key_create(&key, at_exit);
    pthread_t th[MAXT];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, size_t(16) << 20);
    // state[] is indexed by thread; the start order is a cyclic walk from the first
    for (int i = 0; i < p.n; i++) state[i] = READY;
    live = p.n;
    memset(vc, 0, sizeof vc);
    memset(syncs, 0, sizeof syncs);
    for (int t = 0; t < MAXT; t++) vc[t].c[t] = 1;
    for (int i = 0; i < p.n; i++) if (pthread_create(&th[i], &at, body, (void *)(intptr_t)(i + 1))) _exit(3);
    recording = p.n > 1;
    sem_post(&sem[p.order[0] < p.n ? p.order[0] : 0]);
    wait_on(&mainsem);
    recording = false;
    for (int i = 0; i < p.n; i++) pthread_join(th[i], nullptr);
}

// ------------------------------------------------------------------- OpenMP
struct Team { void (*fn)(void *); void *data; int me, n, left; };
static Team *team;
static int barrier_in, barrier_gen, single_gen, dyn_open;
static long dyn_next, dyn_end, dyn_incr, dyn_chunk;
static __thread int my_single;
static void *member(void *arg)
{
    const int me = int((intptr_t)arg) - 1;
    wait_on(&sem[me]);
    tid = me;
    omp_me = me;
    omp_n = team->n;
    pthread_setspecific(key, arg);
    team->fn(team->data);
    return nullptr;
}
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned want, unsigned)
{
    const int n = want ? (int(want) < (plan ? plan->team : 1) ? int(want) : (plan ? plan->team : 1)) : (plan ? plan->team : 1);
    if (tid != 0 || n <= 1 || omp_n > 1 || plan->n > 1) {
        const int a = omp_n, b = omp_me;
        omp_n = 1; omp_me = 0;
        fn(data);
        omp_n = a; omp_me = b;
        return;
    }
    res->regions++;
    Team tm{fn, data, 0, n, n - 1};
    team = &tm;
    barrier_in = 0; single_gen = 0; my_single = 0; dyn_open = 0;
    forget();
    for (int i = 1; i < n; i++) { vc[i] = vc[0]; vc[i].c[i]++; }
    vc[0].c[0]++;
    for (int i = 1; i < n; i++) { state[i] = READY; sem_destroy(&sem[i]); sem_init(&sem[i], 0, 0); }
    pthread_t th[MAXT];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, size_t(16) << 20);
    for (int i = 1; i < n; i++) if (pthread_create(&th[i], &at, member, (void *)(intptr_t)(i + 1))) _exit(3);
    recording = true;
    omp_n = n; omp_me = 0;
    if (plan->order[0] > 0 && plan->order[0] < n) go_to(plan->order[0]);   // another member first
    fn(data);
    recording = false;
    for (;;) {
        bool all = true;
        for (int i = 1; i < n; i++) all &= state[i] == DONE;
        if (all) break;
        recording = true;
        blocked();
        recording = false;
    }
    for (int i = 1; i < n; i++) { pthread_join(th[i], nullptr); state[i] = NONE; join(vc[0], vc[i]); }
    omp_n = 1; omp_me = 0;
}
int omp_get_num_threads() { return omp_n; }
int omp_get_thread_num() { return omp_me; }
int omp_get_max_threads() { return plan && plan->n == 1 ? plan->team : 1; }
int omp_in_parallel() { return omp_n > 1; }
void omp_set_num_threads(int) {}
int omp_get_num_procs() { return 4; }
void GOMP_barrier()
{
    if (omp_n <= 1) return;
    acc(&barrier_in, 4, true, true);
    const int gen = barrier_gen;
    if (++barrier_in == omp_n) { barrier_in = 0; barrier_gen++; return; }
    while (barrier_gen == gen) blocked();
    synchronise(&barrier_in);
}
bool GOMP_single_start()
{
    if (omp_n <= 1) return true;
    acc(&single_gen, 4, true, true);
    if (my_single++ == single_gen) { single_gen++; return true; }
    return false;
}
static volatile int crit;
void GOMP_critical_start()
{
    acc((const void *)&crit, 4, true, true);
    while (crit) blocked();
    synchronise((const void *)&crit);
    crit = 1;
}
void GOMP_critical_end() { acc((const void *)&crit, 4, true, true); crit = 0; }
void GOMP_atomic_start() { GOMP_critical_start(); }
void GOMP_atomic_end() { GOMP_critical_end(); }
bool GOMP_loop_dynamic_next(long *s, long *e)
{
    acc(&dyn_next, 8, true, true);
    if (dyn_incr > 0 ? dyn_next >= dyn_end : dyn_next <= dyn_end) return false;
    *s = dyn_next;
    dyn_next += dyn_chunk * dyn_incr;
    *e = (dyn_incr > 0 ? dyn_next > dyn_end : dyn_next < dyn_end) ? dyn_end : dyn_next;
    return true;
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *is, long *ie)
{
    acc(&dyn_open, 4, true, true);
    if (omp_n <= 1 || !dyn_open) { dyn_next = s; dyn_end = e; dyn_incr = i; dyn_chunk = c > 0 ? c : 1; dyn_open = 1; }
    return GOMP_loop_dynamic_next(is, ie);
}
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_guided_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_ull_dynamic_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return GOMP_loop_dynamic_start(long(s), long(e), long(i), long(c), (long *)a, (long *)b); }
bool GOMP_loop_ull_dynamic_next(unsigned long long *a, unsigned long long *b) { return GOMP_loop_dynamic_next((long *)a, (long *)b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return GOMP_loop_dynamic_start(long(s), long(e), long(i), long(c), (long *)a, (long *)b); }
bool GOMP_loop_ull_nonmonotonic_dynamic_next(unsigned long long *a, unsigned long long *b) { return GOMP_loop_dynamic_next((long *)a, (long *)b); }
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { GOMP_barrier(); dyn_open = 0; }
struct DynArg { void (*fn)(void *); void *data; };
#define PLOOP(name)                                                                                              \
    void name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned f)            \
    {                                                                                                            \
        dyn_next = s; dyn_end = e; dyn_incr = i; dyn_chunk = c > 0 ? c : 1;                                      \
        GOMP_parallel(fn, data, n, f);                                                                           \
    }
PLOOP(GOMP_parallel_loop_dynamic)
PLOOP(GOMP_parallel_loop_guided)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
}

// ------------------------------------------------------------------- memory
static char *abase, *acur, *aend;
void arena(void *b, size_t n) { abase = acur = (char *)b; aend = acur + n; }
constexpr uint64_t TB = 0x100000000000ULL, TS = uint64_t(1) << 30;    // per thread
static char *tcur[MAXT];
static bool ours(const void *p) { return (uint64_t)p >= TB && (uint64_t)p < TB + TS * MAXT; }
static void *bump(char *&cur, char *end, size_t n, size_t al)
{
    uint64_t p = (uint64_t)cur + 16;
    p = (p + al - 1) & ~(al - 1);
    if (p + n > (uint64_t)end) _exit(3);
    ((uint64_t *)p)[-1] = n;
    cur = (char *)p + n;
    return (void *)p;
}
static void *get(size_t n, size_t al)
{
    if (al < 16) al = 16;
    if (n == 0) n = 1;
    if (tid >= 0) {
        if (!tcur[tid]) {
            void *m = mmap((void *)(TB + TS * tid), TS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
            if (m == MAP_FAILED) _exit(3);
            tcur[tid] = (char *)m;
        }
        return bump(tcur[tid], (char *)(TB + TS * (tid + 1)), n, al);
    }
    if (abase) return bump(acur, aend, n, al);
    return nullptr;
}
}  // namespace sch
using namespace sch;
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = get(n, 16); return p ? p : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p = get(a * b, 16); return p ? memset(p, 0, a * b) : __real_calloc(a, b); }
void *__wrap_aligned_alloc(size_t al, size_t n) { void *p = get(n, al); return p ? p : __real_aligned_alloc(al, n); }
int __wrap_posix_memalign(void **o, size_t al, size_t n) { void *p = get(n, al); if (p) { *o = p; return 0; } return __real_posix_memalign(o, al, n); }
void __wrap_free(void *p)
{
    if (!p) return;
    if (ours(p)) {      // never reused; what still refers to it reads rubbish
        const uint64_t n = ((uint64_t *)p)[-1];
        acc(p, n, true);
        memset(p, 0xdb, n);
        return;
    }
    if (tid >= 0 || abase || ((char *)p >= (char *)0x200000000000ULL && (char *)p < (char *)0x210000000000ULL)) return;
    __real_free(p);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (tid < 0 && !abase && !ours(p)) return __real_realloc(p, n);
    void *q = __wrap_malloc(n);
    if (p && ours(p)) { const uint64_t o = ((uint64_t *)p)[-1]; memcpy(q, p, o < n ? o : n); }
    return q;
}

// ------------------------------------------------------ sanitizer interface
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { acc(p, 8, true); }
void __tsan_vptr_read(void **p) { acc(p, 8, false); }
#define RW(n)                                                            \
    void __tsan_read##n(void *p) { acc(p, n, false); }                   \
    void __tsan_write##n(void *p) { acc(p, n, true); }                   \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, false); }         \
    void __tsan_unaligned_write##n(void *p) { acc(p, n, true); }         \
    void __tsan_volatile_read##n(void *p) { acc(p, n, false); }          \
    void __tsan_volatile_write##n(void *p) { acc(p, n, true); }          \
    void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, false); }\
    void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, true); }\
    void __tsan_read_write##n(void *p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, true); }
static __thread unsigned spins;
static inline void spin() { if (tid >= 0 && ++spins % 2000 == 0) blocked(); }
#define AT(b, T)                                                                                                     \
    T __tsan_atomic##b##_load(const volatile T *p, int) { acc((const void *)p, sizeof(T), false, true); spin(); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }      \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true, true); spin(); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int) { acc((const void *)p, sizeof(T), true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { acc((const void *)p, sizeof(T), true, true); spin(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { acc((const void *)p, sizeof(T), true, true); spin(); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { acc((const void *)p, sizeof(T), true, true); spin(); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// block copies and the assembly transforms are not instrumented by the compiler
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, true); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc(s, n, false); acc(d, n, true); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { acc(d, n, true); return __real_memset(d, c, n); }
struct Pre { uint64_t n; double *trig, *data; };
static void transform(const void *t, double *d, bool after)
{
    const Pre *p = (const Pre *)t;
    acc(t, 24, false);
    uint64_t n = p->n;
    if (n < 32 || n > (1u << 20)) n = 32;
    if (!after) acc(p->trig, n * 8, false);
    acc(d, n * 4, true);
}
void __real_fft(const void *, double *);
void __real_ifft(const void *, double *);
void __wrap_fft(const void *t, double *d) { transform(t, d, false); __real_fft(t, d); transform(t, d, true); }
void __wrap_ifft(const void *t, double *d) { transform(t, d, false); __real_ifft(t, d); transform(t, d, true); }

// ---------------------------------------------------------- synchronisation
int __cxa_guard_acquire(uint64_t *g)
{
    unsigned char *b = (unsigned char *)g;
    acc(g, 1, true, true);
    while (!b[0] && b[1]) blocked();
    synchronise(g);
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t *g) { unsigned char *b = (unsigned char *)g; acc(g, 1, true, true); b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t *g) { unsigned char *b = (unsigned char *)g; b[1] = 0; }
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (tid < 0) return __real_pthread_mutex_lock(m);
    acc(m, 8, true, true);
    int r;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) blocked();
    synchronise(m);
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { acc(m, 8, true, true); return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { acc(m, 8, true, true); int r; while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY) blocked(); synchronise(m); return r; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { acc(m, 8, true, true); int r; while ((r = pthread_rwlock_trywrlock(m)) == EBUSY) blocked(); synchronise(m); return r; }
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { acc(m, 8, true, true); return __real_pthread_rwlock_unlock(m); }
int __wrap_pthread_once(pthread_once_t *o, void (*f)())
{
    volatile int *s = (volatile int *)o;
    acc(o, 4, true, true);
    while (*s == 1) blocked();
    synchronise(o);
    if (*s == 2) return 0;
    *s = 1;
    f();
    acc(o, 4, true, true);
    *s = 2;
    return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)   // spurious wake-ups are allowed
{
    acc(c, 8, true, true);
    __wrap_pthread_mutex_unlock(m);
    blocked();
    __wrap_pthread_mutex_lock(m);
    synchronise(c);
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return __wrap_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { acc(c, 8, true, true); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { acc(c, 8, true, true); return 0; }
int __wrap_sched_yield() { blocked(); return 0; }
}
static void *anew(size_t n, size_t al)
{
    void *p = get(n, al);
    if (p) return p;
    p = al > 16 ? __real_aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
    if (!p) abort();
    return p;
}
void *operator new(size_t n) { return anew(n, 16); }
void *operator new[](size_t n) { return anew(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return anew(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return anew(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return anew(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return anew(n, size_t(a)); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
