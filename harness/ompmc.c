#define _GNU_SOURCE
#include "ompmc.h"
#include <dlfcn.h>
#include <malloc.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

enum { MAXT = 8, STACK = 512 * 1024, TABLE = 1 << 22 };
int ompmc_team = 1, ompmc_bound = 2;
int (*ompmc_choose)(int) = 0;
long ompmc_regions, ompmc_parallel, ompmc_accesses, ompmc_syncs;
static void* racePc[2];
static char race[1200], trouble[300];
void __real_free(void*);
void* __real_realloc(void*, unsigned long);

// ---------------------------------------------------------------- threads
typedef uint32_t clk;
enum { Ready, Blocked, Done };
static struct Th { ucontext_t ctx; char* stack; int state; void* waits; clk vc[MAXT]; long iter; int parts; } th[MAXT];
static ucontext_t sched;
static int inRegion, cur, nth, preempt, barrierCount;
static long syncsHere;
static void (*fnp)(void*);
static void* argp;
static clk barrierVC[MAXT];
static uint32_t gen;
unsigned ompmc_cells = 1 << 16;
static unsigned mask;

// happens-before carried by locks, atomics and guards
enum { NSYNC = 256 };
static struct Sync { void* a; int owner; clk vc[MAXT]; } syncs[NSYNC];
static int nsyncs;
static struct Sync* syncOf(void* a) {
    for (int i = 0; i < nsyncs; i++) if (syncs[i].a == a) return &syncs[i];
    if (nsyncs == NSYNC) { if (!trouble[0]) snprintf(trouble, sizeof trouble, "too many synchronisation objects"); nsyncs = 0; }
    struct Sync* s = &syncs[nsyncs++];
    memset(s, 0, sizeof *s);
    s->a = a;
    s->owner = -1;
    return s;
}
static void join(clk* a, const clk* b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(void* a) { join(th[cur].vc, syncOf(a)->vc); }
static void release(void* a) { join(syncOf(a)->vc, th[cur].vc); th[cur].vc[cur]++; }

static void toSched(void) { swapcontext(&th[cur].ctx, &sched); }
// a point where another thread may run first
static void point(void) {
    ompmc_syncs++;
    syncsHere++;
    toSched();
}
static void run1(void) {
    fnp(argp);
    th[cur].state = Done;
    toSched();
}
static void deferFlush(void);
static void region(void (*fn)(void*), void* data, unsigned n) {
    ompmc_regions++;
    if (inRegion) { int p = inRegion; inRegion = 2; int c = cur; fn(data); cur = c; inRegion = p; return; } // nested: a team of one
    if (!n) n = ompmc_team;
    if (n > MAXT) n = MAXT;
    if (n <= 1) { fn(data); return; }
    ompmc_parallel++;
    nth = (int) n;
    fnp = fn;
    argp = data;
    gen++;
    mask = (ompmc_cells < TABLE ? ompmc_cells : TABLE) - 1;
    nsyncs = 0;
    syncsHere = 0;
    barrierCount = 0;
    memset(barrierVC, 0, sizeof barrierVC);
    for (int i = 0; i < nth; i++) {
        if (!th[i].stack) th[i].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
        getcontext(&th[i].ctx);
        th[i].ctx.uc_stack.ss_sp = th[i].stack;
        th[i].ctx.uc_stack.ss_size = STACK;
        th[i].ctx.uc_link = &sched;
        makecontext(&th[i].ctx, run1, 0);
        th[i].state = Ready;
        th[i].waits = 0;
        th[i].iter = 0;
        th[i].parts = 0;
        memset(th[i].vc, 0, sizeof th[i].vc);
        th[i].vc[i] = 1;
    }
    inRegion = 1;
    cur = 0;
    int last = -1;
    while (1) {
        int run[MAXT], k = 0, alive = 0;
        // the running thread first, then ascending
        if (last >= 0 && th[last].state == Ready) run[k++] = last;
        for (int i = 0; i < nth; i++) {
            if (th[i].state != Done) alive++;
            if (th[i].state == Ready && i != last) run[k++] = i;
        }
        if (!alive) break;
        if (!k) { if (!trouble[0]) snprintf(trouble, sizeof trouble, "deadlock in a parallel region"); break; }
        int pick = 0;
        if (k > 1 && syncsHere && nth <= 3 && ompmc_choose) {
            if (preempt < ompmc_bound) {
                pick = ompmc_choose(k);
                if (pick) preempt++;
            }
        }
        cur = last = run[pick];
        swapcontext(&sched, &th[cur].ctx);
    }
    inRegion = 0;
    cur = 0;
    deferFlush();
}

// ---------------------------------------------------------------- deferred frees: an address is not used twice in a region
static void** bin;
static long nbin, capbin;
void* ompmc_malloc(unsigned long n) { return malloc(n ? n : 1); }
void ompmc_free(void* p) {
    if (!p) return;
    if (!inRegion) { __real_free(p); return; }
    if (nbin == capbin) { capbin = capbin ? 2 * capbin : 1024; bin = __real_realloc(bin, capbin * sizeof *bin); }
    bin[nbin++] = p;
}
void __wrap_free(void* p) { ompmc_free(p); }
void* __wrap_realloc(void* p, unsigned long n) {
    if (!inRegion || !p) return __real_realloc(p, n);
    void* q = malloc(n ? n : 1);
    unsigned long m = malloc_usable_size(p);
    memcpy(q, p, m < n ? m : n);
    ompmc_free(p);
    return q;
}
static void deferFlush(void) { while (nbin) __real_free(bin[--nbin]); }

// ---------------------------------------------------------------- accesses
static struct Cell { uintptr_t a; uint32_t gen; clk pw[MAXT], pr[MAXT], aw[MAXT], ar[MAXT]; void *wpc, *rpc; }* table;
static void report(uintptr_t a, int other, const char* mine, const char* theirs, void* pc, void* opc) {
    if (race[0]) return;
    racePc[0] = pc;
    racePc[1] = opc;
    snprintf(race, sizeof race, "data race in a team of %d: thread %d %s the address that thread %d %s, unordered", nth, cur, mine, other, theirs);
}
static void access1(uintptr_t a, int write, int atomic, void* pc) {
    uint64_t h = (((a >> 6) * 0x9e3779b97f4a7c15ull) >> 40) << 6 | (a & 63);
    struct Cell* c;
    for (int probe = 0;; probe++) {
        c = &table[(h + probe) & mask];
        if (c->gen != gen) { memset(c, 0, sizeof *c); c->gen = gen; c->a = a; break; }
        if (c->a == a) break;
        if (probe > (int) mask / 2) { if (!trouble[0]) snprintf(trouble, sizeof trouble, "access table full"); return; }
    }
    clk* vc = th[cur].vc;
    for (int u = 0; u < nth; u++) {
        if (u == cur) continue;
        const char* what = write ? "writes" : "reads";
        if (c->pw[u] > vc[u]) report(a, u, what, "wrote", pc, c->wpc);
        if (!atomic && c->aw[u] > vc[u]) report(a, u, what, "wrote atomically", pc, 0);
        if (write && c->pr[u] > vc[u]) report(a, u, what, "read", pc, c->rpc);
        if (write && !atomic && c->ar[u] > vc[u]) report(a, u, what, "read atomically", pc, 0);
    }
    clk me = vc[cur];
    if (atomic) { if (write) c->aw[cur] = me; else c->ar[cur] = me; }
    else if (write) { c->pw[cur] = me; c->wpc = pc; }
    else { c->pr[cur] = me; c->rpc = pc; }
}
static void range(const void* p, unsigned long n, int write, int atomic, void* pc) {
    if (inRegion != 1 && inRegion != 2) return;
    if (!table) { table = mmap(0, sizeof(struct Cell) * TABLE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    uintptr_t a = (uintptr_t) p;
    // a thread's own stack is taken as private: nothing in a region hands out its variables
    uintptr_t s = (uintptr_t) th[cur].stack;
    if (a >= s && a < s + STACK) return;
    ompmc_accesses++;
    for (unsigned long i = 0; i < n; i++) access1(a + i, write, atomic, pc);
}
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void* p) {}
void __tsan_func_exit(void) {}
#define RW(N)                                                                    \
    void __tsan_read##N(void* p) { range(p, N, 0, 0, PC); }                      \
    void __tsan_write##N(void* p) { range(p, N, 1, 0, PC); }                     \
    void __tsan_unaligned_read##N(void* p) { range(p, N, 0, 0, PC); }            \
    void __tsan_unaligned_write##N(void* p) { range(p, N, 1, 0, PC); }           \
    void __tsan_volatile_read##N(void* p) { range(p, N, 0, 0, PC); }             \
    void __tsan_volatile_write##N(void* p) { range(p, N, 1, 0, PC); }            \
    void __tsan_unaligned_volatile_read##N(void* p) { range(p, N, 0, 0, PC); }   \
    void __tsan_unaligned_volatile_write##N(void* p) { range(p, N, 1, 0, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { range(p, n, 0, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { range(p, n, 1, 0, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) range(p, 8, 1, 0, PC); }
void __tsan_vptr_read(void** p) { range(p, 8, 0, 0, PC); }
void* __real_memcpy(void*, const void*, unsigned long);
void* __real_memmove(void*, const void*, unsigned long);
void* __real_memset(void*, int, unsigned long);
void* __wrap_memcpy(void* d, const void* s, unsigned long n) { range(s, n, 0, 0, PC); range(d, n, 1, 0, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, unsigned long n) { range(s, n, 0, 0, PC); range(d, n, 1, 0, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, unsigned long n) { range(d, n, 1, 0, PC); return __real_memset(d, v, n); }
// atomics: every operation is a scheduling point and orders its threads, unless relaxed
static void atom(const volatile void* p, int n, int write, int mo, void* pc) {
    if (!inRegion) return;
    point();
    range((void*) p, n, write, 1, pc);
    if (mo != 0) { acquire((void*) p); if (write) release((void*) p); }
}
#define AT(B, T)                                                                                                                          \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) { atom(a, sizeof(T), 0, mo, PC); return *a; }                                \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) { atom(a, sizeof(T), 1, mo, PC); *a = v; }                                \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) { atom(a, sizeof(T), 1, mo, PC); T o = *a; *a = v; return o; }             \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) { atom(a, sizeof(T), 1, mo, PC); T o = *a; *a = (T) (o + v); return o; }  \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) { atom(a, sizeof(T), 1, mo, PC); T o = *a; *a = (T) (o - v); return o; }  \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) { atom(a, sizeof(T), 1, mo, PC); T o = *a; *a = o & v; return o; }        \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) { atom(a, sizeof(T), 1, mo, PC); T o = *a; *a = o | v; return o; }         \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) { atom(a, sizeof(T), 1, mo, PC); T o = *a; *a = o ^ v; return o; }        \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) { atom(a, sizeof(T), 1, mo, PC); T o = *a; *a = ~(o & v); return o; }    \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fm) { atom(a, sizeof(T), 1, mo, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fm) { atom(a, sizeof(T), 1, mo, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }   \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fm) { atom(a, sizeof(T), 1, mo, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
int __wrap___cxa_guard_acquire(void* g) {
    int r = __real___cxa_guard_acquire(g);
    if (inRegion) acquire(g);
    return r;
}
void __wrap___cxa_guard_release(void* g) {
    __real___cxa_guard_release(g);
    if (inRegion) { range(g, 1, 1, 1, PC); release(g); }
}

// ---------------------------------------------------------------- locks, barriers
static void lock(void* a) {
    if (!inRegion) return;
    point();
    while (1) {
        struct Sync* s = syncOf(a);
        if (s->owner < 0) { s->owner = cur; join(th[cur].vc, s->vc); return; }
        if (s->owner == cur) { if (!trouble[0]) snprintf(trouble, sizeof trouble, "a thread waits for a lock it holds"); return; }
        th[cur].state = Blocked;
        th[cur].waits = a;
        toSched();
    }
}
static void unlock(void* a) {
    if (!inRegion) return;
    release(a);
    syncOf(a)->owner = -1;
    for (int i = 0; i < nth; i++) if (th[i].state == Blocked && th[i].waits == a) { th[i].state = Ready; th[i].waits = 0; }
}
static char theBarrier, atomicLock, criticalLock;
void GOMP_barrier(void) {
    if (inRegion != 1) return;
    syncsHere++;
    join(barrierVC, th[cur].vc);
    if (++barrierCount == nth) {
        barrierCount = 0;
        for (int i = 0; i < nth; i++) {
            join(th[i].vc, barrierVC);
            th[i].vc[i]++;
            if (th[i].waits == &theBarrier) { th[i].state = Ready; th[i].waits = 0; }
        }
        return;
    }
    th[cur].state = Blocked;
    th[cur].waits = &theBarrier;
    toSched();
}
void GOMP_critical_start(void) { lock(&criticalLock); }
void GOMP_critical_end(void) { unlock(&criticalLock); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atomicLock); }
void GOMP_atomic_end(void) { unlock(&atomicLock); }
void omp_init_lock(void* l) {}
void omp_destroy_lock(void* l) {}
void omp_set_lock(void* l) { lock(l); }
void omp_unset_lock(void* l) { unlock(l); }
int omp_test_lock(void* l) { if (!inRegion) return 1; point(); struct Sync* s = syncOf(l); if (s->owner >= 0) return 0; s->owner = cur; join(th[cur].vc, s->vc); return 1; }

// ---------------------------------------------------------------- worksharing
// one descriptor per construct in order of arrival of each thread
enum { NWS = 64 };
static struct Ws { int used; uint32_t gen; long next, end, incr, chunk; int kind, taken; unsigned arrived; } ws[NWS];
static struct Ws* nextWs(int* first) {
    int k = th[cur].parts++;
    struct Ws* w = &ws[k % NWS];
    *first = w->gen != gen || w->used != k + 1;
    if (*first) { memset(w, 0, sizeof *w); w->gen = gen; w->used = k + 1; }
    return w;
}
static struct Ws* curWs(void) { return &ws[(th[cur].parts - 1) % NWS]; }
static _Bool take(struct Ws* w, long* s, long* e) {
    point(); // who asks first gets the next part
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return 0;
    *s = w->next;
    long n = w->next + w->chunk * w->incr;
    if (w->incr > 0 ? n > w->end : n < w->end) n = w->end;
    *e = n;
    w->next = n;
    return 1;
}
static struct Ws serialWs;
static _Bool dynStart(long start, long end, long incr, long chunk, long* s, long* e) {
    if (inRegion != 1) { serialWs.next = end; *s = start; *e = end; return incr > 0 ? start < end : start > end; }
    int first;
    struct Ws* w = nextWs(&first);
    if (first) { w->next = start; w->end = end; w->incr = incr; w->chunk = chunk > 0 ? chunk : 1; }
    return take(w, s, e);
}
static _Bool dynNext(long* s, long* e) { return inRegion == 1 ? take(curWs(), s, e) : 0; }
#define DYN(NAME)                                                                                                                                                        \
    _Bool GOMP_loop_##NAME##_start(long start, long end, long incr, long chunk, long* s, long* e) { return dynStart(start, end, incr, chunk, s, e); }                  \
    _Bool GOMP_loop_##NAME##_next(long* s, long* e) { return dynNext(s, e); }                                                                                           \
    _Bool GOMP_loop_ull_##NAME##_start(_Bool up, unsigned long start, unsigned long end, unsigned long incr, unsigned long chunk, unsigned long* s, unsigned long* e) { return dynStart((long) start, (long) end, (long) incr, (long) chunk, (long*) s, (long*) e); } \
    _Bool GOMP_loop_ull_##NAME##_next(unsigned long* s, unsigned long* e) { return dynNext((long*) s, (long*) e); }
DYN(dynamic) DYN(guided) DYN(nonmonotonic_dynamic) DYN(nonmonotonic_guided) DYN(static)
#define RT(NAME)                                                                                                                          \
    _Bool GOMP_loop_##NAME##_start(long start, long end, long incr, long* s, long* e) { return dynStart(start, end, incr, 1, s, e); }   \
    _Bool GOMP_loop_##NAME##_next(long* s, long* e) { return dynNext(s, e); }
RT(runtime) RT(nonmonotonic_runtime) RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
_Bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return 0; }
static struct { long start, end, incr, chunk; } comb;
static void (*combFn)(void*);
static void combRun(void* p) {
    // the outlined function of a combined construct calls ..._next only
    int first;
    struct Ws* w = nextWs(&first);
    if (first) { w->next = comb.start; w->end = comb.end; w->incr = comb.incr; w->chunk = comb.chunk > 0 ? comb.chunk : 1; }
    combFn(p);
}
#define PDYN(NAME) \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk, unsigned flags) { \
        comb.start = start; comb.end = end; comb.incr = incr; comb.chunk = chunk; combFn = fn; \
        if (!n) n = ompmc_team; \
        region(combRun, data, n < 2 ? 2 : n); }
PDYN(dynamic) PDYN(guided) PDYN(nonmonotonic_dynamic) PDYN(nonmonotonic_guided) PDYN(static)
#define PRT(NAME) void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, unsigned flags) { GOMP_parallel_loop_dynamic(fn, data, n, start, end, incr, 1, flags); }
PRT(runtime) PRT(nonmonotonic_runtime) PRT(maybe_nonmonotonic_runtime)
_Bool GOMP_single_start(void) {
    if (inRegion != 1) return 1;
    int first;
    point();
    struct Ws* w = nextWs(&first);
    (void) w;
    return first;
}
static void* copyData;
void* GOMP_single_copy_start(void) { if (GOMP_single_start()) return 0; GOMP_barrier(); return copyData; }
void GOMP_single_copy_end(void* d) { copyData = d; GOMP_barrier(); }
unsigned GOMP_sections_start(unsigned count) {
    long s, e;
    return dynStart(1, (long) count + 1, 1, 1, &s, &e) ? (unsigned) s : 0;
}
unsigned GOMP_sections_next(void) { long s, e; return dynNext(&s, &e) ? (unsigned) s : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned flags) {
    comb.start = 1; comb.end = (long) count + 1; comb.incr = 1; comb.chunk = 1; combFn = fn;
    if (!n) n = ompmc_team;
    region(combRun, data, n < 2 ? 2 : n);
}
void GOMP_ordered_start(void) { if (!trouble[0]) snprintf(trouble, sizeof trouble, "ordered constructs are not modelled"); }
void GOMP_ordered_end(void) {}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned flags) { region(fn, data, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned flags) { region(fn, data, n); return n ? n : ompmc_team; }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, _Bool iff, unsigned flags, void** dep, int prio, void* det) {
    if (cpy) {
        char buf[size + align];
        char* a = (char*) (((uintptr_t) buf + align - 1) & ~(uintptr_t) (align - 1));
        cpy(a, data);
        fn(a);
    } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

// ---------------------------------------------------------------- queries
int omp_get_num_threads(void) { return inRegion == 1 ? nth : 1; }
int omp_get_thread_num(void) { return inRegion == 1 ? cur : 0; }
int omp_get_max_threads(void) { return ompmc_team; }
int omp_get_num_procs(void) { return ompmc_team; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_in_parallel(void) { return inRegion != 0; }
int omp_get_level(void) { return inRegion != 0; }
void omp_set_num_threads(int n) { if (n > 0) ompmc_team = n; }
void omp_set_dynamic(int n) {}
void omp_set_nested(int n) {}
void omp_set_schedule(int a, int b) {}
void omp_set_max_active_levels(int n) {}
int omp_get_dynamic(void) { return 0; }
static double wt;
double omp_get_wtime(void) { return wt += 1e-3; }
double omp_get_wtick(void) { return 1e-9; }

void ompmc_reset(void) {
    race[0] = trouble[0] = 0;
    inRegion = 0;
    cur = 0;
    preempt = 0;
    deferFlush();
    ompmc_regions = ompmc_parallel = ompmc_accesses = ompmc_syncs = 0;
}
const char* ompmc_race(void) {
    if (!race[0]) return 0;
    for (int k = 0; k < 2; k++) { // where
        Dl_info d = {0};
        char cmd[300], line[300] = "";
        if (!racePc[k] || !dladdr(racePc[k], &d)) continue;
        char exe[200];
        long n = readlink("/proc/self/exe", exe, sizeof exe - 1);
        if (n <= 0) continue;
        exe[n] = 0;
        snprintf(cmd, sizeof cmd, "addr2line -i -s -e '%s' %#lx 2>/dev/null | grep -v '^??' | grep -v 'omp.cpp' | head -3 | tr '\\n' ' '", exe, (unsigned long) ((char*) racePc[k] - (char*) d.dli_fbase) - 1);
        FILE* f = popen(cmd, "r");
        if (f) { if (fgets(line, sizeof line, f)) line[strcspn(line, "\n")] = 0; pclose(f); }
        snprintf(race + strlen(race), sizeof race - strlen(race), "%s %s", k ? " and" : " at", line);
        racePc[k] = 0;
    }
    return race;
}
const char* ompmc_trouble(void) { return trouble[0] ? trouble : 0; }
