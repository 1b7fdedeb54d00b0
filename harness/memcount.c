// Counts the bytes a program has allocated and not freed. When the program ends, the lowest count at any of the last quarter of
// its allocations (what it keeps while it works, without what it needs for a moment or needed for reading the input) is
// written to the file MEMCOUNT_TO. Open files are limited to MEMCOUNT_FILES.
#define _GNU_SOURCE
#include <errno.h>
#include <malloc.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void*, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void*);
enum { MOST = 1 << 23 };
static long live, counts[MOST];
static int calls, busy;
static void add(long d) {
    while (__atomic_exchange_n(&busy, 1, __ATOMIC_ACQUIRE)) {}
    live += d;
    if (d > 0) counts[calls++ % MOST] = live;
    __atomic_store_n(&busy, 0, __ATOMIC_RELEASE);
}
static void* in(void* p) {
    if (p) add((long) malloc_usable_size(p));
    return p;
}
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void free(void* p) {
    if (p) add(-(long) malloc_usable_size(p));
    __libc_free(p);
}
void* realloc(void* p, size_t n) {
    long old = p ? (long) malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (q || !n) add(-old);
    return in(q);
}
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) {
    void* q = memalign(a, n);
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
__attribute__((constructor)) static void limit(void) {
    const char* f = getenv("MEMCOUNT_FILES");
    struct rlimit r;
    if (f && getrlimit(RLIMIT_NOFILE, &r) == 0) {
        r.rlim_cur = r.rlim_max = (rlim_t) atol(f);
        setrlimit(RLIMIT_NOFILE, &r);
    }
}
__attribute__((destructor)) static void report(void) {
    int n = calls, back = n / 4 < MOST ? n / 4 : MOST;
    long p = live;
    for (int i = n - back; i < n; i++)
        if (i == n - back || counts[i % MOST] < p) p = counts[i % MOST];
    const char* t = getenv("MEMCOUNT_TO");
    FILE* f = t ? fopen(t, "w") : NULL;
    if (f) { fprintf(f, "%ld\n", p); fclose(f); }
}
