// Counts the threads a program starts and writes the number to the file THREADS_TO when it ends.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
static int started;
int pthread_create(pthread_t* restrict t, const pthread_attr_t* restrict a, void* (*f)(void*), void* restrict x) {
    int (*real)(pthread_t*, const pthread_attr_t*, void* (*) (void*), void*) = dlsym(RTLD_NEXT, "pthread_create");
    __atomic_add_fetch(&started, 1, __ATOMIC_SEQ_CST);
    return real(t, a, f, x);
}
__attribute__((destructor)) static void report(void) {
    const char* p = getenv("THREADS_TO");
    FILE* f = p ? fopen(p, "w") : NULL;
    if (f) { fprintf(f, "%d\n", started); fclose(f); }
}
