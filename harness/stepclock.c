// A clock under control: every reading is a fixed amount later than the one before (STEPCLOCK seconds).
#define _GNU_SOURCE
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
static long long now_ns = 1700000000000000000LL, inc_ns = -1;
static long long tick(void) {
    if (inc_ns < 0) { const char* s = getenv("STEPCLOCK"); inc_ns = s ? (long long) (atof(s) * 1e9) : 0; }
    return now_ns += inc_ns;
}
int clock_gettime(clockid_t c, struct timespec* t) { (void) c; long long n = tick(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int gettimeofday(struct timeval* restrict t, void* restrict z) { (void) z; long long n = tick(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
time_t time(time_t* p) { time_t s = tick() / 1000000000; if (p) *p = s; return s; }
