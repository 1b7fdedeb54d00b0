// A controlled OpenMP runtime: team threads are fibers, one runs at a time, every shared access is recorded.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
extern int ompmc_team;                       // team size of the next regions
extern unsigned ompmc_cells; // size of the access table, a power of two
extern int (*ompmc_choose)(int n);           // asked at scheduling points, 0 is the default
extern int ompmc_bound;                      // deviations from the default order per execution
extern long ompmc_regions, ompmc_parallel, ompmc_accesses, ompmc_syncs; // counters since ompmc_reset
void ompmc_reset(void);                      // before an execution
const char* ompmc_race(void);                // first data race found since the reset, or 0
const char* ompmc_trouble(void);             // deadlock or use of something the runtime does not model, or 0
void* ompmc_malloc(unsigned long n);
void ompmc_free(void* p);
#ifdef __cplusplus
}
#endif
