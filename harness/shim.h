// Control interface of the OpenMP runtime stand-in (shim.cpp). All functions are weak in harnesses so
// that a harness also links (with reduced schedule control) against the stock libgomp.
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum ShimPolicy { SHIM_INORDER=0, SHIM_RANDOM=1, SHIM_STARVE=2, SHIM_REVERSE=3, SHIM_PCT=4, SHIM_LIFO=5, SHIM_NPOL=6 };
// nthreads: team size for following regions; delay: a thread may run ahead of the slowest one by at
// most that many work-shares; quantum: mean number of observed memory accesses between preemptions
void shim_config(int nthreads, int policy, uint64_t seed, int delay, int quantum) __attribute__((weak));
// with on, regions that do not ask for a team size get a random one of at most nthreads
void shim_short(int on, uint64_t seed) __attribute__((weak));
// runs fn as if in a thread that the program made without OpenMP (called by a thread of a region)
void shim_foreign_call(void(*fn)(void*), void *arg) __attribute__((weak));
// race checking: 0 off, 1 strict (every conflict is a race), 2 asynchronous operation
void shim_race_mode(int mode) __attribute__((weak));
// register memory that nothing may write (returns nothing); clear all with shim_ro_clear
void shim_ro_add(const void *p, size_t len, const char *name) __attribute__((weak));
// 0: writes to registered memory are not reported, but conflicts on it always are races
void shim_ro_report(int on) __attribute__((weak));
// which monitors report: 1 writes to registered memory, 2 races
void shim_judge(int mask) __attribute__((weak));
int shim_ro_mark(void) __attribute__((weak));
void shim_ro_reset(int) __attribute__((weak));
void shim_ro_clear(void) __attribute__((weak));
// memory that instrumented code may write only inside [p,p+len): bytes outside of it, within
// [q,q+qlen), are registered read-only by the caller
// violations observed by the monitors since the last call (text is static storage); returns count
int shim_take_violations(const char **text) __attribute__((weak));
struct ShimStats {
	uint64_t regions, multi_regions, switches, accesses, region_accesses, atomics, workshares, chunks,
	         barriers, race_cells, conflicts_allowed, ro_checks, trace_hash, maxlead, short_teams;
};
void shim_stats(struct ShimStats *s) __attribute__((weak));
/* chunks of dynamically scheduled loops: number of the loop, thread, iteration space, and the range handed out */
struct ShimChunk { long loop; int tid; long start,end,incr,lo,hi; };
void shim_log_chunks(int on) __attribute__((weak));
int shim_get_chunks(const struct ShimChunk **p) __attribute__((weak));
void shim_reset_trace(void) __attribute__((weak));
int shim_has_hooks(void) __attribute__((weak));
#ifdef __cplusplus
}
#endif
#endif
