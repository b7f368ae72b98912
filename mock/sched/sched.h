// Deterministic scheduler behind the stand-in TBB: every task runs on a real thread, but only the
// thread that holds the token runs, and the token moves only at points chosen from a seed.
// This translation unit is compiled without any instrumentation, and it hands the token over with
// raw futex calls, so that a race detector sees no happens-before edges other than those of the
// fork-join structure (which the stand-in headers express with atomics of their own).
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct ms_group { long pending; };
struct ms_task { void (*run)(struct ms_task*); struct ms_group *group; };
struct ms_stats { long tasks, regions, switches, preemptions, on_workers; };
// begin/end of one scheduled execution; mean_interval: mean number of basic blocks between preemptions (0: none)
void ms_begin(uint64_t seed, int workers, long mean_interval, long max_preemptions);
void ms_end(void);
void ms_set_limit(int limit);                 // 0: none
int ms_workers(void);
int ms_slot(void);                            // 0: the thread that called ms_begin (or a foreign thread)
uint64_t ms_random(uint64_t below);           // uniform in [0, below)
void ms_spawn(struct ms_task *t);             // counts the task as pending in its group
void ms_task_done(struct ms_group *g);
void ms_wait(struct ms_group *g);
void ms_point(int one_in);                    // optional scheduling point
void ms_get_stats(struct ms_stats *s);
void *ms_arena(unsigned long bytes);          // zeroed memory that is never reused
#ifdef __cplusplus
}
#endif
