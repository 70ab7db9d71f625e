/* Controlled scheduler and happens-before checker for instrumented builds.
 * The allocator is compiled with -fsanitize=thread, but the runtime is ours: every
 * memory access and lock operation of the allocator passes through mcsched.c. */
#pragma once
#include "mc.h"
#define SCH_MAXT 4
#define SCH_MAXOP 6
typedef struct { const char *name; void (*fn)(int t, int arg); int arg; } sop_t;
typedef struct { const sop_t *op[SCH_MAXOP]; int n; } sthread_t;
extern sthread_t sch_prog[SCH_MAXT];
extern int sch_nt;
extern bool sch_report_races;   /* races are violations (otherwise only counted) */
/* explores every schedule of sch_prog with at most `bound` preemptions, each in a
 * throw-away copy of the current state; fin runs after all threads ended */
void sch_explore(int bound, void (*fin)(void));
void sch_post(int ch);          /* harness-level hand over from one thread to another */
void sch_wait(int ch);
void sch_write(const void *p, size_t n); /* the harness itself touches shared bytes */
void sch_read(const void *p, size_t n);
void sch_point(void);           /* explicit scheduling point */
bool sch_active(void);
int sch_self(void);
