/* Exploration engines shared by all checks */
#pragma once
#include "env.h"
#include <assert.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
/* without its attributes: the compiler must not assume what is being checked */
#define __attribute__(x)
#include "iso_alloc.h"
#undef __attribute__
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#define EX_ABORT 86
#define EX_VIOL 87

typedef struct {
    const char *name;
    bool (*enabled)(int arg);   /* may be NULL */
    void (*run)(int arg);
    int arg;
} op_t;

typedef struct {
    const char *name;
    void (*init)(int variant);  /* build the start state (in a fresh process) */
    int variants;               /* number of start states / environment policies */
    const op_t *ops; int nops;
    void (*node)(void);         /* invariant evaluated in every state */
    void (*leaf)(void);         /* evaluated (in a throw-away copy) at every node */
    int depth_quick, depth_thorough;
} seq_t;

typedef struct {
    const char *name;
    void (*init)(int variant);
    int variants;
    long (*count)(int variant); /* number of items (after init) */
    void (*item)(long i);       /* run in a throw-away copy of the start state */
    int quick_stride;           /* 1: every item also in quick tier; n: stride handled by count() */
} dom_t;

typedef struct {
    const char *kind; const void *p;
} scen_t;

extern bool mc_thorough;
extern int mc_variant;
extern char mc_trace[2048];

void mc_note(const char *fmt, ...);             /* appended to the trace of this execution */
void mc_fail(const char *fmt, ...) __attribute__((noreturn));
void mc_eval(long n);                           /* property instances evaluated */
void mc_nontrivial(uint64_t key);               /* distinct non-trivial outcome */
void mc_known(const char *id, const char *fmt, ...); /* a deviation that may be a listed finding */
void mc_sample(const char *fmt, ...);

/* Runs fn(arg) in a throw-away copy; returns wait status class */
enum { D_OK = 0, D_ABORT, D_SIGNAL, D_VIOL, D_OTHER };
int mc_death(void (*fn)(void *), void *arg);
extern int mc_death_status;
extern bool mc_doomed;            /* from here on the process has to end; its end is the expected outcome */
void mc_doom(void);

#define MC_SEQ(s) {"seq", &s}
#define MC_DOM(d) {"dom", &d}
int mc_main(int argc, char **argv, const scen_t *scens, int nscens);
