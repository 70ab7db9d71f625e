/* Link-time environment for the allocator under test: every request it makes to
 * the kernel passes through here, is recorded in a shadow page table, and its
 * outcome (placement, failure, random value) is a choice of the explorer. */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/mman.h>
#include <sys/types.h>

#define PAGE 4096UL
enum { PL_SPREAD, PL_PACKED, PL_DOWN, PL_REUSE, PL_KERNEL, PL_NUM };
enum { RM_PASS, RM_CONST, RM_ALT, RM_ALT0, RM_COUNT, RM_HIT, RM_HITALT };
enum { FK_MMAP = 1, FK_MPROTECT = 2, FK_GETRANDOM = 4, FK_MUNMAP = 8, FK_MADVISE = 16, FK_MLOCK = 32, FK_PRCTL = 64 };

typedef struct { uintptr_t s, e; int prot; } seg_t;
#define MAXSEG 16384

typedef struct {
    int policy;
    bool madv_drop;            /* MADV_FREE / DONTNEED discard at once */
    int rmode;                 /* us_rand decisions */
    uint64_t rconst;
    uint64_t rcount;
    uint64_t rnd_state;        /* getrandom stream */
    int gmode;                 /* getrandom: 0 stream, 1 constant */
    uint64_t gconst;
    long g_flip_at; uint64_t g_flip; /* this request for entropy (counted from 1) is answered differently */
    int huge;                   /* huge pages are to be had */
    void (*on_hint)(uintptr_t hint, size_t len); /* where the allocator asks for memory */
    int fail_mask, fail_sticky;
    long fail_at;              /* 1 = next matching call fails; 0 = off */
    long fail_calls;           /* matching calls seen */
    long fails;                /* failures delivered */
    long n_mmap, n_munmap, n_mprotect, n_madvise, n_getrandom;
    long bad_munmap;           /* munmap calls the kernel refused */
    size_t mapped_bytes;
    bool mte; unsigned long tagged_ctrl; void (*on_tags)(int kind, uintptr_t a, size_t n); /* hardware with memory tagging: see mte.c */
    bool verbose;
    bool record_prot;
    void (*on_event)(int kind, uintptr_t a, size_t len, int prot);
    void (*on_sys)(int kind, uintptr_t a, size_t len, long arg, int prot, const char *name); /* every request granted, with its flags, advice or name */
    char *capture; size_t capture_n, capture_max; /* what the allocator writes to files, if asked for */
    ssize_t (*on_write)(int fd, const void *b, size_t n); /* the outcome of writing to the standard descriptors */
    void (*on_abort)(void);    /* judges the memory the allocator leaves when it ends the process */
} env_t;
extern env_t env;
extern seg_t segs[];
extern int nsegs;
extern char env_msg[512];

void env_reset(int policy);
int env_prot(uintptr_t a);                 /* -1: not mapped by the allocator */
bool env_all(uintptr_t a, size_t n, int prot); /* whole range has exactly prot */
const seg_t *env_seg(uintptr_t a);         /* segment (same prot) holding a */
bool env_check_maps(char *why, size_t n);  /* shadow agrees with the kernel */
void *real_mmap(void *a, size_t l, int p, int f, int fd, off_t o);
int real_munmap(void *a, size_t l);
int real_mprotect(void *a, size_t l, int p);
ssize_t real_write(int fd, const void *b, size_t n);
