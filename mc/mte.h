/* A model of ARM's memory tagging: one tag per 16 bytes of memory mapped for it */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
typedef struct {
    bool present;      /* the hardware has it */
    int policy;        /* the tags it draws: 0 in turn, 1 any, 2 always the least allowed, 3 the last one again if allowed */
    long draws;        /* tags drawn so far */
    long sets;         /* granules tagged */
    long accesses, traps;
} mte_t;
extern mte_t mte;
void mte_start(void);                              /* after env_reset */
bool mte_on(void);                                 /* tags are checked for this thread */
int mte_tag(uintptr_t a);                          /* tag of the granule at a; -1: not memory with tags */
long mte_drawn(uintptr_t a);                       /* number of the draw that gave the granule its tag; 0: none */
bool mte_ok(const void *p, size_t n);              /* an access of n bytes at p passes */
#define UNTAG(p) ((void *) ((uintptr_t) (p) & ((1UL << 56) - 1)))
#define TAGOF(p) ((int) ((uintptr_t) (p) >> 56))
