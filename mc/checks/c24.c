/* C24: start-up and tear-down */
#include "../mm.h"
#include <stdio.h>
#include <unistd.h>
#ifndef ISO_DTOR_CLEANUP
#define ISO_DTOR_CLEANUP 0
#endif
#ifndef AUTO_CTOR_DTOR
#define AUTO_CTOR_DTOR 0
#endif
extern void *_root;
static bool up;
static int downs, inits;
static uintptr_t zero0;

static void begin(int v) {
    static const int pol[] = {PL_SPREAD, PL_REUSE, PL_PACKED, PL_DOWN};
#if AUTO_CTOR_DTOR
    /* as before the constructor ran: no root, nothing mapped */
    for(int i = 0; i < nsegs; i++) real_munmap((void *) segs[i].s, segs[i].e - segs[i].s);
    _root = NULL;
#if ALLOC_SANITY
    extern uint64_t _sanity_canary; _sanity_canary = 0;
#endif
#endif
    env_reset(pol[v & 3]);
#if ALLOC_SANITY || UAF_PTR_PAGE || HEAP_PROFILER
    env.rmode = v & 1 ? RM_HITALT : RM_HIT;
#endif
    up = false; downs = inits = 0;
}
/* ---- what the start-up guarantees, checked whenever the heap is up */
static void guarantees(void) {
    mc_eval(1);
#ifndef NO_ZERO_OFF
    uint8_t *z = iso_alloc(0);
    if(z == NULL || env_prot((uintptr_t) z) != PROT_NONE) mc_fail("a request for 0 bytes returned %p of protection %d", (void *) z, env_prot((uintptr_t) z));
    if(iso_chunksz(z) != 0) mc_fail("the zero size placeholder has a size");
    if(zero0 && (uintptr_t) z != zero0) mc_fail("the zero size placeholder moved");
    zero0 = (uintptr_t) z;
    iso_free(z);
    if((iso_calloc(0, 5) != z && iso_calloc(0, 5)) || iso_calloc(5, 0) != z) mc_fail("calloc of nothing returned something else");
#endif
#if ALLOC_SANITY
    extern uint64_t _sanity_canary;
    if((_sanity_canary & ~0xffUL) == 0) mc_fail("the canary of sampled allocations was never set");
#endif
}
static const size_t A[] = {24, 1500, 8192, 70000};
static void came_up(void) { up = true; zero0 = 0; }
static void o_init(int k) { (void) k; long m = env.n_mmap; bool was = up; iso_alloc_initialize(); if(was && env.n_mmap != m) mc_fail("initializing a running heap mapped memory"); if(!up) { came_up(); inits++; } guarantees(); m_check_all(); }
static bool can(int k) { (void) k; return up || (AUTO_CTOR_DTOR && inits + downs == 0); }
static bool run(int k) { (void) k; return up; }
static void o_alloc(int k) { if(!up) came_up(); uint8_t *p = iso_alloc(A[k]); m_add(p, A[k], -1); guarantees(); }
static void o_calloc(int k) { if(!up) came_up(); uint8_t *p = iso_calloc(2, A[k] / 2); if(p) for(size_t i = 0; i < A[k]; i++) if(p[i]) mc_fail("iso_calloc memory is not zero"); m_add(p, A[k], -1); guarantees(); }
static void o_realloc(int k) { if(!up) came_up(); m_add(iso_realloc(NULL, A[k]), A[k], -1); guarantees(); }
static void o_zero(int k) {
    if(!up) came_up();
    uint8_t *p = k == 0 ? iso_alloc(0) : k == 1 ? iso_calloc(8, 0) : iso_realloc(NULL, 0);
    if(k < 2 && (p == NULL || env_prot((uintptr_t) p) != PROT_NONE)) mc_fail("the first request, for 0 bytes, returned %p of protection %d", (void *) p, env_prot((uintptr_t) p));
    guarantees();
}
static void o_strdup(int k) { (void) k; if(!up) came_up(); char *s = iso_strdup("0123456789"); if(!s || strcmp(s, "0123456789")) mc_fail("iso_strdup is wrong"); m_add(s, 11, -1); guarantees(); }
static bool f_en(int k) { return up && nlive > (k & 1); }
static void o_free(int k) { blk_t b = m_take(nlive - 1 - (k & 1)); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else if(k & 2) iso_free_size(b.p, b.req); else iso_free(b.p); guarantees(); }
static void o_zone(int k) { (void) k; if(nzt > 8) return; zt[nzt] = (mz_t){iso_alloc_new_zone(256), 256, 0, 0, 0, true}; m_add(iso_alloc_from_zone(zt[nzt].h), 256, nzt); nzt++; }
static void o_churn(int k) { (void) k; for(int i = 0; i < 600; i++) { void *p = iso_alloc(8192); iso_free_size(p, 8192); } guarantees(); }
static bool d_en(int k) { (void) k; return up && (ISO_DTOR_CLEANUP || downs == 0); }
static void o_destroy(int k) {
    (void) k;
#if ALLOC_SANITY
    while(nlive) { blk_t b = m_take(0); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p); } /* sampled pages belong to the caller */
#endif
    m_check_all();
    iso_alloc_destroy();
    up = false; downs++;
    mc_eval(1);
#if ISO_DTOR_CLEANUP
    if(nsegs) {
        for(int i = 0; i < nsegs; i++) mc_note(" %p..%p prot %d;", (void *) segs[i].s, (void *) segs[i].e, segs[i].prot);
        mc_fail("after the destruction %d mappings (%zu bytes) remain", nsegs, env.mapped_bytes);
    }
    if(env.bad_munmap) mc_fail("the destruction unmapped an invalid range");
    nlive = 0; nzt = 0;
#else
    /* zones stay, other destructors may still look at them */
    for(int i = 0; i < nlive; i++) if(live[i].use <= 65536) m_check(&live[i]);
#endif
}
static const op_t ops[] = {
    {"initialize", NULL, o_init, 0}, {"alloc", can, o_alloc, 0}, {"alloc", can, o_alloc, 2}, {"alloc", can, o_alloc, 3}, {"calloc", can, o_calloc, 1}, {"realloc", can, o_realloc, 1},
    {"zero", can, o_zero, 0}, {"zero", can, o_zero, 1}, {"strdup", can, o_strdup, 0},
    {"free", f_en, o_free, 0}, {"free", f_en, o_free, 1}, {"freesize", f_en, o_free, 2}, {"zone", run, o_zone, 0}, {"churn", run, o_churn, 0}, {"destroy", d_en, o_destroy, 0},
};
static bool i_en(int k) { (void) k; return ISO_DTOR_CLEANUP || downs == 0; }
static op_t ops2[sizeof ops / sizeof *ops];
static void leaf(void) {
    if(!up && (ISO_DTOR_CLEANUP || downs == 0)) o_init(0);
    if(up) {
        m_audit();
        for(unsigned i = 0; i < 4; i++) m_add(iso_alloc(A[i]), A[i], -1);
        o_zone(0); o_free(0);
        o_destroy(0);
        if(ISO_DTOR_CLEANUP) { o_init(0); m_audit(); }
    }
    m_outcome();
}
static const seq_t life = {"life", begin, 4, ops2, sizeof ops / sizeof *ops, NULL, leaf, 4, 5};

/* ---- the destruction verifies the heap: damage done before ends the process */
static void damage(void *x) {
    intptr_t k = (intptr_t) x;
    int kind = k % 8;
    if(k / 8 % 2) { for(int i = 0; i < 300; i++) { void *p = iso_alloc(8192); iso_free_size(p, 8192); } }
    static const size_t sz[] = {32, 256, 2048, 8192};
    size_t n = sz[k / 16 % 4];
    uint8_t *p = iso_alloc(n), *q = iso_alloc(n), *b = iso_alloc(80000); (void) q;
    size_t u = iso_chunksz(p);
    switch(kind) {
    case 0: iso_free_size(p, n); p[0] ^= 1; break;              /* freed chunk, first canary */
    case 1: iso_free_size(p, n); p[u - 1] ^= 0x80; break;       /* its last byte */
    case 2: iso_free_permanently(p); p[7] ^= 4; break;
    case 3: iso_free(p); iso_free_size(q, n); iso_free(p); break; /* freed twice, still delayed */
    case 4: iso_free(p + 1); break;                             /* invalid, still delayed */
    case 5: iso_free(b + 4096); break;
    case 6: iso_free_size(p, n); iso_free(p); break;
    case 7: { void *z = iso_alloc_new_zone(n); uint8_t *c = iso_alloc_from_zone(z); iso_free_from_zone_permanently(c, z); c[0] ^= 0x10; break; }
    }
    mc_eval(1);
    iso_alloc_destroy();
}
static long dcount(int v) { (void) v; return 8 * 2 * 4; }
static void ditem(long k) {
    begin(k & 3); iso_alloc_initialize();
    mc_note("damage %ld", k);
    int r = mc_death(damage, (void *) k);
    if(r != D_ABORT) mc_fail("damage %ld of chunks of %ld bytes is not noticed by the destruction (outcome %d)", k % 8, k / 16 % 4, r);
    mc_nontrivial(k);
}
static void dinit(int v) { begin(v); }
static const dom_t dmg = {"damage", dinit, 1, dcount, ditem, 1};
static const scen_t sc[] = {MC_SEQ(life), MC_DOM(dmg)};
int main(int c, char **v) {
    memcpy(ops2, ops, sizeof ops); ops2[0].enabled = i_en;
    setenv("ISO_ALLOC_PROFILER_FILE_PATH", "/dev/null", 1);
    int r = mc_main(c, v, sc, 2);
    fflush(NULL);
    _exit(r);
}
