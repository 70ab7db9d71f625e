/* Reference model of the API contract: the set of live allocations, who owns
 * them and which bytes they must hold. Nothing here looks inside the allocator. */
#pragma once
#include "mc.h"

#define MAXLIVE 9000
typedef struct {
    uint8_t *p;
    size_t req, use; /* requested and reported usable size */
    uint32_t pat;
    int zone;        /* -1: general, otherwise index into zt */
    int tag;         /* free for the check */
} blk_t;
typedef struct {
    void *h;
    size_t csz;
    size_t promised;
    uintptr_t lo, hi; /* extent of chunks seen so far */
    bool live;
} mz_t;
static blk_t live[MAXLIVE] __attribute__((unused));
static int nlive __attribute__((unused));
static mz_t zt[64] __attribute__((unused));
static int nzt __attribute__((unused));
static uint32_t m_pat __attribute__((unused));
static uint8_t *m_zero __attribute__((unused)); /* zero-size placeholder once seen */

#define RW (PROT_READ | PROT_WRITE)
#define HEAD 160UL

static inline uint8_t m_byte(uint32_t pat, size_t off) {
    uint32_t x = (uint32_t) off * 2654435761u + pat * 40503u;
    return (uint8_t) ((x >> 13) ^ (x >> 24)) | 1;
}
/* The first and last HEAD bytes plus the words around every page boundary */
static inline void m_spans(size_t n, void (*f)(blk_t *, size_t, size_t), blk_t *b) {
    if(n <= 2 * HEAD) { f(b, 0, n); return; }
    f(b, 0, HEAD);
    if(n <= (1UL << 20))
        for(size_t o = PAGE; o + 16 < n - HEAD; o += PAGE) if(o > HEAD + 16) f(b, o - 16, o + 16);
    f(b, n - HEAD, n);
}
static void m_fill_span(blk_t *b, size_t s, size_t e) { for(size_t i = s; i < e; i++) b->p[i] = m_byte(b->pat, i); }
static void m_chk_span(blk_t *b, size_t s, size_t e) {
    for(size_t i = s; i < e; i++)
        if(b->p[i] != m_byte(b->pat, i))
            mc_fail("live allocation %p (%zu bytes requested, %zu usable) changed at offset %zu: %#x instead of %#x", (void *) b->p, b->req, b->use, i, b->p[i], m_byte(b->pat, i));
}
static inline void m_fill(blk_t *b) { b->pat = ++m_pat; m_spans(b->use, m_fill_span, b); }
static inline void m_check(blk_t *b) { m_spans(b->use, m_chk_span, b); }
static inline void m_check_all(void) { for(int i = 0; i < nlive; i++) m_check(&live[i]); }

/* Registers a fresh allocation; checks everything the contract says about it */
static inline blk_t *m_add_nofill(void *vp, size_t req, int zone) {
    uint8_t *p = vp;
    if(p == NULL) mc_fail("request for %zu bytes returned NULL", req);
    if((uintptr_t) p & 7) mc_fail("request for %zu bytes returned %p, which is not 8-byte aligned", req, vp);
    size_t use = iso_chunksz(p);
    if(use < req) mc_fail("request for %zu bytes returned %p of usable size %zu", req, vp, use);
    if(!env_all((uintptr_t) p, use ? use : req, RW)) mc_fail("request for %zu bytes returned %p, whose %zu usable bytes are not all mapped readable and writable", req, vp, use);
    for(int i = 0; i < nlive; i++)
        if(p < live[i].p + live[i].use && live[i].p < p + use)
            mc_fail("request for %zu bytes returned %p..+%zu, overlapping live allocation %p..+%zu", req, vp, use, (void *) live[i].p, live[i].use);
    if(nlive >= MAXLIVE) mc_fail("harness: too many live allocations");
    blk_t *b = &live[nlive++];
    *b = (blk_t){p, req, use, 0, zone, 0};
    mc_eval(1);
    return b;
}
static inline blk_t *m_add(void *p, size_t req, int zone) {
    blk_t *b = m_add_nofill(p, req, zone);
    m_fill(b);
    return b;
}
/* Takes an allocation out of the live set after checking its bytes; the caller frees it */
static inline blk_t m_take(int i) {
    blk_t b = live[i];
    m_check(&b);
    memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t));
    nlive--;
    return b;
}
static inline int m_find(const void *p) {
    for(int i = 0; i < nlive; i++) if(live[i].p == p) return i;
    return -1;
}
/* A coarse key of the state reached, to count distinct outcomes */
static inline void m_outcome(void) {
    uint64_t k = nlive * 1000003u + env.n_mmap * 7919u + env.n_munmap * 104729u + env.n_mprotect;
    for(int i = 0; i < nlive; i++) k = k * 1099511628211u ^ live[i].use ^ ((uintptr_t) live[i].p >> 3);
    mc_nontrivial(k);
}
/* Everything can still be released, the heap verifies and is usable afterwards */
static inline void m_audit(void) {
    m_outcome();
    m_check_all();
    iso_verify_zones();
    while(nlive) {
        blk_t b = m_take(nlive & 1 ? nlive - 1 : 0);
        if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p);
    }
    iso_flush_caches();
    iso_verify_zones();
    static const size_t sz[] = {1, 64, 1000, 8192, 65536, 65537, 200000};
    for(unsigned i = 0; i < sizeof sz / sizeof *sz; i++) m_add(iso_alloc(sz[i]), sz[i], -1);
    m_check_all();
    while(nlive) iso_free(m_take(0).p);
    iso_flush_caches();
    iso_verify_zones();
}

/* Common start states: fresh, or aged (holes in several zones, delayed frees
 * pending, recycled big allocations) under each placement policy */
static void (*m_pre)(void) __attribute__((unused)), (*m_post)(void) __attribute__((unused)); /* before anything is mapped, and after the start */
static inline void m_start(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    env.madv_drop = (v & 3) == 2;
    env.huge = (v & 3) == 1;
    if(m_pre) m_pre();
    iso_alloc_initialize();
    if(m_post) m_post();
    if(((v & 3) == 0 && !(v & 4)) || (v & 8)) return; /* fresh */
    static const size_t sz[] = {24, 64, 100, 500, 1024, 1500, 4000, 8192, 9000, 20000, 40000, 65536, 65537, 150000, 24, 64, 1024, 8192, 70000};
    for(int r = 0; r < 2; r++)
        for(unsigned i = 0; i < sizeof sz / sizeof *sz; i++) m_add(iso_alloc(sz[i]), sz[i], -1);
    for(int i = nlive - 1; i >= 0; i -= 2) { blk_t b = m_take(i); if(i & 2) iso_free(b.p); else iso_free_size(b.p, b.req); }
    iso_flush_caches();
    for(int i = nlive - 1; i >= 0; i -= 3) { blk_t b = m_take(i); iso_free(b.p); }
}
/* Big sizes worth distinguishing: every page count to 64 pages past the limit, and
 * around every power of two up to the maximum */
static inline int m_bigsizes(size_t *o) {
    int n = 0;
    for(size_t k = 0; k < 64; k++) { o[n++] = 65537 + k * PAGE; o[n++] = 65536 + (k + 1) * PAGE; if(k % 8 == 0) o[n++] = 65536 + k * PAGE + 2048 + k; }
    for(int b = 17; b <= 32; b++) {
        size_t x = 1UL << b;
        size_t c[] = {x - 8193, x - 8192, x - 8191, x - 4097, x - 4096, x - 4095, x - 1, x, x + 1, x + 4095, x + 4096};
        for(int i = 0; i < 11; i++) if(c[i] > 65536 && c[i] <= 1UL << 32) o[n++] = c[i];
    }
    return n;
}
static inline int m_hugesizes(size_t *o) { /* must never succeed */
    int n = 0;
    for(size_t k = 1; k <= 64; k++) { o[n++] = (1UL << 32) + k; o[n++] = SIZE_MAX - (k - 1); }
    for(size_t k = 1; k <= 40; k++) { o[n++] = (1UL << 32) + k * 1000; o[n++] = SIZE_MAX - k * 410; o[n++] = SIZE_MAX - PAGE * k + (k & 1); }
    for(int b = 33; b < 64; b++) { o[n++] = 1UL << b; o[n++] = (1UL << b) + 1; o[n++] = (1UL << b) - 1; o[n++] = (1UL << b) + 64; }
    return n;
}
