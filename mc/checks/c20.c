/* C20: sampled allocations. The sampling decision and the alignment of the sample are
 * choices of the explorer (env.rmode); a sample is recognised from outside: a page of its own. */
#include "../mm.h"
#ifndef ISOALLOC_MC_MAX_SANE_SAMPLES
#define LIM 1024
#else
#define LIM ISOALLOC_MC_MAX_SANE_SAMPLES
#endif
#define PG(p) ((uintptr_t) (p) & ~(PAGE - 1))
enum { MISS, RIGHT, LEFT };
static void decide(int d) {
    if(d == MISS) { env.rmode = RM_CONST; env.rconst = 0; }
    else if(d == RIGHT) env.rmode = RM_HIT;
    else { env.rmode = RM_HITALT; env.rcount |= 1; env.rcount++; }
}
static void undecide(void) { env.rmode = RM_PASS; }
static bool alone(const uint8_t *p) { const seg_t *s = env_seg((uintptr_t) p); return s && s->prot == RW && s->e - s->s == PAGE; }
static int nsampled(void) { int n = 0; for(int i = 0; i < nlive; i++) n += live[i].tag; return n; }
static void fenced(blk_t *b) {
    mc_eval(1);
    uintptr_t s = PG(b->p);
    if(!alone(b->p)) mc_fail("sampled allocation %p does not have a page of its own", (void *) b->p);
    if(env_prot(s - 1) != PROT_NONE || env_prot(s + PAGE) != PROT_NONE) mc_fail("the pages around the sampled allocation %p are accessible", (void *) b->p);
    if(iso_chunksz(b->p) != b->use) mc_fail("sampled allocation %p changed its usable size from %zu to %zu", (void *) b->p, b->use, iso_chunksz(b->p));
    if(b->p + b->use > (uint8_t *) s + PAGE) mc_fail("sampled allocation %p of %zu usable bytes reaches past its page", (void *) b->p, b->use);
    if(b->p != (uint8_t *) s && b->p + b->use != (uint8_t *) s + PAGE) mc_fail("sampled allocation %p of %zu usable bytes touches neither fence", (void *) b->p, b->use);
}
/* registers an allocation made under decision d */
static int held; /* samples in use that are not listed as live */
static void got(void *p, size_t n, int d, int z) {
    int before = nsampled() + held;
    undecide();
    blk_t *b = m_add(p, n, z);
    b->tag = alone(p);
    if(b->tag && (d == MISS || z >= 0)) mc_fail("%s of %zu bytes was sampled", z >= 0 ? "allocation from a private zone" : "an allocation not selected for sampling", n);
    if(!b->tag && d != MISS && z < 0 && n <= PAGE - 32 && before < LIM) mc_fail("allocation of %zu bytes selected for sampling with %d of %d samples in use was not sampled", n, before, LIM);
    if(b->tag) {
        fenced(b);
        if(d == RIGHT && b->p + b->use != (uint8_t *) PG(b->p) + PAGE) mc_fail("sample of %zu bytes is not at the end of its page", n);
        if(d == LEFT && b->p != (uint8_t *) PG(b->p)) mc_fail("sample of %zu bytes is not at the start of its page", n);
    }
}
enum { F_FREE, F_SIZE, F_PERM, F_REALLOC, F_REALLOC0, F_NUM };
static void release(blk_t b, int f, int d) {
    decide(d);
    uint8_t *r = NULL; size_t rn = 0;
    switch(f) {
    case F_FREE: iso_free(b.p); break;
    case F_SIZE: iso_free_size(b.p, b.req); break;
    case F_PERM: iso_free_permanently(b.p); break;
    case F_REALLOC: rn = b.req > 2000 ? 40 : b.req * 2 + 60; r = iso_realloc(b.p, rn); break;
    case F_REALLOC0: (void) iso_realloc(b.p, 0); break;
    }
    undecide();
    if(b.tag) for(int o = -1; o <= 1; o++) if(env_prot(PG(b.p) + o * PAGE) != -1 && !(r && PG(r) >= PG(b.p) - PAGE && PG(r) <= PG(b.p) + PAGE)) mc_fail("page %d of the freed sample %p is still mapped", o, (void *) b.p);
    if(f == F_REALLOC) {
        if(!r) mc_fail("realloc of %zu to %zu bytes failed", b.req, rn);
        size_t k = rn < b.use ? rn : b.use;
        for(size_t i = 0; i < k; i++) if(r[i] != m_byte(b.pat, i) && (i < HEAD || i >= b.use - HEAD)) mc_fail("realloc of %zu to %zu bytes lost byte %zu", b.req, rn, i);
        held = b.tag; got(r, rn, d, -1); held = 0;
    }
}
/* ---- every size */
static void sinit(int v) { env_reset(v & 1 ? PL_PACKED : PL_SPREAD); iso_alloc_initialize(); }
static long scount(int v) { (void) v; return 4100; }
typedef struct { blk_t b; int f; uintptr_t a; } hit_t;
static void corrupt(void *x) { hit_t *h = x; *(uint8_t *) h->a ^= 0x41; release(h->b, h->f, MISS); }
static void corrupt1(void *x) { hit_t *h = x; *(uint8_t *) h->a ^= 0x01; release(h->b, h->f, MISS); }
static void touch(void *x) { *(volatile uint8_t *) x = 1; }
static void rd(void *x) { (void) *(volatile uint8_t *) x; }
static void bad(blk_t b, uintptr_t a, int f) {
    hit_t h = {b, f, a};
    if(mc_death(f & 1 ? corrupt1 : corrupt, &h) != D_ABORT) mc_fail("a change to byte %ld of the page of a sampled allocation of %zu bytes at offset %lu is not detected by freeing call %d", (long) (a - PG(b.p)), b.use, (unsigned long) (b.p - (uint8_t *) PG(b.p)), f);
    mc_eval(1);
}
static void sitem(long n) {
    for(int d = RIGHT; d <= LEFT; d++) {
        mc_note("%ld bytes %s ", n, d == RIGHT ? "right" : "left");
        if(n == 0) { decide(d); void *z = iso_alloc(0); undecide(); if(env_prot((uintptr_t) z) != PROT_NONE) mc_fail("a request of zero bytes returned usable memory"); iso_free(z); continue; }
        for(int f = 0; f < F_NUM; f++) {
            decide(d); void *p = iso_alloc(n); got(p, n, d, -1);
            blk_t b = m_take(nlive - 1);
            memset(b.p, 0x5a, b.use); m_fill(&b); m_check(&b);
            if(!b.tag) { release(b, f, MISS); while(nlive) { blk_t c = m_take(0); release(c, F_FREE, MISS); } continue; }
            uintptr_t s = PG(b.p);
            if(f == F_FREE) { /* the fence */
                if(mc_death(rd, (void *) (s - 1)) != D_SIGNAL || mc_death(touch, (void *) (s + PAGE)) != D_SIGNAL) mc_fail("access past the page of a sample does not fault");
            }
            /* the slack: edges always; every byte where selected */
            uintptr_t lo = b.p == (uint8_t *) s ? s + b.use : s, hi = b.p == (uint8_t *) s ? s + PAGE : (uintptr_t) b.p;
            bool all = n % 32 == 0 && (mc_thorough || n == 32 || n == 1056 || n == 4064 || n == 2048) && f < 2;
            if(n % 32 == 0 || n % 32 == 1 || f == 0) for(uintptr_t a = lo; a < hi; a++)
                if((n % 8 == 0 && (a < lo + 9 || a + 9 >= hi)) || a == lo || a + 1 == hi || (all && (mc_thorough || (a - lo) % 7 == 0 || n == 32 || n == 4064 ))) bad(b, a, f);
            release(b, f, MISS);
            if(f == F_FREE) { if(mc_death(rd, b.p) != D_SIGNAL) mc_fail("a freed sample can be read"); }
            while(nlive) { blk_t c = m_take(0); release(c, F_FREE, MISS); }
        }
        /* calloc, strdup and friends */
        decide(d); uint8_t *p = iso_calloc(1, n); undecide();
        for(long i = 0; i < n; i++) if(p[i]) mc_fail("byte %ld of calloc(1, %ld) is %#x", i, n, p[i]);
        got(p, n, d, -1); release(m_take(nlive - 1), F_SIZE, MISS);
        static char s[5000]; memset(s, 'x', n - 1); s[n - 1] = 0;
        decide(d); char *q = iso_strdup(s); undecide();
        if(!q || strcmp(q, s)) mc_fail("strdup of %ld characters", n - 1);
        got(q, n, d, -1); release(m_take(nlive - 1), F_FREE, MISS);
    }
    iso_verify_zones();
    mc_nontrivial(n);
}
static const dom_t sizes = {"sizes", sinit, 2, scount, sitem, 1};
/* ---- wrong frees of samples: every offset in the page, every claimed size */
static const long W[] = {32, 64, 256, 1024, 2048, 4064};
static long wcount(int v) { (void) v; return 6 * 2 * (PAGE / 8 + 24); }
typedef struct { void *p; size_t n; int f; } call_t;
static void wrong(void *x) { call_t *c = x; if(c->f == 1) iso_free_size(c->p, c->n); else if(c->f == 2) iso_free_permanently(c->p); else iso_free(c->p); iso_flush_caches(); }
static void witem(long k) {
    long per = PAGE / 8 + 24; int d = RIGHT + (int) (k / per % 2); long n = W[k / per / 2], o = k % per;
    decide(d); void *p = iso_alloc(n); got(p, n, d, -1); blk_t b = live[0];
    if(o < (long) PAGE / 8) {
        uint8_t *q = (uint8_t *) PG(b.p) + o * 8;
        if(q == b.p) return;
        for(int f = 0; f < 3; f++) { call_t c = {q, n, f}; int r = mc_death(wrong, &c); mc_eval(1); if(r == D_OK) mc_fail("freeing call %d accepted the pointer at offset %ld of the sample %p of %ld bytes", f, (long) (q - b.p), (void *) b.p, n); }
    } else {
        static const long c0[] = {1, 2, 8, 32, 100, 1000, 4096, 65536, 65537, 1L << 20, 1L << 33, -1};
        long m = (o - (long) PAGE / 8) < 12 ? (long) b.use + c0[o - PAGE / 8] : (long) b.use - (o - (long) PAGE / 8 - 12);
        if(o - (long) PAGE / 8 == 11) m = -1;
        if(m == 0) return;
        call_t c = {b.p, (size_t) m, 1};
        int r = mc_death(wrong, &c); mc_eval(1);
        if((size_t) m > b.use && r == D_OK) mc_fail("iso_free_size accepted %zu bytes for a sample of %zu usable bytes", (size_t) m, b.use);
        if((size_t) m >= b.req && (size_t) m <= b.use && r != D_OK) mc_fail("iso_free_size rejected %zu bytes for a sample of %zu usable bytes", (size_t) m, b.use);
    }
    /* a second free */
    if(o == 0) for(int f = 0; f < 9; f++) {
        blk_t x = live[0]; if(f) { decide(d); got(iso_alloc(n), n, d, -1); x = m_take(1); release(x, f / 3, MISS); while(nlive > 1) release(m_take(1), F_FREE, MISS); call_t c = {x.p, n, f % 3}; int r = mc_death(wrong, &c); mc_eval(1); if(r == D_OK) mc_fail("freeing a sample with call %d and again with call %d is not detected", f / 3, f % 3); }
    }
}
static const dom_t wrongs = {"wrong", sinit, 2, wcount, witem, 1};
/* ---- histories */
static const size_t A[] = {24, 64, 1000, 2048, 4064, 4080, 8192, 70000};
static void h_alloc(int k) { int d = k % 3; size_t n = A[k / 3]; decide(d); void *p = iso_alloc(n); got(p, n, d, -1); }
static void h_calloc(int d) { decide(d); uint8_t *p = iso_calloc(4, 50); undecide(); for(int i = 0; i < 200; i++) if(p[i]) mc_fail("calloc byte %d is %#x", i, p[i]); got(p, 200, d, -1); }
static void h_zone(int d) { decide(d); void *p = iso_alloc_from_zone(zt[0].h); got(p, zt[0].csz, d, 0); }
static void h_dup(int d) { decide(d); char *p = iso_strdup("sampled"); undecide(); if(strcmp(p, "sampled")) mc_fail("strdup"); got(p, 8, d, -1); }
static bool general(int i) { int j = i < 0 ? nlive - 1 : i; return j >= 0 && j < nlive && live[j].zone < 0; }
static void h_free(int k) { release(m_take(k & 8 ? 0 : nlive - 1), k & 7, MISS); }
static bool last_en(int k) { return general(k & 8 ? 0 : -1); }
static void h_reallocs(int k) { release(m_take(nlive - 1), F_REALLOC, k); }
static bool zlast(int k) { (void) k; return nlive && live[nlive - 1].zone == 0; }
static void h_zfree(int k) { (void) k; blk_t b = m_take(nlive - 1); iso_free_from_zone(b.p, zt[0].h); }
static void h_misc(int k) { if(k == 0) iso_flush_caches(); else if(k == 1) iso_verify_zones(); else if(k == 2) { (void) iso_alloc_detect_leaks(); (void) iso_alloc_mem_usage(); } }
static void node(void) {
    m_check_all();
    for(int i = 0; i < nlive; i++) { if(live[i].tag) fenced(&live[i]); else if(iso_chunksz(live[i].p) != live[i].use) mc_fail("usable size of %p changed", (void *) live[i].p); }
    if(nsampled() > LIM) mc_fail("%d samples in use, the limit is %d", nsampled(), LIM);
}
static void leaf(void) {
    node();
    for(int i = 0; i < nlive; i++) if(live[i].tag) {
        uintptr_t s = PG(live[i].p); blk_t b = live[i];
        uintptr_t lo = b.p == (uint8_t *) s ? s + b.use : s, hi = b.p == (uint8_t *) s ? s + PAGE : (uintptr_t) b.p;
        if(lo < hi) { int f = (nlive + i) & 3; bad(b, f & 1 ? lo : hi - 1, f); }
    }
    while(nlive) { blk_t b = m_take(nlive & 1 ? nlive - 1 : 0); if(b.zone >= 0) iso_free_from_zone(b.p, zt[0].h); else release(b, nlive % 3, MISS); }
    /* all slots are available again */
    for(int i = 0; i < LIM; i++) { decide(RIGHT); void *p = iso_alloc(100); got(p, 100, RIGHT, -1); }
    decide(RIGHT); void *p = iso_alloc(100); got(p, 100, RIGHT, -1);
    if(live[nlive - 1].tag) mc_fail("more than %d samples", LIM);
    m_audit();
}
static void hinit(int v) {
    m_start(v); undecide();
    zt[0] = (mz_t){iso_alloc_new_zone(64), 64, 0, 0, 0, true}; nzt = 1;
    for(int i = 0; i < nlive; i++) live[i].tag = 0;
    if(v & 4) for(int i = 0; i < LIM - 1; i++) { decide(i & 1 ? LEFT : RIGHT); void *p = iso_alloc(64 + i * 64); got(p, 64 + i * 64, i & 1 ? LEFT : RIGHT, -1); }
}
#define AL(i) {"alloc", NULL, h_alloc, (i) * 3}, {"sample_right", NULL, h_alloc, (i) * 3 + 1}, {"sample_left", NULL, h_alloc, (i) * 3 + 2}
static const op_t ops[] = {
    AL(0), AL(2), {"sample_right", NULL, h_alloc, 4}, {"sample_left", NULL, h_alloc, 4 * 3 + 2}, {"select_4080", NULL, h_alloc, 5 * 3 + 1}, {"select_8192", NULL, h_alloc, 6 * 3 + 1}, {"select_70000", NULL, h_alloc, 7 * 3 + 1},
    {"calloc_right", NULL, h_calloc, RIGHT}, {"calloc_left", NULL, h_calloc, LEFT}, {"zone_alloc", NULL, h_zone, RIGHT}, {"strdup", NULL, h_dup, LEFT},
    {"free", last_en, h_free, F_FREE}, {"free_size", last_en, h_free, F_SIZE}, {"free_perm", last_en, h_free, F_PERM}, {"realloc0", last_en, h_free, F_REALLOC0}, {"free_first", last_en, h_free, 8 + F_FREE}, {"free_perm_first", last_en, h_free, 8 + F_PERM},
    {"realloc", last_en, h_reallocs, MISS}, {"realloc_sampled", last_en, h_reallocs, RIGHT}, {"zone_free", zlast, h_zfree, 0},
    {"flush", NULL, h_misc, 0}, {"verify", NULL, h_misc, 1},
};
static const seq_t hist = {"history", hinit, 8, ops, sizeof ops / sizeof *ops, node, leaf, 3, 4};
static const scen_t sc[] = {MC_DOM(sizes), MC_DOM(wrongs), MC_SEQ(hist)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
