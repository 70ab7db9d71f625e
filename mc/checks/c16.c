/* C16: an ordinarily freed small chunk is not handed out again before the delayed-free
 * buffer was processed, which needs it to be full or an explicit flush */
#include "../mm.h"
#ifndef MC_QUARANTINE
#define MC_QUARANTINE 64
#endif
static struct { uint8_t *p; size_t n; } pend[MC_QUARANTINE + 1]; static int npend;
static void handed(uint8_t *p, size_t n) {
    /* a full buffer may have been processed already */
    if(npend < MC_QUARANTINE)
        for(int i = 0; i < npend; i++)
            if(p < pend[i].p + pend[i].n && pend[i].p < p + n) mc_fail("%p (%zu bytes) was freed and handed out again as %p with %d of %d delayed frees outstanding and no flush", (void *) pend[i].p, pend[i].n, (void *) p, npend, MC_QUARANTINE);
    mc_eval(1);
}
static void defer(uint8_t *p, size_t n) {
    if(npend >= MC_QUARANTINE) npend = 0;
    if(n > 65536) n = 0;
    pend[npend].p = p; pend[npend++].n = n;
}
static void add(void *p, size_t n, int zone) {
    if(!p && zone >= 0) return;
    blk_t *b = m_add(p, n, zone);
    handed(b->p, b->use);
}
static const size_t A[] = {64, 8192, 70000, 1024};
static const size_t csz[] = {64, 8192};
static void o_alloc(int k) { add(iso_alloc(A[k]), A[k], -1); }
static void o_calloc(int k) { add(iso_calloc(1, A[k]), A[k], -1); }
static void o_zalloc(int k) { add(iso_alloc_from_zone(zt[k].h), csz[k], k); }
static int pick(int a) { return a & 8 ? 0 : nlive - 1; }
static bool en(int a) { return nlive > 0 && (!(a & 8) || nlive > 1) && ((a & 7) < 3 || (a & 7) == 4 || live[pick(a)].zone < 0) && ((a & 7) != 4 || live[pick(a)].zone >= 0) ; }
static void o_free(int a) {
    blk_t b = m_take(pick(a));
    switch(a & 7) {
    case 0: iso_free(b.p); defer(b.p, b.use); break; /* also of private chunks */
    case 1: iso_free_size(b.p, b.zone >= 0 ? b.use : b.req); break;
    case 2: iso_free_permanently(b.p); break;
    case 3: add(iso_realloc(b.p, b.req == 64 ? 8192 : 64), b.req == 64 ? 8192 : 64, -1); break;
    case 4: iso_free_from_zone(b.p, zt[b.zone].h); break;
    case 5: (void) !iso_realloc(b.p, 0); defer(b.p, 0); break; /* an ordinary free or a direct one */
    }
}
static void o_flush(int k) { (void) k; iso_flush_caches(); npend = 0; }
static void o_verify(int k) { (void) k; iso_verify_zones(); iso_verify_zone(zt[0].h); }
static void o_hold(int k) { /* take everything the class has cached and more; all of it stays */
    for(int i = 0; i < 20; i++) { void *p = iso_alloc(A[k]); handed(p, A[k]); }
}
static void o_churn(int k) { /* direct frees do not touch delayed ones */
    for(int i = 0; i < 10; i++) { void *p = iso_alloc(A[k]); handed(p, A[k]); iso_free_size(p, A[k]); }
}
static void o_newzone(int k) { (void) k; void *h = iso_alloc_new_zone(8192); for(int i = 0; i < 3; i++) { void *p = iso_alloc_from_zone(h); handed(p, 8192); } iso_alloc_destroy_zone(h); npend = 0; /* destroying a zone processes them */ }
static void init(int v) {
    m_start(v);
    iso_flush_caches(); npend = 0; nzt = 2;
    for(int i = 0; i < 2; i++) zt[i].h = iso_alloc_new_zone(csz[i]);
    for(int i = 0; i < 4; i++) { add(iso_alloc(A[i]), A[i], -1); }
    for(int i = 0; i < 2; i++) { o_zalloc(i); o_zalloc(i); }
    if(v & 1) { void *p = iso_alloc(1024); iso_free(p); defer(p, 1024); }
}
/* after a flush every delayed chunk is there again, once */
static int nperm[2];
static void leaf(void) {
    for(int z = 1; z >= 0; z--) {
        static uint8_t *q[70000]; int c = 0;
        if(z == 0 && !mc_thorough && npend == 0) break;
        size_t cap = iso_zone_chunk_count(zt[z].h), own = 0;
        for(int i = 0; i < nlive; i++) own += live[i].zone == z;
        for(int r = 0; r < 2; r++) { /* without, then with the delayed ones */
            for(;;) { uint8_t *p = iso_alloc_from_zone(zt[z].h); if(!p) break; handed(p, csz[z]); if(c >= 70000) mc_fail("endless zone"); q[c++] = p; *(int *) p = c; }
            if(r == 0) { iso_flush_caches(); npend = 0; }
        }
        for(int i = 0; i < c; i++) if(*(int *) q[i] != i + 1) mc_fail("a chunk was handed out twice after the flush");
        if(c + own + nperm[z] < cap) mc_fail("after a flush the zone of %zu byte chunks has only %d chunks to give, not %zu", csz[z], c, cap - own - nperm[z]);
        for(int i = 0; i < c; i++) iso_free_from_zone(q[i], zt[z].h);
    }
    m_audit();
}
static void o_permz(int a) { /* permanently freed private chunks do not come back */
    blk_t b = live[pick(a)]; if(b.zone >= 0) nperm[b.zone]++;
    o_free(2 | (a & 8));
}
static const op_t ops[] = {
    {"free", en, o_free, 0}, {"free_old", en, o_free, 8}, {"free_size", en, o_free, 1}, {"free_size_old", en, o_free, 9}, {"perm", en, o_permz, 0}, {"realloc", en, o_free, 3}, {"zfree", en, o_free, 4}, {"realloc0", en, o_free, 5},
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2}, {"calloc", NULL, o_calloc, 3}, {"zalloc", NULL, o_zalloc, 0}, {"zalloc", NULL, o_zalloc, 1},
    {"hold", NULL, o_hold, 0}, {"hold", NULL, o_hold, 1}, {"churn", NULL, o_churn, 1}, {"verify", NULL, o_verify, 0}, {"newzone", NULL, o_newzone, 0}, {"flush", NULL, o_flush, 0},
};
static const seq_t seq = {"history", init, 8, ops, sizeof ops / sizeof *ops, NULL, leaf, 3, 4};

/* every fill level of the buffer, for several classes and mixtures, with heavy
 * allocation afterwards */
static const size_t C[] = {32, 64, 200, 1024, 4000, 8192, 16384, 65536};
enum { NLV = 3 * MC_QUARANTINE + 3 };
static void linit(int v) { m_start(v); iso_flush_caches(); npend = 0; }
static long lcount(int v) { (void) v; return NLV * 8; }
static void litem(long k) {
    size_t n = C[k % 8]; int L = k / 8;
    mc_note(" %d frees of %zu", L, n);
    static uint8_t *q[4 * MC_QUARANTINE + 8]; int c = 0;
    for(int i = 0; i < L; i++) { size_t m = i % 5 == 4 ? C[(k + i) % 8] : n; q[c++] = iso_alloc(m); if(!q[c - 1]) mc_fail("NULL"); }
    for(int i = 0; i < L; i++) { size_t u = iso_chunksz(q[i]); iso_free(q[i]); defer(q[i], u); }
    size_t want = 4194304 / n + 40; if(want > 3000) want = 3000;
    static uint8_t *h[4000];
    for(size_t i = 0; i < want; i++) { h[i] = iso_alloc(n); handed(h[i], n); *(size_t *) h[i] = i; }
    for(size_t i = 0; i < want; i++) if(*(size_t *) h[i] != i) mc_fail("a chunk has two owners");
    for(size_t i = 0; i < want; i++) iso_free_size(h[i], n);
    iso_flush_caches();
    iso_verify_zones();
    mc_nontrivial(k);
    m_audit();
}
static const dom_t lv = {"levels", linit, 8, lcount, litem, 1};
static const scen_t sc[] = {MC_SEQ(seq), MC_DOM(lv)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
