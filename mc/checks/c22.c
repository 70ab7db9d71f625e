/* C22: what may share a zone with what */
#include "../mm.h"
#if STRONG_SIZE_ISOLATION
#define STRONG 1
#else
#define STRONG 0
#endif
static size_t rnd(size_t n) { return n < 32 ? 32 : (n + 31) & ~31UL; }
/* what lives in each 4 MB region: general chunk size, private zone or big */
typedef struct { uintptr_t s, e; int kind; size_t csz; } reg_t; /* kind 0 general, 1+z private zone z, -1 big */
static reg_t R[4096]; static int nR;
static void unmapped(int kind, uintptr_t a, size_t n, int prot) {
    (void) prot;
    if(kind == FK_MUNMAP) for(int i = 0; i < nR; i++) if(R[i].s < a + n && a < R[i].e) R[i--] = R[--nR];
}
static void place(const uint8_t *p, size_t req, size_t use, int zone) {
    const seg_t *g = env_seg((uintptr_t) p);
    if(!g) mc_fail("allocation outside the allocator's mappings");
    int kind = zone >= 0 ? 1 + zone : use > 65536 ? -1 : 0;
    mc_eval(1);
    if(kind == 0 && req > 1024 && use >= 8 * rnd(req)) mc_fail("request for %zu bytes was placed in a chunk of %zu", req, use);
    if(STRONG && kind == 0 && use != rnd(req)) mc_fail("with strong size isolation a request for %zu bytes was placed in a chunk of %zu bytes", req, use);
    if(kind >= 1 && use < req) mc_fail("private chunk too small");
    for(int i = 0; i < nR; i++)
        if((uintptr_t) p < R[i].e && (uintptr_t) p + use > R[i].s) {
            if(kind == -1 && R[i].kind == -1) { if((uintptr_t) p != R[i].s) mc_fail("two big allocations share a region"); R[i].e = (uintptr_t) p + use; return; }
            if(R[i].kind != kind) mc_fail("request for %zu bytes (%s) was placed in a region holding %s", req, kind < 0 ? "big" : kind ? "private" : "general", R[i].kind < 0 ? "a big allocation" : R[i].kind ? "another zone's private chunks" : "general chunks");
            if(R[i].csz != use) mc_fail("one zone gives chunks of %zu and %zu bytes", R[i].csz, use);
            return;
        }
    if(nR < 4096) R[nR++] = kind == -1 ? (reg_t){(uintptr_t) p, (uintptr_t) p + use, kind, use} : (reg_t){g->s, g->e, kind, use};
}
static blk_t *add(void *p, size_t n, int zone) {
    if(!p && zone >= 0) return NULL;
    blk_t *b = m_add(p, n, zone);
    place(b->p, n, b->use, zone);
    return b;
}
static const size_t A[] = {40, 1025, 8192, 70000, 64, 9000};
static const size_t csz[] = {64, 9024, 1056};
static void o_alloc(int k) { add(iso_alloc(A[k]), A[k], -1); }
static void o_zalloc(int k) { add(iso_alloc_from_zone(zt[k].h), csz[k], k); }
static void o_zstr(int k) { char s[64]; memset(s, 'x', 50); s[50] = 0; add(iso_strdup_from_zone(zt[k].h, s), 51, k); }
static bool en(int a) { return nlive > (a >= 8); }
static void o_free(int a) {
    blk_t b = m_take(a & 8 ? 0 : nlive - 1);
    if((a & 7) == 2 && b.zone < 0) { add(iso_realloc(b.p, b.req * 2), b.req * 2, -1); return; }
    if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else if((a & 7) == 1) iso_free_size(b.p, b.req); else iso_free(b.p);
}
static void o_flush(int k) { (void) k; iso_flush_caches(); }
static void o_fill(int k) { /* hold the rest of the class's zone */
    for(int i = 0; i < 600; i++) { uint8_t *p = iso_alloc(A[k]); place(p, A[k], iso_chunksz(p), -1); }
}
static void o_cycle(int k) { for(int i = 0; i < 700; i++) { uint8_t *p = iso_alloc(A[k]); place(p, A[k], iso_chunksz(p), -1); iso_free_size(p, A[k]); } }
static void o_newzone(int k) { (void) k; if(zt[2].live) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == 2) m_take(i); iso_alloc_destroy_zone(zt[2].h); for(int i = 0; i < nR; i++) if(R[i].kind == 3) R[i--] = R[--nR]; zt[2].live = false; } else { zt[2].h = iso_alloc_new_zone(1056); zt[2].live = true; o_zalloc(2); } }
static void leaf(void) {
    /* whatever happened, every class is placed correctly afterwards */
    static const size_t n[] = {1, 33, 64, 65, 128, 256, 300, 512, 600, 1000, 1024, 1025, 1500, 2048, 3000, 4096, 8192, 8193, 12000, 16384, 40000, 65536, 65537, 100000};
    for(unsigned i = 0; i < sizeof n / sizeof *n; i++) add(iso_alloc(n[i]), n[i], -1);
    for(int i = 0; i < 2; i++) o_zalloc(i);
    m_audit();
}
static void init(int v) {
    nR = 0; nzt = 3; zt[2].live = false;
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    iso_alloc_initialize();
    env.on_event = unmapped;
    for(int i = 0; i < 2; i++) zt[i].h = iso_alloc_new_zone(csz[i]);
    if(v & 1) { for(int i = 0; i < 6; i++) o_alloc(i); o_zalloc(0); o_zalloc(1); o_free(0); o_free(8); iso_flush_caches(); }
}
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"alloc", NULL, o_alloc, 4}, {"alloc", NULL, o_alloc, 5}, {"zalloc", NULL, o_zalloc, 0}, {"zalloc", NULL, o_zalloc, 1},
#if !STRONG_SIZE_ISOLATION
    {"zstrdup", NULL, o_zstr, 0}, {"zstrdup1", NULL, o_zstr, 1},
#endif
    {"free", en, o_free, 0}, {"free_old", en, o_free, 8}, {"free_size", en, o_free, 1}, {"realloc", en, o_free, 2}, {"fill", NULL, o_fill, 2}, {"fill", NULL, o_fill, 5}, {"cycle", NULL, o_cycle, 2}, {"newzone", NULL, o_newzone, 0}, {"flush", NULL, o_flush, 0},
};
static const seq_t seq = {"history", init, 4, ops, sizeof ops / sizeof *ops, NULL, leaf, 3, 4};

/* every class after every class: the first leaves its zone in the lookup tables and the
 * thread's cache, the second must be placed as if it were alone */
static void pinit(int v) { init(v & 3); }
static size_t ps[96]; static int nps;
static void psizes(void) {
    nps = 0;
    static const size_t b[] = {32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536};
    for(int i = 0; i < 12; i++) { size_t c[] = {b[i] - 32, b[i], b[i] + 1, b[i] + 32, b[i] + b[i] / 2}; for(int j = 0; j < 5; j++) if(c[j] >= 1 && c[j] <= 65536 && (nps == 0 || c[j] > ps[nps - 1])) ps[nps++] = c[j]; }
}
static long pcount(int v) { (void) v; psizes(); return nps * 4; }
static void pitem(long k) {
    size_t w = ps[k / 4]; int how = k % 4;
    mc_note(" %zu first", w);
    for(int j = 0; j < nps; j++) {
        size_t r = ps[j];
        int b0 = nlive;
        add(iso_alloc(w), w, -1); add(iso_alloc(w), w, -1);
        if(how & 1) { blk_t b = m_take(nlive - 1); iso_free_size(b.p, b.req); }
        if(how & 2) { blk_t b = m_take(nlive - 1); iso_free(b.p); iso_flush_caches(); }
        add(iso_alloc(r), r, -1); add(iso_calloc(1, r), r, -1); add(iso_realloc(NULL, r), r, -1);
        while(nlive > b0) { blk_t b = m_take(nlive - 1); iso_free_size(b.p, b.req); }
        mc_nontrivial(w * 65537 + r);
    }
    leaf();
}
static const dom_t pairs = {"pairs", pinit, 4, pcount, pitem, 1};
/* every class, with its own zone full and not */
static long ccount(int v) { (void) v; return 2048; }
static void citem(long k) {
    size_t n = (k + 1) * 32;
    mc_note(" class %zu", n);
    int b0 = nlive;
    long m0;
    iso_free_size(iso_alloc(n), n);
    m0 = env.n_mmap;
    for(int i = 0; i < 10; i++) { uint8_t *p = iso_alloc(n); place(p, n, iso_chunksz(p), -1); iso_free_size(p, n); }
    if(env.n_mmap > m0 + 8) mc_fail("ten allocations of %zu bytes, each freed at once, made %ld mappings", n, env.n_mmap - m0);
    add(iso_alloc(n), n, -1); add(iso_alloc(n - 31), n - 31, -1); add(iso_alloc(n + 1), n + 1, -1);
    size_t chunk = live[b0].use, cnt = 4194304 / chunk;
    if(cnt <= 4096 || mc_thorough) for(size_t i = 0; i < cnt + 8; i++) { uint8_t *p = iso_alloc(n); place(p, n, iso_chunksz(p), -1); }
    add(iso_alloc(n), n, -1);
    zt[2].h = iso_alloc_new_zone(n);
    for(int i = 0; i < 3; i++) { uint8_t *p = iso_alloc_from_zone(zt[2].h); if(p) place(p, n, iso_chunksz(p), 2); }
    add(iso_alloc(n), n, -1);
    mc_nontrivial(n);
    leaf();
}
static const dom_t cls = {"classes", pinit, 4, ccount, citem, 1};
static const scen_t sc[] = {MC_SEQ(seq), MC_DOM(pairs), MC_DOM(cls)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
