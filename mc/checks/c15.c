/* C15: a permanently freed chunk is erased at once and never handed out again while its
 * zone exists; everything around it keeps working */
#include "../mm.h"
typedef struct { uint8_t *p; size_t use; bool big, gone; uint32_t pat; } dead_t;
static dead_t dead[9000]; static int ndead;
static void unmapped(int kind, uintptr_t a, size_t n, int prot) { /* its zone went away */
    (void) prot;
    if(kind == FK_MUNMAP) for(int i = 0; i < ndead; i++) if((uintptr_t) dead[i].p >= a && (uintptr_t) dead[i].p < a + n) dead[i].gone = true;
}
static void handed(uint8_t *p, size_t n) {
    for(int i = 0; i < ndead; i++)
        if(!dead[i].gone && p < dead[i].p + dead[i].use && dead[i].p < p + n) mc_fail("%p (%zu bytes), permanently freed, was handed out again as %p (%zu bytes)", (void *) dead[i].p, dead[i].use, (void *) p, n);
}
static blk_t *add(void *p, size_t n, int zone) {
    if(!p && zone >= 0) return NULL;
    blk_t *b = m_add(p, n, zone);
    handed(b->p, b->use);
    return b;
}
static bool perm_realloc;
/* p was just freed permanently; its bytes followed pattern pat */
static void check_dead(const dead_t *d, const char *when) {
    if(d->gone) return;
    mc_eval(1);
    if(d->big) {
        if(!env_all((uintptr_t) d->p, d->use, PROT_NONE)) mc_fail("permanently freed big allocation %p of %zu bytes is accessible %s", (void *) d->p, d->use, when);
        return;
    }
    /* canaries may replace the first and last word */
    size_t kept = 0;
    for(size_t o = 8; o + 16 <= d->use; o += 8) {
        if(o > 1024 && o + 1024 < d->use && o % 512 > 8) continue;
        size_t same = 0;
        for(int j = 0; j < 8; j++) same += d->p[o + j] == m_byte(d->pat, o + j);
        if(same == 8) kept++;
    }
    if(kept) mc_fail("%zu words of a permanently freed chunk of %zu bytes still hold what was in it %s", kept, d->use, when);
    for(size_t o = 0; o < 8; o++) (void) o;
}
static void fill_all(blk_t *b) { for(size_t i = 0; i < b->use && i < (1u << 20); i++) b->p[i] = m_byte(b->pat, i); }
enum { P_PLAIN, P_ZONE, P_REALLOC };
static void perm(int i, int how) {
    fill_all(&live[i]);
    blk_t b = m_take(i);
    if(ndead >= 9000) mc_fail("harness: dead");
    dead[ndead] = (dead_t){b.p, b.use, b.use > 65536, false, b.pat};
    uint8_t *np = NULL;
    if(how == P_ZONE) iso_free_from_zone_permanently(b.p, zt[b.zone].h);
    else if(how == P_REALLOC) np = iso_realloc(b.p, b.req + 40);
    else iso_free_permanently(b.p);
    ndead++;
    check_dead(&dead[ndead - 1], "after the call");
    if(np) add(np, b.req + 40, -1);
}
static const size_t A[] = {64, 8192, 70000, 65536};
static size_t csz[2] = {64, 8192};
static void o_alloc(int k) { add(iso_alloc(A[k]), A[k], -1); }
static void o_zalloc(int k) { add(iso_alloc_from_zone(zt[k].h), csz[k], k); }
static int pick(int a) { return a & 8 ? 0 : nlive - 1; }
static bool en(int a) { return nlive > 0 && (!(a & 8) || nlive > 1) && ((a & 7) != P_ZONE || live[pick(a)].zone >= 0) && ((a & 7) != P_REALLOC || live[pick(a)].zone < 0); }
static void o_perm(int a) { perm(pick(a), a & 7); }
static bool enf(int a) { return nlive > 0 && (!(a & 8) || nlive > 1); }
static void o_free(int a) {
    blk_t b = m_take(pick(a));
    if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h);
    else if(a & 1) iso_free_size(b.p, b.req); else iso_free(b.p);
}
static void o_flush(int k) { (void) k; iso_flush_caches(); }
static void o_churn(int k) { /* heavy use */
    for(int i = 0; i < 12; i++) { void *p = iso_alloc(A[k]); handed(p, A[k]); if(i & 1) iso_free(p); else iso_free_size(p, A[k]); }
}
static void exhaust(size_t n, int zone) {
    /* hold everything the class can give until two more regions have been opened */
    static void *q[150000]; int c = 0, regions = 0;
    long m0 = env.n_mmap;
    while(c < 150000 && regions < 2) {
        void *p = zone >= 0 ? iso_alloc_from_zone(zt[zone].h) : iso_alloc(n);
        if(!p) { if(zone < 0) mc_fail("allocation of %zu bytes failed", n); break; }
        handed(p, n); q[c++] = p;
        if(env.n_mmap != m0) { regions++; m0 = env.n_mmap; }
    }
    for(int i = 0; i < c; i++) if(zone >= 0) iso_free_from_zone(q[i], zt[zone].h); else iso_free_size(q[i], n);
}
static void leaf(void) {
    iso_flush_caches();
    iso_verify_zones();
    exhaust(8192, -1);
    for(int i = 0; i < 6; i++) { add(iso_alloc(70000), 70000, -1); }
    exhaust(8192, 1);
    for(int i = 0; i < 40; i++) { void *p = iso_alloc(64); handed(p, 64); iso_free(p); p = iso_alloc_from_zone(zt[0].h); if(p) { handed(p, 64); iso_free_from_zone(p, zt[0].h); } }
    for(int i = 0; i < ndead; i++) if(dead[i].big) check_dead(&dead[i], "at the end");
    m_audit();
}
static void init(int v) {
    m_start(v);
    env.on_event = unmapped;
    ndead = 0;
    nzt = 2;
    for(int i = 0; i < 2; i++) zt[i].h = iso_alloc_new_zone(csz[i]);
    for(int i = 0; i < 4; i++) { add(iso_alloc(A[i]), A[i], -1); }
    if(v & 1) { iso_free(iso_alloc(64)); iso_free(iso_alloc(70000)); }
}
static const op_t ops[] = {
    {"perm", en, o_perm, P_PLAIN}, {"perm_old", en, o_perm, P_PLAIN | 8}, {"zperm", en, o_perm, P_ZONE}, {"zperm_old", en, o_perm, P_ZONE | 8},
#if PERM_FREE_REALLOC
    {"realloc", en, o_perm, P_REALLOC}, {"realloc_old", en, o_perm, P_REALLOC | 8},
#endif
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"zalloc", NULL, o_zalloc, 0}, {"zalloc", NULL, o_zalloc, 1},
    {"free", enf, o_free, 0}, {"free_old", enf, o_free, 8}, {"free_size", enf, o_free, 1}, {"flush", NULL, o_flush, 0}, {"churn", NULL, o_churn, 1}, {"churn", NULL, o_churn, 2},
};
static const seq_t seq = {"history", init, 8, ops, sizeof ops / sizeof *ops, NULL, leaf, 3, 4};

/* every size class: some chunks permanently freed, then the zone is used up */
static void cinit(int v) { m_start(v); iso_flush_caches(); env.on_event = unmapped; ndead = 0; }
static long ccount(int v) { (void) v; return 2048 + 40; }
static void citem(long k) {
    static size_t B[400];
    if(k >= 2048) { /* big sizes */
        int n = m_bigsizes(B); size_t sz = B[(k - 2048) * (n > 280 ? 280 : n) / 40];
        if(sz > 1UL << 27) sz = 1UL << 27;
        mc_note(" big %zu", sz);
        add(iso_alloc(sz), sz, -1); add(iso_alloc(sz), sz, -1); add(iso_alloc(sz), sz, -1);
        int b = nlive - 3;
        if(k & 1) { blk_t x = m_take(b); iso_free(x.p); iso_flush_caches(); add(iso_alloc(sz), sz, -1); }
        perm(b + 1, P_PLAIN);
        for(int i = 0; i < 5; i++) add(iso_alloc(sz), sz, -1);
        perm(nlive - 1, P_PLAIN); perm(nlive - 2, P_PLAIN);
        for(int i = 0; i < 5; i++) add(iso_alloc(sz), sz, -1);
        for(int i = 0; i < ndead; i++) check_dead(&dead[i], "later");
        mc_nontrivial(sz);
        m_audit();
        return;
    }
    size_t n = (k + 1) * 32;
    mc_note(" class %zu", n);
    /* private zone: the capacity is known */
    void *h = iso_alloc_new_zone(n);
    zt[0].h = h; nzt = 1;
    size_t cap = iso_zone_chunk_count(h), want = 0;
    for(int i = 0; i < 6; i++) { if(add(iso_alloc_from_zone(h), n, 0)) want++; }
    int base = nlive - want;
    int np = 0;
    for(int i = nlive - 1; i >= base; i -= 2) { perm(i, i & 2 ? P_ZONE : P_PLAIN); np++; }
    static void *q[150000]; size_t c = 0;
    for(;;) { void *p = iso_alloc_from_zone(h); if(!p) break; if(c >= 150000) mc_fail("endless zone"); handed(p, n); *(uint64_t *) p = c; q[c++] = p; }
    /* what was live before the permanent frees stays, so at least the rest is there */
    if(c + want < cap) mc_fail("a zone of %zu byte chunks holds %zu chunks; %zu permanently freed leave only %zu", n, cap, (size_t) np, c + want - np);
    for(size_t i = 0; i < c; i++) if(*(uint64_t *) q[i] != i) mc_fail("chunk overwritten");
    m_check_all();
    for(size_t i = 0; i < c; i++) { if(i % 64 == 5) { iso_free_from_zone_permanently(q[i], h); if(ndead < 8000) dead[ndead++] = (dead_t){q[i], n, false, true, 0}; } else iso_free_from_zone(q[i], h); }
    iso_verify_zone(h);
    mc_eval(c);
    /* general zone of that size; with its own permanent frees, in use until it is full */
    int g0 = nlive;
    for(int i = 0; i < 5; i++) add(iso_alloc(n), n, -1);
    perm(g0 + 3, P_PLAIN); perm(g0 + 1, P_PLAIN);
#if PERM_FREE_REALLOC
    perm(g0, P_REALLOC);
#endif
    iso_flush_caches();
    if(n >= 512 || mc_thorough) exhaust(n, -1);
    for(int i = 0; i < 8; i++) { void *p = iso_alloc(n); handed(p, n); iso_free(p); }
    iso_flush_caches();
    mc_nontrivial(n);
    m_audit();
}
static const dom_t cls = {"classes", cinit, 8, ccount, citem, 1};

/* zones with almost nothing left: every freed slot is handed out again at once */
static void finit(int v) {
    m_start(v);
    iso_flush_caches();
    env.on_event = unmapped;
    ndead = 0; nzt = 2; csz[1] = 65536;
    for(int i = 0; i < 2; i++) zt[i].h = iso_alloc_new_zone(csz[i]);
    for(int i = 0;; i++) { if(!add(iso_alloc_from_zone(zt[1].h), 65536, 1)) break; if(i > 64) mc_fail("endless zone"); }
    /* the general zones of that size, to their ends */
    long m0 = env.n_mmap;
    for(int i = 0; i < 200 && env.n_mmap == m0; i++) add(iso_alloc(65536), 65536, -1);
    m0 = env.n_mmap;
    for(int i = 0; i < 62; i++) add(iso_alloc(65536), 65536, -1);
    if(v & 1) { blk_t b = m_take(nlive - 3); iso_free_size(b.p, b.req); b = m_take(3); iso_free(b.p); }
    if(v & 2) { blk_t b = m_take(10); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free_size(b.p, b.req); }
}
static int fpick(int a) { int z = a & 16 ? 1 : -1; if(a & 8) { for(int i = 0; i < nlive; i++) if(live[i].zone == z && live[i].req == 65536) return i; return -1; } for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z && live[i].req == 65536) return i; return -1; }
static bool fen(int a) { return fpick(a) >= 0; }
static void f_perm(int a) { perm(fpick(a), a & 7); }
static void f_free(int a) {
    blk_t b = m_take(fpick(a));
    switch(a & 3) { case 0: iso_free(b.p); break; case 1: iso_free_size(b.p, b.req); break; case 2: iso_free_from_zone(b.p, zt[b.zone].h); break; }
}
static void fleaf(void) {
    iso_flush_caches(); iso_verify_zones();
    int before = nlive;
    for(int i = 0; i < 70; i++) if(!add(iso_alloc_from_zone(zt[1].h), 65536, 1)) break;
    long m0 = env.n_mmap;
    for(int i = 0; i < 140 && env.n_mmap == m0; i++) add(iso_alloc(65536), 65536, -1);
    iso_verify_zones();
    m_outcome(); m_check_all();
    while(nlive > before) { blk_t b = m_take(nlive - 1); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free_size(b.p, b.req); }
    iso_verify_zones();
}
static const op_t fops[] = {
    {"perm", fen, f_perm, P_PLAIN}, {"perm_old", fen, f_perm, P_PLAIN | 8}, {"perm of zone", fen, f_perm, P_PLAIN | 16}, {"zperm", fen, f_perm, P_ZONE | 16}, {"zperm_old", fen, f_perm, P_ZONE | 8 | 16},
#if PERM_FREE_REALLOC
    {"realloc", fen, f_perm, P_REALLOC},
#endif
    {"alloc", NULL, o_alloc, 3}, {"zalloc", NULL, o_zalloc, 1}, {"free", fen, f_free, 0}, {"free_size_old", fen, f_free, 9}, {"free zone's", fen, f_free, 16}, {"free_from_zone", fen, f_free, 18}, {"flush", NULL, o_flush, 0},
};
static const seq_t full = {"full", finit, 8, fops, sizeof fops / sizeof *fops, NULL, fleaf, 3, 4};
static const scen_t sc[] = {MC_SEQ(seq), MC_DOM(cls), MC_SEQ(full)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
