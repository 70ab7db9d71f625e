/* C14: memory is recycled and the footprint stays bounded */
#include "../mm.h"
#ifndef MC_BIG_FREE_LIST
#define MC_BIG_FREE_LIST 64
#endif
#ifndef MC_BIG_RETIRE
#define MC_BIG_RETIRE 16
#endif
#ifndef MC_RETIRE
#define MC_RETIRE 32
#endif
/* mappings made while a big allocation was requested belong to that allocation */
typedef struct { uintptr_t r[4][2]; int n; uintptr_t user; size_t usz; int uses; bool live, perm; } big_t;
static big_t bigs[256]; static int nbigs;
static bool in_big; static big_t nb;
static void event(int kind, uintptr_t a, size_t n, int prot) {
    (void) prot;
    if(kind == FK_MMAP && in_big && nb.n < 4) { nb.r[nb.n][0] = a; nb.r[nb.n][1] = a + n; nb.n++; }
}
static int bigof(const void *p) { for(int i = nbigs - 1; i >= 0; i--) if(bigs[i].user == (uintptr_t) p) return i; return -1; }
static bool mapped(uintptr_t s, uintptr_t e) { for(int i = 0; i < nsegs; i++) if(segs[i].s < e && s < segs[i].e) return true; return false; }
static bool user_mapped(big_t *b) { return mapped(b->user, b->user + b->usz); }
static void big_gone(int i) { /* its user pages are gone: so must be everything mapped for it */
    for(int k = 0; k < bigs[i].n; k++)
        if(mapped(bigs[i].r[k][0], bigs[i].r[k][1])) mc_fail("the user pages of a big allocation were unmapped, but a mapping of %zu bytes made for it remains", bigs[i].r[k][1] - bigs[i].r[k][0]);
}
static void big_check(void) {
    int kept = 0;
    for(int i = 0; i < nbigs; i++) {
        if(bigs[i].live || bigs[i].perm) continue;
        if(!user_mapped(&bigs[i])) { big_gone(i); bigs[i] = bigs[--nbigs]; i--; continue; }
        if(bigs[i].uses >= MC_BIG_RETIRE) mc_fail("a big allocation used %d times (lifetime %d) is still kept", bigs[i].uses, MC_BIG_RETIRE);
        kept++;
    }
    if(kept > MC_BIG_FREE_LIST) mc_fail("%d freed big allocations are retained, more than the %d the free list is for", kept, MC_BIG_FREE_LIST);
    if(env.bad_munmap) mc_fail("the allocator asked the kernel for an impossible unmapping (its pages stay mapped)");
    mc_eval(1);
}
static void big_new(void *p) {
    int i = bigof(p);
    if(nb.n == 0) { /* recycled */
        if(i < 0 || bigs[i].live) mc_fail("big allocation at %p was neither mapped nor recycled", p);
        bigs[i].live = true;
        if(++bigs[i].uses > MC_BIG_RETIRE) mc_fail("a big allocation was handed out %d times, lifetime %d", bigs[i].uses, MC_BIG_RETIRE);
    } else {
        if(i >= 0) { bigs[i] = bigs[--nbigs]; }
        nb.user = (uintptr_t) p; nb.usz = iso_chunksz(p); nb.uses = 1; nb.live = true; nb.perm = false;
        if(nbigs >= 256) mc_fail("harness: bigs");
        bigs[nbigs++] = nb;
    }
}
static void *balloc(size_t n) {
    in_big = true; nb.n = 0;
    void *p = iso_alloc(n);
    in_big = false;
    if(!p) mc_fail("iso_alloc(%zu) returned NULL", n);
    big_new(p);
    return p;
}
static void binit(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_DOWN, PL_REUSE};
    env_reset(pol[v & 3]);
    env.on_event = event;
    if(v & 4) { env.gmode = 1; env.gconst = v & 8 ? 0 : ~0UL; } /* extreme positions of the metadata inside its page */
    iso_alloc_initialize();
    nbigs = 0;
}
static void alloc(int n) { void *p = n > 65536 ? balloc(n) : iso_alloc(n); m_add(p, n, -1); }
static bool has(int i) { return i < 0 ? nlive >= -i : nlive > i; }
static int ix(int i) { return i < 0 ? nlive + i : i; }
static void dead(void *p, bool perm) { int i = bigof(p); if(i >= 0) { bigs[i].live = false; bigs[i].perm = perm; } }
static void fr(int i) { blk_t b = m_take(ix(i)); iso_free(b.p); if(b.req > 65536) dead(b.p, false); iso_flush_caches(); }
static void frs(int i) { blk_t b = m_take(ix(i)); iso_free_size(b.p, b.req); if(b.req > 65536) dead(b.p, false); }
static void frp(int i) { blk_t b = m_take(ix(i)); iso_free_permanently(b.p); if(b.req > 65536) dead(b.p, true); }
static void cyc(int n) { for(int i = 0; i < 3; i++) { void *p = balloc(n); *(char *) p = 1; iso_free_size(p, n); dead(p, false); big_check(); } }
static void rea(int n) {
    blk_t b = m_take(nlive - 1);
    in_big = n > 65536; nb.n = 0;
    void *r = iso_realloc(b.p, n);
    in_big = false;
    if(n > 65536) big_new(r);
    if(b.req > 65536) dead(b.p, false);
    m_add(r, n, -1);
}
static void bnode(void) { big_check(); m_check_all(); }
static void bleaf(void) {
    m_outcome();
    while(nlive) { blk_t b = m_take(nlive - 1); iso_free(b.p); if(b.req > 65536) dead(b.p, false); }
    iso_flush_caches();
    big_check();
    iso_verify_zones();
    for(int i = 0; i < 2 * MC_BIG_RETIRE && i < 12; i++) cyc(i & 1 ? 65537 : 90000);
    big_check();
    char why[300];
    if(!env_check_maps(why, sizeof why)) mc_fail("%s", why);
}
static const op_t bops[] = {
    {"alloc", NULL, alloc, 65537}, {"alloc", NULL, alloc, 77825}, {"alloc", NULL, alloc, 90113}, {"alloc", NULL, alloc, 300000}, {"alloc", NULL, alloc, 64},
    {"free", has, fr, 0}, {"free", has, fr, 1}, {"free", has, fr, -1}, {"free_size", has, frs, 0}, {"free_perm", has, frp, 0}, {"realloc", has, rea, 80000}, {"realloc", has, rea, 400000}, {"realloc", has, rea, 64}, {"cycle", NULL, cyc, 65537},
};
static bool has1(int n) { (void) n; return nlive > 0; }
static op_t bops2[sizeof bops / sizeof *bops];
static const seq_t bigseq = {"big", binit, 6, bops2, sizeof bops / sizeof *bops, bnode, bleaf, 3, 5};

/* every big size through many cycles, alone and in pairs */
static size_t B[400]; static int nB;
static void sinit(int v) { binit(v); nB = m_bigsizes(B); while(nB && B[nB - 1] > (1UL << 28)) nB--; int k = 0; for(int i = 0; i < nB; i++) if(B[i] <= 1UL << 28) B[k++] = B[i]; nB = k; }
static long scount(int v) { (void) v; return nB; }
static void sitem(long k) {
    size_t n = B[k], m = 0;
    mc_note(" big size %zu", n);
    for(int i = 0; i < 4 * MC_BIG_RETIRE; i++) {
        void *p = balloc(n), *q = balloc(n + 4096), *r = i % 3 ? balloc(n) : NULL;
        ((char *) p)[0] = 1; ((char *) q)[n] = 1;
        iso_free(p); iso_flush_caches(); dead(p, false); big_check();
        iso_free_size(q, n + 4096); dead(q, false); big_check();
        if(r) { iso_free(r); iso_flush_caches(); dead(r, false); big_check(); }
        if(i < 2 * MC_BIG_RETIRE) { if(env.mapped_bytes > m) m = env.mapped_bytes; }
        else if(env.mapped_bytes > m) mc_fail("cycling %zu bytes: %zu bytes mapped after %d cycles, never more than %zu before", n, env.mapped_bytes, i, m);
    }
    mc_nontrivial(n);
}
static const dom_t bigsz = {"bigsizes", sinit, 6, scount, sitem, 1};

/* retirement of every size class */
static void rinit(int v) { m_start(v); iso_flush_caches(); }
static long rcount(int v) { (void) v; return 16384 / 32 + 1; }
static bool gone(uintptr_t s, uintptr_t e) { for(uintptr_t a = s; a < e; a += PAGE) if(env_prot(a) >= 0) return false; return true; }
static long wat; static uintptr_t watch_s, watch_e;
static void wev(int kind, uintptr_t a, size_t n, int prot) { (void) prot; if(kind == FK_MUNMAP && a <= watch_s && a + n >= watch_e) wat++; }
static void ritem(long k) {
    size_t n = (k + 1) * 32;
    mc_note(" class %zu", n);
    /* a zone of exactly this size, all to itself */
    int own = nlive;
    uint8_t *p;
    void *x[4];
    for(int i = 0; i < 4; i++) { x[i] = iso_alloc(n); m_add(x[i], n, -1); }
    p = x[3];
    const seg_t *g = env_seg((uintptr_t) p);
    size_t chunk = iso_chunksz(p), cnt = 4194304 / chunk;
    bool retirable = chunk < 16384;
    watch_s = g->s; watch_e = g->e; wat = 0;
    env.on_event = wev;
    size_t hi = env.mapped_bytes;
    /* with live chunks in it the zone stays, however much it is used */
    for(size_t i = 0; i < cnt * MC_RETIRE + 64; i++) { void *q = iso_alloc(n); iso_free_size(q, n); }
    if(wat) mc_fail("a zone of %zu byte chunks was unmapped with live chunks in it", chunk);
    m_check_all();
    for(int i = 3; i >= 0; i--) { blk_t b = m_take(own + i); iso_free_size(b.p, n); }
    bool others = false; /* the class shares a zone with start-state allocations: they hold it back */
    for(int i = 0; i < nlive; i++) if((uintptr_t) live[i].p >= watch_s && (uintptr_t) live[i].p < watch_e) others = true;
    if(retirable && !others) {
        if(!wat) { /* allow one more use */ for(int i = 0; i < 64 && !wat; i++) { void *q = iso_alloc(n); iso_free_size(q, n); } }
        /* other chunks of that zone may still wait in no list: everything was freed directly */
        if(!wat) mc_fail("a zone of %zu byte chunks was not retired after %zu allocations with none left in use", chunk, cnt * MC_RETIRE + 64);
    }
    if(!retirable && wat) mc_note("retired");
    if(wat && env.policy == PL_SPREAD && !gone(watch_s, watch_e)) mc_fail("the memory of a retired zone is still mapped");
    /* a second complete lifetime costs nothing */
    size_t m = env.mapped_bytes; if(m < hi) m = hi;
    for(size_t i = 0; i < 2 * (cnt * MC_RETIRE + 64); i++) { void *q = iso_alloc(n); iso_free_size(q, n); }
    if(env.mapped_bytes > m) mc_fail("retiring zones of %zu byte chunks grows the footprint from %zu to %zu bytes", chunk, m, env.mapped_bytes);
    if(env.bad_munmap) mc_fail("impossible unmapping requested");
    m_check_all();
    iso_verify_zones();
    mc_eval(2); mc_nontrivial(chunk * 2 + !!wat);
    m_audit();
}
static const dom_t retire = {"retire", rinit, 8, rcount, ritem, 1};

/* every short pattern, repeated: the footprint reaches a fixed point */
enum { NP = 14 };
static const char *pn[NP] = {"a64", "a8192", "a40000", "a65537", "a200000", "f0", "f-1", "fs-1", "r100", "r100000", "zone", "zalloc", "flush", "zdestroy"};
static void linit(int v) { static const int pol[] = {PL_SPREAD, PL_REUSE}; env_reset(pol[v & 1]); iso_alloc_initialize(); nzt = 0; }
static long plen = 4;
static long lcount(int v) { (void) v; if(!mc_thorough) plen = 3; long n = 1; for(int i = 0; i < plen; i++) n *= NP; return n; }
static void lf(int i) { blk_t b = live[i]; memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--; if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p); }
static void *lh; static int ldest;
static void pstep(int o) {
    static const size_t sz[] = {64, 8192, 40000, 65537, 200000};
    switch(o) {
    case 0: case 1: case 2: case 3: case 4: { void *p = iso_alloc(sz[o]); if(!p) mc_fail("NULL"); live[nlive++] = (blk_t){p, sz[o], 0, 0, -1, 0}; *(char *) p = 1; break; }
    case 5: if(nlive) lf(0); break;
    case 6: if(nlive) lf(nlive - 1); break;
    case 7: if(nlive && live[nlive - 1].zone < 0) { blk_t b = live[--nlive]; iso_free_size(b.p, b.req); } break;
    case 8: case 9: if(nlive && live[nlive - 1].zone < 0) { size_t n = o == 8 ? 100 : 100000; live[nlive - 1].p = iso_realloc(live[nlive - 1].p, n); live[nlive - 1].req = n; } break;
    case 10: if(!lh) { lh = iso_alloc_new_zone(8192); zt[0].h = lh; } break;
    case 11: if(lh) { void *p = iso_alloc_from_zone(lh); if(!p) mc_fail("zone full"); live[nlive++] = (blk_t){p, 8192, 0, 0, 0, 0}; } break;
    case 12: iso_flush_caches(); break;
    case 13: if(lh) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == 0) { memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--; } iso_alloc_destroy_zone(lh); lh = NULL; ldest++; } break;
    }
}
static void litem(long k) {
    int o[8]; long q = k;
    for(int i = 0; i < plen; i++) { o[i] = q % NP; q /= NP; mc_note(" %s", pn[o[i]]); }
    size_t m = 0, ms = 0; int d0 = 0;
    nlive = 0; lh = NULL; ldest = 0;
    for(int c = 0; c < 24; c++) {
        for(int i = 0; i < plen; i++) pstep(o[i]);
        while(nlive) lf(c & 1 ? 0 : nlive - 1);
        if(lh) pstep(13);
        iso_flush_caches();
        /* finding: each destroyed private zone leaves one general zone behind */
        size_t extra = (size_t) ldest * (4194304 + 2 * PAGE + 16384 + 2 * PAGE), x = env.mapped_bytes;
        if(ldest) { if(c == 23) { if(env.mapped_bytes > m + 4194304) mc_known("private-zone-slot", "%d private zones created and destroyed: footprint grew to %zu", ldest, env.mapped_bytes); } x = x > extra ? x - extra : 0; }
        if(c < 12) { if(x > m) m = x; if((size_t) nsegs > ms) ms = nsegs; d0 = ldest; }
        else {
            if(x > m) mc_fail("pattern repeated %d times: %zu bytes mapped, never more than %zu before", c, env.mapped_bytes, m);
            if((size_t) nsegs > ms + (ldest - d0) * 8) mc_fail("pattern repeated %d times: %d mappings, never more than %zu before", c, nsegs, ms);
        }
    }
    if(env.bad_munmap) mc_fail("impossible unmapping requested");
    mc_eval(24); mc_nontrivial(m);
}
static const dom_t loops = {"loops", linit, 2, lcount, litem, 1};

/* destroying a private zone of any size gives back every page that creating it mapped */
static void dinit(int v) { m_start(v & 1 ? 4 : 0); iso_flush_caches(); }
static long dcount(int v) { (void) v; return 2201; }
static struct { uintptr_t s, e; } dm[64]; static int ndm;
static void dev(int kind, uintptr_t a, size_t n, int prot) { (void) prot; if(kind == FK_MMAP && ndm < 64) { dm[ndm].s = a; dm[ndm++].e = a + n; } }
static void ditem(long k) {
    size_t n = k < 2048 ? (size_t) (k + 1) * 32 : k == 2048 ? 16 : k == 2049 ? 8 : k == 2050 ? 17 : (size_t) (k - 2050) * 431 + 5;
    if(n > 65536) n = 65536;
    mc_note(" zone of %zu", n);
    for(int round = 0; round < 3; round++) {
        ndm = 0; env.on_event = dev;
        void *h = iso_alloc_new_zone(n);
        env.on_event = NULL;
        if(!h) mc_fail("no zone of %zu", n);
        int j = round == 0 ? 0 : round == 1 ? 1 : 40;
        void *q[40];
        for(int i = 0; i < j; i++) { q[i] = iso_alloc_from_zone(h); if(q[i]) *(volatile char *) q[i] = 1; }
        for(int i = 0; i < j; i++) if(q[i] && i & 1) iso_free_from_zone(q[i], h);
        iso_alloc_destroy_zone(h);
        for(int i = 0; i < ndm; i++) if(!gone(dm[i].s, dm[i].e)) {
            uintptr_t a = dm[i].s; while(env_prot(a) < 0) a += PAGE;
            mc_fail("a zone of %zu byte chunks was destroyed, but offset %#lx of the %#lx bytes mapped for it is still mapped", n, a - dm[i].s, dm[i].e - dm[i].s);
        }
        mc_eval(ndm);
    }
    if(env.bad_munmap) mc_fail("impossible unmapping requested");
    mc_nontrivial(n);
    m_audit();
}
static const dom_t dest = {"destroy", dinit, 2, dcount, ditem, 1};
static const scen_t sc[] = {MC_SEQ(bigseq), MC_DOM(bigsz), MC_DOM(retire), MC_DOM(loops), MC_DOM(dest)};
int main(int c, char **v) {
    memcpy(bops2, bops, sizeof bops);
    for(unsigned i = 0; i < sizeof bops / sizeof *bops; i++) if(bops2[i].run == rea) bops2[i].enabled = has1;
    return mc_main(c, v, sc, 5);
}
