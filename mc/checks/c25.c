/* C25: between calls the zone table and the big allocation records hold no plain address
 * of zone memory, bitmaps or other records. */
#include "../mm.h"
static uintptr_t usr[512][2]; static int nusr; /* pages ever handed out by the big path */
static bool is_usr(uintptr_t a) { for(int i = 0; i < nusr; i++) if(a >= usr[i][0] && a < usr[i][1]) return true; return false; }
static void seen(blk_t *b) { if(b->req > 65536) { const seg_t *s = env_seg((uintptr_t) b->p); uintptr_t e = ((uintptr_t) b->p + b->use + PAGE - 1) & ~(PAGE - 1); (void) s; if(nusr < 512) { usr[nusr][0] = (uintptr_t) b->p; usr[nusr++][1] = e; } } }
void c25_exempt(uintptr_t *a, int *n); /* the segments that hold plain addresses by design */
void c25_heads(uintptr_t *h, int *n);
static uintptr_t tab_s; void c25_table(uintptr_t *s);
static long words;
static void scan(void) {
    uintptr_t ex[8]; int nex; c25_exempt(ex, &nex);
    for(int i = 0; i < nsegs; i++) {
        if(segs[i].prot != RW) continue;
        if(segs[i].e - segs[i].s >= (1UL << 22) && segs[i].s != tab_s) continue; /* user pages of a zone */
        if(is_usr(segs[i].s)) continue;
        bool skip = false;
        for(int j = 0; j < nex; j++) if(ex[j] >= segs[i].s && ex[j] < segs[i].e) skip = true;
        if(skip) continue;
        for(uintptr_t a = segs[i].s; a < segs[i].e; a += 8) {
            uintptr_t v = *(uintptr_t *) a;
            if(v < 0x100000) continue;
            words++;
            /* addresses count when they point into anything the allocator has mapped, a little before or after included */
            uintptr_t u = v & 0x00ffffffffffffffUL;
            const seg_t *s = env_seg(u);
            if(!s || is_usr(u)) continue;
            mc_fail("the word at %p (offset %lu of a metadata mapping of %lu bytes) holds the plain address %p, which is %s", (void *) a, (unsigned long) (a - segs[i].s), (unsigned long) (segs[i].e - segs[i].s), (void *) v, s->e - s->s >= (1UL << 22) ? "user memory of a zone" : "allocator metadata");
        }
    }
    uintptr_t h[4]; int nh; c25_heads(h, &nh);
    for(int i = 0; i < nh; i++) if(h[i] && env_seg(h[i])) mc_fail("the head of big allocation list %d is the plain address %p", i, (void *) h[i]);
    mc_eval(1);
}
static bool naming;
static void handle(void *h) {
    if(!h) mc_fail("no zone");
    if(naming && env_seg((uintptr_t) h)) mc_fail("the zone handle %p is an address inside the allocator's mappings", h);
    for(int i = 0; i < nzt; i++) if(zt[i].live && zt[i].h == h) mc_fail("two zones share the handle %p", h);
}
static const size_t A[] = {24, 500, 8192, 70000, 200000};
static void o_alloc(int k) { seen(m_add(iso_alloc(A[k]), A[k], -1)); }
static bool o_len(int k) { return k < nlive; }
static void o_free(int k) { blk_t b = m_take(nlive - 1 - k); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p); }
static void o_fsize(int k) { blk_t b = m_take(k); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free_size(b.p, b.req); }
static void o_fperm(int k) { blk_t b = m_take(nlive - 1 - k); if(b.zone >= 0) iso_free_from_zone_permanently(b.p, zt[b.zone].h); else iso_free_permanently(b.p); }
static void o_zone(int k) { if(nzt >= 60) return; void *h = iso_alloc_new_zone(k); handle(h); zt[nzt] = (mz_t){h, k, 0, 0, 0, true}; m_add(iso_alloc_from_zone(h), k, nzt); nzt++; }
static bool z_en(int k) { return nzt > 0 && zt[nzt - 1].live; }
static void o_zalloc(int k) { m_add(iso_alloc_from_zone(zt[nzt - 1].h), zt[nzt - 1].csz, nzt - 1); }
static void o_zdestroy(int k) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == nzt - 1) m_take(i); zt[nzt - 1].live = false; iso_alloc_destroy_zone(zt[nzt - 1].h); }
static void o_misc(int k) {
    switch(k) {
    case 0: iso_flush_caches(); break;
    case 1: iso_verify_zones(); break;
    case 2: (void) iso_alloc_detect_leaks(); (void) iso_alloc_mem_usage(); break;
    case 3: if(nzt && zt[nzt - 1].live) { iso_verify_zone(zt[nzt - 1].h); (void) iso_alloc_detect_zone_leaks(zt[nzt - 1].h); (void) iso_alloc_zone_mem_usage(zt[nzt - 1].h); (void) iso_zone_chunk_count(zt[nzt - 1].h); iso_alloc_name_zone(zt[nzt - 1].h, "a"); } break;
    case 4: for(int i = 0; i < 4200000 / 8192 + 5; i++) { void *p = iso_alloc(8192); iso_free_size(p, 8192); } break;
    case 5: for(int i = 0; i < nlive; i++) (void) iso_chunksz(live[i].p); iso_alloc_protect_root(); iso_alloc_unprotect_root(); break;
    }
}
static void o_realloc(int n) { int i = nlive - 1; if(live[i].zone >= 0) return; blk_t b = m_take(i); seen(m_add(iso_realloc(b.p, n), n, -1)); }
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"alloc", NULL, o_alloc, 4},
    {"free", o_len, o_free, 0}, {"free", o_len, o_free, 1}, {"free_size", o_len, o_fsize, 0}, {"free_perm", o_len, o_fperm, 0}, {"realloc", o_len, o_realloc, 3000}, {"realloc", o_len, o_realloc, 90000},
    {"new_zone", NULL, o_zone, 64}, {"new_zone", NULL, o_zone, 8192}, {"zalloc", z_en, o_zalloc, 0}, {"zdestroy", z_en, o_zdestroy, 0},
    {"flush", NULL, o_misc, 0}, {"verify", NULL, o_misc, 1}, {"leaks", NULL, o_misc, 2}, {"zone_calls", NULL, o_misc, 3}, {"churn", NULL, o_misc, 4}, {"protect", NULL, o_misc, 5},
};
static void begin(void) { c25_table(&tab_s); scan(); }
static void hinit(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]); env.madv_drop = (v & 3) == 2;
    iso_alloc_initialize();
    nlive = nzt = nusr = 0; naming = true;
    if(v & 4) {
        static const size_t sz[] = {24, 64, 500, 1500, 8192, 9000, 65536, 65537, 150000, 24, 8192, 70000, 70000};
        for(int r = 0; r < 2; r++) for(unsigned i = 0; i < sizeof sz / sizeof *sz; i++) seen(m_add(iso_alloc(sz[i]), sz[i], -1));
        for(int i = nlive - 1; i >= 0; i -= 2) iso_free(m_take(i).p);
        iso_flush_caches();
        for(int i = nlive - 1; i >= 0; i -= 3) iso_free(m_take(i).p);
    }
    begin();
}
static void node(void) { scan(); m_check_all(); }
static void leaf(void) { m_audit(); }
static const seq_t hist = {"history", hinit, 8, ops, sizeof ops / sizeof *ops, node, leaf, 3, 4};
/* every mask: constants from the entropy source and from the generator */
static void minit(int v) { (void) v; }
static uint64_t maskval(long k) {
    if(k < 64) return 1UL << k;
    if(k < 128) return ~(1UL << (k - 64));
    static const uint64_t x[] = {0, ~0UL, 0xfff, ~0xfffUL, 0xffff000000000000UL, 0x0000ffffffffffffUL, 0x0000fffffffff000UL, 0x5555555555555555UL, 0xaaaaaaaaaaaaaaaaUL, 0x7fffffffffffffffUL, 0xff00000000000000UL, 0x00000000ffffffffUL, 0xffffffff00000000UL, 0x100000000000UL, 0x8000000000000001UL, 0xdeadbeefcafebabeUL};
    return x[k - 128];
}
static long mcount(int v) { (void) v; return 144 * 3; }
static void mitem(long k) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    int m = k % 3; uint64_t x = maskval(k / 3);
    env_reset(pol[mc_variant & 3]);
    if(m != 1) { env.rmode = RM_CONST; env.rconst = x; }
    if(m != 0) { env.gmode = 1; env.gconst = x; }
    mc_note("mask %#lx ", x);
    iso_alloc_initialize();
    nlive = nzt = 0; naming = false;
    for(int r = 0; r < 2; r++) {
        for(int i = 0; i < 5; i++) o_alloc(i);
        o_zone(64); o_zone(8192); o_zalloc(0); o_misc(3);
        for(int i = 0; i < 5; i++) o_alloc(4 - i);
        o_fsize(0); o_free(3); o_fperm(1); o_misc(0); o_misc(1);
        o_alloc(3); o_realloc(90000); o_realloc(100); o_zdestroy(0); o_misc(2); o_misc(1);
        m_check_all();
        mc_eval(1);
    }
    if(m == 2 || (x & 0x0000fffffffff000UL)) mc_nontrivial(k);
    m_audit();
}
static const dom_t masks = {"masks", minit, 4, mcount, mitem, 1};
static const scen_t sc[] = {MC_SEQ(hist), MC_DOM(masks)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
