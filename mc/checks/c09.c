/* C09: private zones: own region, promised capacity, reuse, destruction */
#include "../mm.h"
#ifndef MC_MAX_ZONES
#define MC_MAX_ZONES 8192
#endif
static size_t S[4000]; static int nS;
static void init(int v) {
    m_start(v);
    nS = 0;
    S[nS++] = 0; S[nS++] = 1; S[nS++] = 15; S[nS++] = 16; S[nS++] = 17; S[nS++] = 31;
    for(size_t c = 32; c <= 65536; c += 32) { S[nS++] = c; if(c % 992 == 0) { S[nS++] = c + 1; S[nS++] = c - 1; } }
    static const size_t bad[] = {65537, 65568, 69632, 131072, 1 << 20, 1 << 22, 1UL << 31, 1UL << 32, (1UL << 32) + 1, (1UL << 32) + 64, 1UL << 47, 1UL << 63, SIZE_MAX, SIZE_MAX - 31, SIZE_MAX - 63};
    for(unsigned i = 0; i < sizeof bad / sizeof *bad; i++) S[nS++] = bad[i];
}
static long count(int v) { (void) v; return nS; }
static uint8_t *ch[140000];
static const seg_t *reg(const void *p) { return env_seg((uintptr_t) p); }
static void foreign(const seg_t *s, const char *w) {
    for(int i = 0; i < nlive; i++) if((uintptr_t) live[i].p >= s->s && (uintptr_t) live[i].p < s->e) mc_fail("%s: the zone's region holds a chunk that is not its own", w);
}
static void item(long k) {
    size_t n = S[k];
    mc_note(" zone of %zu byte chunks", n);
    void *h = iso_alloc_new_zone(n);
    if(n > 65536) {
        if(h) mc_fail("iso_alloc_new_zone(%#zx) returned a handle", n);
        /* and the missing handle is harmless */
        if(iso_alloc_from_zone(h)) mc_fail("allocation from no zone");
        iso_alloc_destroy_zone(h);
        iso_verify_zone(h);
        m_audit();
        mc_eval(1);
        return;
    }
    if(!h) mc_fail("iso_alloc_new_zone(%zu) returned NULL", n);
    size_t want = iso_zone_chunk_count(h), lo = 0;
    if(want < 1) mc_fail("zone of %zu byte chunks promises no chunk", n);
    uint8_t *p; size_t got = 0, csz = 0;
    const seg_t *s = NULL; seg_t region = {0};
    while((p = iso_alloc_from_zone(h))) {
        if(got == 0) {
            csz = iso_chunksz(p);
            if(csz < n || csz < 8) mc_fail("zone of %zu byte chunks gives chunks of %zu", n, csz);
            s = reg(p);
            if(!s || s->prot != RW) mc_fail("private chunk is not readable and writable");
            region = *s;
            foreign(s, "private zone");
        }
        if((uintptr_t) p < region.s || (uintptr_t) p + csz > region.e) mc_fail("chunk %zu of the zone lies outside its region", got);
        if(((uintptr_t) p - region.s) % csz) mc_fail("misaligned chunk");
        if(got >= 140000) mc_fail("zone never ends");
        ch[got++] = p;
        *(uint64_t *) p = got; *(uint64_t *) (p + csz - 8) = ~got;
        if(csz == 8) *(uint64_t *) p = got;
        if(got < 4) { m_add(iso_alloc(n), n, -1); m_add(iso_alloc(100), 100, -1); }
    }
    (void) lo;
    if(got < want) mc_fail("zone of %zu byte chunks promises %zu chunks and holds %zu", n, want, got);
    if(got * csz > region.e - region.s) mc_fail("zone holds more chunks than its region has room for");
    for(size_t i = 0; i < got; i++) if(*(uint64_t *) ch[i] != i + 1 || *(uint64_t *) (ch[i] + csz - 8) != ~(i + 1)) mc_fail("chunk %zu of a full zone of %zu byte chunks was overwritten (two owners)", i, n);
    foreign(&region, "full private zone");
    if(iso_alloc_from_zone(h)) mc_fail("full zone gave a chunk");
    /* freeing returns room, exactly that much */
    size_t back = got > 5 ? 5 : got;
    for(size_t i = 0; i < back; i++) { size_t j = i * (got / back); if(i & 1) iso_free_from_zone(ch[j], h); else iso_free(ch[j]); }
    iso_flush_caches();
    for(size_t i = 0; i < back; i++) {
        p = iso_alloc_from_zone(h);
        if(!p) mc_fail("zone of %zu byte chunks: only %zu of %zu freed chunks became available again", n, i, back);
        bool ok = false;
        for(size_t j = 0; j < back; j++) ok |= ch[j * (got / back)] == p;
        if(!ok) mc_fail("full zone handed out a chunk nobody freed");
    }
    if(iso_alloc_from_zone(h)) mc_fail("zone of %zu byte chunks: more chunks than were freed", n);
    iso_verify_zone(h);
    /* general allocations never come from it, freed or not */
    for(size_t i = 0; i < got; i += 2) iso_free_from_zone(ch[i], h);
    for(int i = 0; i < 40; i++) { uint8_t *q = iso_alloc(n > 1 ? n - 1 : 1); if((uintptr_t) q >= region.s && (uintptr_t) q < region.e) mc_fail("a general allocation came from a private zone"); iso_free_size(q, n > 1 ? n - 1 : 1); }
    /* destruction with chunks in use */
    long nmun = env.n_munmap;
    iso_alloc_destroy_zone(h);
    if(env.policy != PL_REUSE && env.policy != PL_PACKED) {
        const seg_t *a = reg((void *) region.s);
        if(a && a->prot != PROT_NONE) mc_fail("the memory of a destroyed zone is still accessible");
        for(uintptr_t q = region.s; q < region.e; q += 65536) if(env_prot(q) > 0) mc_fail("the memory of a destroyed zone is still accessible");
    }
    if(env.n_munmap == nmun) mc_fail("destroying a zone unmapped nothing");
    m_check_all();
    iso_verify_zones();
    mc_eval(4);
    mc_nontrivial(csz * 65537 + got - want);
    m_audit();
}
static const dom_t classes = {"classes", init, 8, count, item, 1};

/* several zones in every order, up to and at the capacity of the zone table */
static const size_t Z[] = {64, 8192, 65536};
static int capn;
static void cinit(int v) {
    m_start(v & 3);
    iso_flush_caches();
    nzt = 0;
    capn = v >= 4 ? 1 : 0; /* start with the zone table nearly full */
    if(capn) for(;;) {
        if(nzt >= MC_MAX_ZONES) break;
        void *mk(void);
        int d; extern void try_new(void *);
        d = mc_death(try_new, NULL);
        if(d != D_OK) break;
        void *h = iso_alloc_new_zone(8192); zt[nzt++] = (mz_t){h, 8192, 0, 0, 0, true};
    }
    if(capn) { for(int i = 0; i < 2 && i < nzt; i++) { void *p = iso_alloc_from_zone(zt[i].h); m_add(p, 8192, i); } }
}
static int zi(int a) { /* a-th live zone from the end */
    for(int i = nzt - 1; i >= 0; i--) if(zt[i].live && a-- == 0) return i;
    return -1;
}
static bool zen(int a) { return zi(a) >= 0; }
static const size_t *gsz = Z;
void try_new(void *a) { void *h = iso_alloc_new_zone(a ? *(size_t *) a : 8192); if(!h) _exit(1); }
static bool nen(int k) { (void) k; return nzt < 60; }
static void region_check(uint8_t *p, size_t n, int zone) {
    const seg_t *s = reg(p);
    for(int i = 0; i < nlive; i++) if(live[i].p != p && live[i].zone != zone && (uintptr_t) live[i].p >= s->s && (uintptr_t) live[i].p < s->e && (uintptr_t) (live[i].p) / (1UL << 32) == (uintptr_t) p / (1UL << 32))
        if(env.policy == PL_SPREAD || (s->e - s->s) == 4194304) mc_fail("chunk %p (zone %d) shares a region with %p (zone %d)", (void *) p, zone, (void *) live[i].p, live[i].zone);
    (void) n;
}
static void o_new(int k) {
    size_t sz = gsz[k];
    int d = mc_death(try_new, &sz);
    if(d == D_ABORT || d == D_OTHER) { /* the table is full: allowed to refuse, but only then */
        int used = 0; for(int i = 0; i < nzt; i++) used += zt[i].live;
        if(used + 3 < MC_MAX_ZONES - 24) mc_fail("no new zone with only %d private zones", used);
        return;
    }
    if(d != D_OK) mc_fail("creating a zone crashed");
    void *h = iso_alloc_new_zone(sz);
    zt[nzt++] = (mz_t){h, sz, 0, 0, 0, true};
}
static void o_zalloc(int a) {
    int z = zi(a);
    void *p = iso_alloc_from_zone(zt[z].h);
    if(!p) { /* only a full zone may say no */
        size_t have = 0, want = iso_zone_chunk_count(zt[z].h);
        for(int i = 0; i < nlive; i++) have += live[i].zone == z;
        if(have < want) mc_fail("zone of %zu byte chunks refuses with %zu of %zu promised chunks in use", zt[z].csz, have, want);
        mc_note("!");
        return;
    }
    m_add(p, zt[z].csz, z); region_check(p, zt[z].csz, z);
}
static void o_zfill(int a) { /* to the promised count */
    int z = zi(a);
    size_t have = 0, want = iso_zone_chunk_count(zt[z].h);
    for(int i = 0; i < nlive; i++) have += live[i].zone == z;
    if(want > 2000) want = 20;
    for(; have < want && nlive < MAXLIVE - 100; have++) { void *p = iso_alloc_from_zone(zt[z].h); if(!p) mc_fail("zone %d (%zu byte chunks) full at %zu of %zu promised chunks", z, zt[z].csz, have, want); m_add(p, zt[z].csz, z); }
}
static bool zhas(int a) { int z = zi(a); if(z < 0) return false; for(int i = 0; i < nlive; i++) if(live[i].zone == z) return true; return false; }
static blk_t takez(int z) { for(int i = 0; i < nlive; i++) if(live[i].zone == z) { blk_t b = live[i]; memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--; return b; } mc_fail("harness"); }
static void o_zfree(int a) { int z = zi(a & 1); blk_t b = takez(z); if(a & 2) iso_free(b.p); else iso_free_from_zone(b.p, zt[z].h); }
static bool zf_en(int a) { return zhas(a & 1); }
static void o_destroy(int a) {
    int z = zi(a);
    seg_t g[4]; int ng = 0;
    for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z) { if(ng < 1) g[ng++] = *reg(live[i].p); memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--; }
    iso_alloc_destroy_zone(zt[z].h);
    zt[z].live = false;
    if(ng && env.policy == PL_SPREAD && env_prot(g[0].s) > 0) mc_fail("the memory of a destroyed zone is still accessible");
}
static void try_alloc(void *a) { if(!iso_alloc(*(size_t *) a)) _exit(1); }
static void o_alloc(int k) {
    size_t n = k;
    if(capn) { /* no room for a zone of a new size: allowed to refuse, but only then */
        int d = mc_death(try_alloc, &n), used = 0;
        for(int i = 0; i < nzt; i++) used += zt[i].live;
        if(d == D_ABORT && used + 3 >= MC_MAX_ZONES - 24) return;
    }
    void *p = iso_alloc(n);
    m_add(p, n, -1); region_check(p, n, -1);
}
static void o_flush(int k) { (void) k; iso_flush_caches(); }
static bool ghas(int k) { (void) k; for(int i = 0; i < nlive; i++) if(live[i].zone < 0) return true; return false; }
static void o_free(int k) { (void) k; for(int i = 0; i < nlive; i++) if(live[i].zone < 0) { blk_t b = m_take(i); iso_free(b.p); return; } }
static void node(void) { for(int i = 0; i < nlive && i < 40; i++) m_check(&live[i]); }
static void leaf(void) {
    m_outcome();
    m_check_all(); iso_verify_zones();
    for(int i = 0; i < nzt; i++) if(zt[i].live) { /* promised chunks are really there */ int a = 0; for(int j = nzt - 1; j > i; j--) a += zt[j].live; o_zfill(a); }
    m_check_all();
    while(nlive) { blk_t b = m_take(nlive - 1); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p); }
    for(int i = 0; i < nzt; i++) if(zt[i].live) iso_alloc_destroy_zone(zt[i].h);
    iso_flush_caches();
    iso_verify_zones();
}
static const op_t ops[] = {
    {"new", nen, o_new, 0}, {"new", nen, o_new, 1}, {"new", nen, o_new, 2}, {"zalloc", zen, o_zalloc, 0}, {"zalloc", zen, o_zalloc, 1}, {"zfill", zen, o_zfill, 0},
    {"zfree", zf_en, o_zfree, 0}, {"zfree", zf_en, o_zfree, 3}, {"destroy", zen, o_destroy, 0}, {"destroy", zen, o_destroy, 1},
    {"alloc", NULL, o_alloc, 64}, {"alloc", NULL, o_alloc, 8192}, {"alloc", NULL, o_alloc, 65500}, {"free", ghas, o_free, 0}, {"flush", NULL, o_flush, 0},
};
static const seq_t zones = {"zones", cinit, 8, ops, sizeof ops / sizeof *ops, node, leaf, 3, 5};

/* many zones of one size at once, in every create/destroy order of a small family: none of
 * them disturbs another (bookkeeping of zones of one size shares pages) */
static void minit(int v) { m_start(v & 1 ? 4 : 0); iso_flush_caches(); }
static const size_t msz[] = {256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 3000, 20000, 16};
static long mcount(int v) { (void) v; return 12 * 6; }
static struct { void *h; uint8_t *q[4]; } many[160];
static void mfill(int z, size_t n) {
    for(int j = 0; j < 4; j++) {
        uint8_t *p = iso_alloc_from_zone(many[z].h);
        if(!p) mc_fail("zone %d of %zu byte chunks is full after %d allocations", z, n, j);
        for(int y = 0; y < 160; y++) if(many[y].h) for(int k = 0; k < (y == z ? j : 4); k++) if(many[y].q[k] == p) mc_fail("zones %d and %d of %zu byte chunks gave the same chunk", y, z, n);
        many[z].q[j] = p;
        for(int k = 0; k < 2; k++) ((uint64_t *) p)[k ? (n / 8) - 1 : 0] = z * 8 + j;
    }
}
static void mchk(size_t n) {
    for(int z = 0; z < 160; z++) if(many[z].h) for(int j = 0; j < 4; j++)
        for(int k = 0; k < 2; k++) if(((uint64_t *) many[z].q[j])[k ? (n / 8) - 1 : 0] != (uint64_t) (z * 8 + j)) mc_fail("chunk %d of zone %d (%zu byte chunks) was overwritten", j, z, n);
}
static void mdel(int z) {
    int k = z % 3;
    for(int j = 0; j < k; j++) iso_free_from_zone(many[z].q[j], many[z].h);
    iso_alloc_destroy_zone(many[z].h);
    many[z].h = NULL;
}
static void mitem(long k) {
    size_t n = msz[k / 6]; int how = k % 6, N = n < 1024 ? 40 : 150;
    mc_note(" %d zones of %zu, order %d", N, n, how);
    for(int z = 0; z < N; z++) { many[z].h = iso_alloc_new_zone(n); if(!many[z].h) mc_fail("no zone"); if(how & 1) mfill(z, n); }
    if(!(how & 1)) for(int z = 0; z < N; z++) mfill(z, n);
    mchk(n);
    for(int i = 0; i < N; i++) { int z = how < 2 ? i : how < 4 ? N - 1 - i : (i * 7) % N; if(i % 3 != 1 && many[z].h) mdel(z); }
    mchk(n);
    for(int z = 0; z < N; z++) if(!many[z].h) { many[z].h = iso_alloc_new_zone(n); if(!many[z].h) mc_fail("no zone"); mfill(z, n); }
    mchk(n);
    iso_verify_zones();
    for(int z = 0; z < N; z++) {
        for(int j = 0; j < 4; j++) iso_free_from_zone(many[z].q[j], many[z].h);
        /* the bookkeeping of this zone is its own: every promised chunk can still be had */
        if(z % 11 == 0) {
            size_t want = iso_zone_chunk_count(many[z].h), got = 0; void *p;
            while((p = iso_alloc_from_zone(many[z].h))) got++;
            if(got < want) mc_fail("zone %d of %zu byte chunks promises %zu chunks and holds %zu", z, n, want, got);
        }
    }
    for(int z = 0; z < N; z++) { iso_alloc_destroy_zone(many[z].h); many[z].h = NULL; }
    iso_verify_zones();
    mc_eval(N); mc_nontrivial(k);
    m_audit();
}
static const dom_t manyd = {"many", minit, 2, mcount, mitem, 1};
static const scen_t sc[] = {MC_DOM(classes), MC_SEQ(zones), MC_DOM(manyd)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
