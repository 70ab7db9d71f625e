/* C01: every valid history succeeds; live allocations are exclusive and stable */
#include "../mm.h"

static void *pz[3]; static int pzi[3]; /* private zones in use */

static void init(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    if(v & 4) env.madv_drop = true;
    iso_alloc_initialize();
}
static void alloc(int sz) { m_add(iso_alloc(sz), sz, -1); }
static void callo(int sz) {
    blk_t *b = m_add_nofill(iso_calloc(1, sz), sz, -1);
    for(int i = 0; i < sz; i++) if(b->p[i]) mc_fail("calloc(1,%d): byte %d is %#x", sz, i, b->p[i]);
    m_fill(b);
}
static bool has(int i) { return i < 0 ? nlive >= -i : nlive > i; }
static int ix(int i) { return i < 0 ? nlive + i : i; }
static bool hasg(int i) { return has(i) && live[ix(i)].zone < 0; }
static void freeit(int i) {
    blk_t b = m_take(ix(i));
    if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p);
}
static void freesz(int i) { blk_t b = m_take(ix(i)); iso_free_size(b.p, b.req); }
static void freeperm(int i) { blk_t b = m_take(ix(i)); iso_free_permanently(b.p); }
static void realloc_(int sz) {
    blk_t b = live[nlive - 1];
    m_check(&b);
    /* the old allocation is gone only once the call returns */
    uint8_t *r = iso_realloc(b.p, sz);
    if(r == NULL) mc_fail("realloc to %d returned NULL", sz);
    size_t n = b.use < (size_t) sz ? b.use : (size_t) sz;
    nlive--;
    blk_t *nb = m_add_nofill(r, sz, -1);
    for(size_t i = 0; i < n; i++)
        if(i < HEAD && i < b.use && r[i] != m_byte(b.pat, i)) mc_fail("realloc(%zu -> %d): byte %zu differs", b.req, sz, i);
    m_fill(nb);
}
static bool genlast(int a) { (void) a; return nlive && live[nlive - 1].zone < 0; }
static void flush(int a) { (void) a; iso_flush_caches(); }
static void verify(int a) { (void) a; iso_verify_zones(); }
static bool nopz(int s) { (void) s; return !pz[0] && nzt < 60; }
static bool haspz(int s) { return pz[0] && (!s || 1); }
static void newz(int sz) {
    void *h = iso_alloc_new_zone(sz);
    if(!h) mc_fail("no zone for %d", sz);
    zt[nzt] = (mz_t){h, sz, 0, 0, 0, true};
    pz[0] = h; pzi[0] = nzt++;
}
static void zalloc(int a) { (void) a; void *p = iso_alloc_from_zone(pz[0]); m_add(p, zt[pzi[0]].csz, pzi[0]); }
static void zdestroy(int a) {
    (void) a;
    for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == pzi[0]) m_take(i);
    iso_alloc_destroy_zone(pz[0]);
    pz[0] = NULL;
}
static void churn(int sz) { /* enough allocations to age the zone past retirement */
    for(int i = 0; i < 4200000 / sz + 5; i++) {
        void *p = iso_alloc(sz);
        if(!p) mc_fail("churn: NULL");
        for(int j = 0; j < nlive; j++) if((uint8_t *) p < live[j].p + live[j].use && live[j].p < (uint8_t *) p + sz) mc_fail("churn: allocation overlaps a live one");
        memset(p, 0x55, 8);
        iso_free_size(p, sz);
    }
}
static void fill(int sz) { for(int i = 0; i < 4194304 / sz && nlive < MAXLIVE - 1; i++) m_add(iso_alloc(sz), sz, -1); }
static void node(void) { m_check_all(); }

static const op_t ops[] = {
    {"alloc", NULL, alloc, 24}, {"alloc", NULL, alloc, 64}, {"alloc", NULL, alloc, 1000}, {"alloc", NULL, alloc, 8192},
    {"alloc", NULL, alloc, 40000}, {"alloc", NULL, alloc, 65536}, {"alloc", NULL, alloc, 65537}, {"alloc", NULL, alloc, 100000},
    {"calloc", NULL, callo, 64}, {"free", has, freeit, 0}, {"free", has, freeit, -1}, {"free_size", hasg, freesz, -1},
    {"realloc", genlast, realloc_, 64}, {"realloc", genlast, realloc_, 100000}, {"flush", NULL, flush, 0}, {"verify", NULL, verify, 0},
    {"new_zone", nopz, newz, 4096}, {"zone_alloc", haspz, zalloc, 0}, {"zone_destroy", haspz, zdestroy, 0},
};
static const seq_t general = {"general", init, 4, ops, sizeof ops / sizeof *ops, node, m_audit, 3, 4};

static const op_t bigops[] = {
    {"alloc", NULL, alloc, 65537}, {"alloc", NULL, alloc, 81920}, {"alloc", NULL, alloc, 300000}, {"alloc", NULL, alloc, 64},
    {"free", has, freeit, 0}, {"free", has, freeit, 1}, {"free", has, freeit, -1}, {"free_size", hasg, freesz, 0},
    {"free_perm", hasg, freeperm, -1}, {"realloc", genlast, realloc_, 90000}, {"realloc", genlast, realloc_, 64}, {"flush", NULL, flush, 0}, {"verify", NULL, verify, 0},
};
static const seq_t big = {"big", init, 4, bigops, sizeof bigops / sizeof *bigops, node, m_audit, 4, 5};

static const op_t ageops[] = {
    {"alloc", NULL, alloc, 8192}, {"alloc", NULL, alloc, 64}, {"alloc", NULL, alloc, 8000}, {"alloc", NULL, alloc, 16320},
    {"free", has, freeit, 0}, {"free", has, freeit, -1}, {"flush", NULL, flush, 0}, {"verify", NULL, verify, 0},
    {"churn", NULL, churn, 8192}, {"churn", NULL, churn, 16320}, {"churn", NULL, churn, 64}, {"fill", NULL, fill, 8192}, {"fill", NULL, fill, 65536}, {"fill", NULL, fill, 40000},
};
static const seq_t age = {"age", init, 4, ageops, sizeof ageops / sizeof *ageops, node, m_audit, 3, 4};

/* private zones among general use: zones exist and hold chunks from the start, and their
 * chunks are released through every freeing call */
static void initp(int v) {
    init(v);
    static const int z[] = {256, 8192};
    for(int i = 0; i < 2; i++) {
        zt[i] = (mz_t){iso_alloc_new_zone(z[i]), z[i], 0, 0, 0, true};
        for(int k = 0; k < 2; k++) m_add(iso_alloc_from_zone(zt[i].h), z[i], i);
    }
    nzt = 2;
    alloc(200); alloc(8192);
}
static int lastz(int z) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z) return i; return -1; }
static bool zhas(int k) { return lastz(k & 1) >= 0; }
static void zfree(int k) {
    blk_t b = m_take(lastz(k & 1));
    switch(k >> 1) {
    case 0: iso_free(b.p); break;
    case 1: iso_free_from_zone(b.p, zt[b.zone].h); break;
    case 2: iso_free_size(b.p, b.req); break;
    case 3: iso_free_permanently(b.p); break;
    }
}
static bool zlive(int z) { return z < nzt && zt[z].live; }
static void zallocn(int z) { m_add(iso_alloc_from_zone(zt[z].h), zt[z].csz, z); }
static void zdestroyn(int z) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z) m_take(i); iso_alloc_destroy_zone(zt[z].h); zt[z].live = false; }
static bool znok(int a) { (void) a; return nzt < 10; }
static void znew(int sz) { zt[nzt] = (mz_t){iso_alloc_new_zone(sz), sz, 0, 0, 0, true}; if(!zt[nzt].h) mc_fail("no zone for %d", sz); m_add(iso_alloc_from_zone(zt[nzt].h), sz, nzt); nzt++; }
static const op_t privops[] = {
    {"iso_free zone chunk", zhas, zfree, 0}, {"iso_free zone chunk", zhas, zfree, 1}, {"free_from_zone", zhas, zfree, 2}, {"free_size zone chunk", zhas, zfree, 4}, {"free_perm zone chunk", zhas, zfree, 7},
    {"zone_alloc", zlive, zallocn, 0}, {"zone_alloc", zlive, zallocn, 1}, {"zone_destroy", zlive, zdestroyn, 0}, {"zone_destroy", zlive, zdestroyn, 1}, {"new_zone", znok, znew, 256},
    {"alloc", NULL, alloc, 256}, {"alloc", NULL, alloc, 8192}, {"alloc", NULL, alloc, 70000}, {"free_size", hasg, freesz, -1}, {"flush", NULL, flush, 0}, {"verify", NULL, verify, 0},
};
static const seq_t priv = {"private", initp, 4, privops, sizeof privops / sizeof *privops, node, m_audit, 4, 5};


/* zones with almost nothing left: 65536 and 40000 byte chunks (the latter's chunk count
 * fills its last bitmap word in part) */
static void initf(int v) {
    init(v & 3);
    static const int z[] = {65536, 40000};
    for(int i = 0; i < 2; i++) {
        zt[i] = (mz_t){iso_alloc_new_zone(z[i]), z[i], 0, 0, 0, true};
        void *p;
        int n = 0;
        while((p = iso_alloc_from_zone(zt[i].h))) { m_add(p, z[i], i); if(++n > 120) mc_fail("endless zone"); }
        if(n < (int) iso_zone_chunk_count(zt[i].h)) mc_fail("the zone of %d byte chunks gave %d chunks, not %zu", z[i], n, iso_zone_chunk_count(zt[i].h));
    }
    nzt = 2;
    alloc(65536); alloc(40000);
    long m0 = env.n_mmap;
    while(env.n_mmap == m0) alloc(65536);
    m0 = env.n_mmap;
    while(env.n_mmap == m0) alloc(40000);
    for(int i = 0; i < 60; i++) alloc(65536);
    for(int k = 0; k < (v & 4 ? 5 : 1); k++) { int i = (k * 37 + 11) % nlive; blk_t b = m_take(i); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free_size(b.p, b.req); }
}
static int fz(int a) { int z = (a & 3) - 1, n = a & 4; if(n) { for(int i = 0; i < nlive; i++) if(live[i].zone == z) return i; return -1; } return lastz(z); }
static bool fhas(int a) { return fz(a) >= 0; }
static void ffree(int a) {
    blk_t b = m_take(fz(a));
    switch(a >> 4) { case 0: iso_free(b.p); break; case 1: iso_free_size(b.p, b.req); break; case 2: iso_free_from_zone(b.p, zt[b.zone].h); break; case 3: iso_free_permanently(b.p); break; }
}
static void fzalloc(int z) { void *p = iso_alloc_from_zone(zt[z].h); if(p) m_add(p, zt[z].csz, z); }
static void audit_f(void) { /* as m_audit, then both zones give chunks again */
    iso_flush_caches();
    int n[2] = {0, 0};
    for(int i = 0; i < nlive; i++) if(live[i].zone >= 0) n[live[i].zone]++;
    for(int z = 0; z < 2; z++) if(n[z] < 40) { void *p = iso_alloc_from_zone(zt[z].h); if(!p) mc_fail("the zone of %zu byte chunks, of which %d are in use, gives none", zt[z].csz, n[z]); m_add(p, zt[z].csz, z); }
    m_audit();
    for(int z = 0; z < 2; z++) { void *p = iso_alloc_from_zone(zt[z].h); if(!p) mc_fail("the emptied zone of %zu byte chunks gives none", zt[z].csz); m_add(p, zt[z].csz, z); iso_alloc_destroy_zone(zt[z].h); nlive = 0; }
    iso_verify_zones();
}
static const op_t fops[] = {
    {"alloc", NULL, alloc, 65536}, {"alloc", NULL, alloc, 40000}, {"calloc", NULL, callo, 60000}, {"zone_alloc", NULL, fzalloc, 0}, {"zone_alloc", NULL, fzalloc, 1},
    {"free", fhas, ffree, 0}, {"free first", fhas, ffree, 4}, {"free_size first", fhas, ffree, 20}, {"free_perm", fhas, ffree, 48}, {"free zone's", fhas, ffree, 1}, {"free_from_zone first", fhas, ffree, 37}, {"free_from_zone", fhas, ffree, 34}, {"free_size zone's first", fhas, ffree, 22},
    {"realloc", genlast, realloc_, 65000}, {"flush", NULL, flush, 0}, {"verify", NULL, verify, 0},
};
static const seq_t full = {"full", initf, 8, fops, sizeof fops / sizeof *fops, node, audit_f, 3, 4};

/* a bit of everything, for the option sets */
static const op_t mixops[] = {
    {"alloc", NULL, alloc, 24}, {"alloc", NULL, alloc, 1000}, {"alloc", NULL, alloc, 8192}, {"alloc", NULL, alloc, 65536}, {"alloc", NULL, alloc, 65537}, {"calloc", NULL, callo, 90000}, {"calloc", NULL, callo, 64}, {"realloc", genlast, realloc_, 64}, {"realloc", genlast, realloc_, 100000},
    {"free", has, freeit, 0}, {"free", has, freeit, -1}, {"free_size", hasg, freesz, -1}, {"free_perm", hasg, freeperm, -1}, {"iso_free zone chunk", zhas, zfree, 0}, {"iso_free zone chunk", zhas, zfree, 1}, {"free_perm zone chunk", zhas, zfree, 7}, {"free_size zone chunk", zhas, zfree, 4},
    {"zone_alloc", zlive, zallocn, 0}, {"zone_alloc", zlive, zallocn, 1}, {"zone_destroy", zlive, zdestroyn, 0}, {"zone_destroy", zlive, zdestroyn, 1}, {"new_zone", znok, znew, 4096}, {"churn", NULL, churn, 8192}, {"churn", NULL, churn, 16320}, {"fill", NULL, fill, 65536}, {"flush", NULL, flush, 0}, {"verify", NULL, verify, 0},
};
static const seq_t mix = {"mix", initp, 4, mixops, sizeof mixops / sizeof *mixops, node, m_audit, 2, 3};
/* long regular histories at the real limits: a window of live blocks slides over the heap. Every mix of sizes
 * x window x order of freeing x freeing call */
static const int SETS[][6] = {{24}, {64}, {100}, {1024}, {8192}, {8224}, {40000}, {65536}, {65537}, {300000}, {24, 70000}, {64, 8192, 65536}, {16, 200, 1500, 9000, 65537, 200000}, {65536, 65537}, {8191, 8192, 8193, 16384}, {65600, 90000, 131072, 500000}};
static const int WIN[] = {1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 129, 254, 255, 256, 257, 600};
#define NSETS ((int) (sizeof SETS / sizeof *SETS))
#define NWIN ((int) (sizeof WIN / sizeof *WIN))
static long lcount(int v) { (void) v; return NSETS * NWIN * 4 * 3; }
static void rel1(int i, int how) {
    blk_t b = m_take(i);
    switch(how) { case 0: iso_free(b.p); break; case 1: iso_free_size(b.p, b.req); break; default: if(i & 1) iso_free(b.p); else if(b.req % 3) iso_free_size(b.p, b.req); else (void) !iso_realloc(b.p, 0); }
}
static void litem(long k) {
    const int *set = SETS[k % NSETS]; int w = WIN[k / NSETS % NWIN], order = k / NSETS / NWIN % 4, how = k / NSETS / NWIN / 4;
    int ns = 0, mx = 0; while(ns < 6 && set[ns]) { if(set[ns] > mx) mx = set[ns]; ns++; }
    mc_note("window %d over %d sizes to %d, order %d, form %d", w, ns, mx, order, how);
    if(mx > 65536 && w > 257) w = 257;
    int n = w * 3 + (mx > 65536 ? 200 : 700);
    for(int i = 0; i < n; i++) {
        m_add(iso_alloc(set[i % ns]), set[i % ns], -1);
        if(order == 3) { if(nlive >= w) { for(int j = nlive - 1; j >= 0; j -= 2) rel1(j, how); } } /* in bursts, every other one */
        else if(nlive > w || (order == 2 && i % 3 == 2)) rel1(order == 0 ? 0 : order == 1 ? nlive - 1 - (i & 1 ? nlive / 2 : 0) : (i * 37) % nlive, how);
        if(i % 97 == 0) m_check_all();
    }
    m_audit();
}
static void linit(int v) { init(v); }
static const dom_t lng = {"long", linit, 4, lcount, litem, 1};
static const scen_t sc[] = {MC_SEQ(mix), MC_SEQ(general), MC_SEQ(big), MC_SEQ(age), MC_SEQ(priv), MC_SEQ(full), MC_DOM(lng)};
int main(int c, char **v) { return mc_main(c, v, sc, 7); }
