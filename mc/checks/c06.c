/* C06: every pointer that is not the start of a live allocation is refused by every
 * freeing call, from every start state */
#include "../mm.h"
#include <dlfcn.h>
static const size_t zsz[] = {32, 1000, 8192, 65536};
static uint8_t *zlo[8]; /* some chunk of each zone */
static uint8_t *destroyed[3]; static size_t dsz[3];
static uint8_t *permd[4]; static int nperm;
static uint8_t *bigfreed;
static uint8_t *P[200000]; static const char *W[200000]; static int nP;
static char statics[64];
static void put(const void *p, const char *w) {
    if(m_find(p) >= 0 || p == NULL || nP >= 200000) return;
    P[nP] = (void *) p; W[nP++] = w;
}
/* everything the allocator could confuse: chosen from the shadow page table and the model only */
static void gather(void) {
    nP = 0;
    for(int i = 0; i < nlive; i++) {
        uint8_t *p = live[i].p; size_t u = live[i].use;
        for(size_t o = 1; o < 40 && o < u; o++) put(p + o, "interior");
        for(size_t o = 40; o < u; o += u > 70000 ? 4096 : u > 2048 ? 256 : 24) put(p + o, "interior");
        for(size_t o = 16; o < u; o <<= 1) { put(p + o, "interior"); put(p + o - 8, "interior"); put(p + o + 8, "interior"); }
        put(p + u - 1, "interior"); put(p + u - 8, "interior");
        put(p - 1, "before a live chunk"); put(p - 8, "before a live chunk");
        if(u <= 65536) for(int d = -6; d <= 6; d++) { uint8_t *q = p + (long) d * (long) u; if(d && env_prot((uintptr_t) q) == RW) put(q, "neighbouring slot"); }
        else { put(p + u, "end of a big allocation"); put(p - PAGE, "page before a big allocation"); put(p + PAGE, "interior page"); }
    }
    /* all mappings: edges, guards, metadata */
    for(int i = 0; i < nsegs; i++) {
        size_t n = segs[i].e - segs[i].s;
        const char *w = segs[i].prot == PROT_NONE ? "guard page" : "mapping edge";
        size_t o[] = {0, 8, 16, 64, PAGE / 2, n / 2, n - 64, n - 32, n - 16, n - 8, n - PAGE};
        for(int k = 0; k < 11; k++) if(o[k] < n) put((void *) (segs[i].s + o[k]), w);
        if(n < 65536) for(size_t q = 0; q < n; q += PAGE) put((void *) (segs[i].s + q), "small mapping");
        put((void *) (segs[i].e), "past a mapping"); put((void *) (segs[i].s - 8), "before a mapping");
        if(n == 4194304) { /* every slot of one size class, sparse in others: never handed out or canary chunks */
            size_t st = i % 3 ? 65536 / 2 : 8192;
            for(size_t q = 0; q < n; q += st) put((void *) (segs[i].s + q), "zone memory");
            for(size_t q = 0; q < 64 * 40; q += 8) put((void *) (segs[i].s + q), "zone start");
            for(size_t q = 8; q < 64 * 40; q += 8) put((void *) (segs[i].e - q), "zone end");
        }
    }
    int loc;
    put(&loc, "stack"); put(statics, "static memory"); put((void *) &gather, "code"); put(stdout, "libc"); put(__environ, "environment");
    void *m = malloc(100); put(m, "foreign heap"); put((char *) m + 16, "foreign heap");
    for(int b = 3; b < 64; b++) { put((void *) (1UL << b), "power of two"); put((void *) ((1UL << b) - 8), "power of two"); put((void *) ~((1UL << b) - 1), "high address"); put((void *) (~0UL << b), "high address"); }
    put((void *) -8L, "high address"); put((void *) 0xdedededededededeUL, "poison"); put((void *) 0xffff00000000UL, "table edge"); put((void *) 0xffffffff0000UL, "table edge");
    uint8_t *z = iso_alloc(0);
    if(z) for(int o = 1; o < 4096; o += o < 16 ? 1 : 56) put(z + o, "inside the zero page");
    for(int i = 0; i < 3; i++) if(destroyed[i]) { put(destroyed[i], "destroyed zone"); put(destroyed[i] + dsz[i], "destroyed zone"); put(destroyed[i] + 8, "destroyed zone"); }
    for(int i = 0; i < nperm; i++) put(permd[i], "permanently freed");
    if(bigfreed) { put(bigfreed, "freed big"); put(bigfreed + PAGE, "freed big"); }
    for(int i = 0; i < nlive; i++) for(int b = 47; b < 64; b++) if(i % 4 == 0) put((void *) ((uintptr_t) live[i].p ^ (1UL << b)), "address with a high bit flipped");
    /* canary chunks and slots never handed out, one whole zone exhausted: see exhaust */
}
static void *ex[600]; static int nex;
static uint8_t *slots[700]; static int nslots;
static void init(int v) {
    m_start(v);
    nperm = 0;
    for(int i = 0; i < 4; i++) { zt[i].h = iso_alloc_new_zone(zsz[i]); for(int k = 0; k < 2; k++) m_add(iso_alloc_from_zone(zt[i].h), zsz[i], i); zlo[i] = live[nlive - 1].p; }
    for(int i = 0; i < 3; i++) { void *h = iso_alloc_new_zone(zsz[i]); destroyed[i] = iso_alloc_from_zone(h); dsz[i] = zsz[i]; if(i == 1) iso_free_from_zone(destroyed[i], h); iso_alloc_destroy_zone(h); }
    static const size_t sz[] = {32, 100, 1000, 8192, 40000, 65536, 70000, 300000};
    for(int i = 0; i < 8; i++) m_add(iso_alloc(sz[i]), sz[i], -1);
    bigfreed = iso_alloc(90000); iso_free_size(bigfreed, 90000);
    for(int i = 0; i < 3; i++) { permd[nperm++] = iso_alloc(sz[i * 3]); iso_free_permanently(permd[nperm - 1]); }
    permd[nperm++] = iso_alloc_from_zone(zt[1].h); iso_free_from_zone_permanently(permd[nperm - 1], zt[1].h);
    /* a zone of 8192 byte chunks with every slot but its canaries handed out */
    nex = 0;
    void *h = iso_alloc_new_zone(8192);
    zt[4].h = h;
    for(void *p; nex < 600 && (p = iso_alloc_from_zone(h)); ) ex[nex++] = p;
    iso_flush_caches();
    gather();
    /* all live chunks of the exhausted zone are valid; the rest of its slots are canaries */
    uint8_t *lo = ex[0];
    for(int i = 1; i < nex; i++) if((uint8_t *) ex[i] < lo) lo = ex[i];
    const seg_t *s = env_seg((uintptr_t) lo);
    nslots = 0;
    for(uint8_t *q = (uint8_t *) s->s; q < (uint8_t *) s->e; q += 8192) {
        bool used = false;
        for(int i = 0; i < nex; i++) used |= ex[i] == q;
        if(!used) put(q, "canary chunk");
    }
    for(int i = 0; i < nP; i++) for(int k = 0; k < nex; k++) if(P[i] == ex[k]) { P[i] = P[--nP]; W[i] = W[nP]; i--; break; }
    for(int i = 0; i < nP; i++) if(P[i] == (uint8_t *) iso_alloc(0)) { P[i] = P[--nP]; W[i] = W[nP]; i--; }
    if(nP > 199000) mc_fail("harness: pointer table full");
}
static long count(int v) { (void) v; return (nP + 15) / 16; }
typedef struct { uint8_t *p; int f; } rq_t;
#define NF 9
static const char *fn[NF] = {"iso_free", "iso_free_size(32)", "iso_free_size(70000)", "iso_free_permanently", "iso_free_from_zone", "iso_free_from_zone_permanently", "iso_realloc", "iso_realloc(0)", "iso_free_from_zone(other)"};
static void go(void *a) {
    rq_t *r = a;
    switch(r->f) {
    case 0: iso_free(r->p); break;
    case 1: iso_free_size(r->p, 32); break;
    case 2: iso_free_size(r->p, 70000); break;
    case 3: iso_free_permanently(r->p); break;
    case 4: iso_free_from_zone(r->p, zt[1].h); break;
    case 5: iso_free_from_zone_permanently(r->p, zt[0].h); break;
    case 6: (void) !iso_realloc(r->p, 100); break;
    case 7: (void) !iso_realloc(r->p, 0); break;
    case 8: iso_free_from_zone(r->p, zt[4].h); break;
    }
    iso_flush_caches();
}
static void item(long k) {
    mc_note(" %s %p", W[k * 16], (void *) P[k * 16]);
    for(int i = k * 16; i < nP && i < k * 16 + 16; i++) {
        int step = mc_thorough ? 1 : 3;
        for(int f = mc_thorough ? 0 : i % 3; f < NF; f += step) {
            rq_t r = {P[i], f};
            int d = mc_death(go, &r);
            if(d == D_OK) mc_fail("%s of %p (%s) was accepted", fn[f], (void *) P[i], W[i]);
            if(d == D_OTHER) mc_fail("%s of %p (%s) neither succeeded nor terminated (status %#x)", fn[f], (void *) P[i], W[i], mc_death_status);
            mc_eval(1);
            mc_nontrivial((uintptr_t) W[i] * 16 + f + ((uint64_t) d << 60));
        }
    }
}
static const dom_t bad = {"badptr", init, 8, count, item, 1};
/* a live chunk of one zone given to the handle of another: every ordered pair */
static long pcount(int v) { (void) v; return nlive; }
static void go2(void *a) { rq_t *r = a; if(r->f < 8) iso_free_from_zone(r->p, zt[r->f].h); else iso_free_from_zone_permanently(r->p, zt[r->f - 8].h); iso_flush_caches(); }
static void item2(long i) {
    mc_note(" live chunk %p of %d", (void *) live[i].p, live[i].zone);
    for(int z = 0; z < 5; z++) for(int pm = 0; pm < 2; pm++) {
        if(z == live[i].zone) continue;
        rq_t r = {live[i].p, z + 8 * pm};
        int d = mc_death(go2, &r);
        if(d != D_ABORT && d != D_SIGNAL) mc_fail("iso_free_from_zone%s accepted %p (%s %d) for zone %d", pm ? "_permanently" : "", (void *) live[i].p, live[i].zone < 0 ? "general chunk" : "chunk of zone", live[i].zone, z);
        mc_eval(1); mc_nontrivial(z * 100 + live[i].zone + 1000 * pm);
    }
    if(i == nlive - 1) { for(int k = 0; k < nex; k++) iso_free_from_zone(ex[k], zt[4].h); m_audit(); }
}
static const dom_t wrong = {"wrongzone", init, 8, pcount, item2, 1};
static const scen_t sc[] = {MC_DOM(bad), MC_DOM(wrong)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
