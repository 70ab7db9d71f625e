/* C35: canary chunks are set aside in every zone, and what guards free memory is bound to its place */
#include "../mm.h"
#ifndef MC_RETIRE
#define MC_RETIRE 32
#endif
#define KINDS 4 /* private zone, first general zone, a further general zone, one that replaced a retired zone */
static size_t S[4000]; static int nS;
static void init(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    /* where canaries go is drawn: from a stream, or the same draw each time, at the extremes and in between */
    static const struct { int m; uint64_t c; } R[] = {{RM_PASS, 0}, {RM_CONST, 0}, {RM_CONST, ~0UL}, {RM_COUNT, 0}, {RM_CONST, 1}, {RM_CONST, 8}, {RM_CONST, 0x8000000000000000UL}, {RM_CONST, 4093}};
    if(v >= 8) { env.gmode = 1; env.gconst = v & 1 ? 0 : ~0UL; }
    iso_alloc_initialize();
    env.rmode = R[v & 7].m; env.rconst = R[v & 7].c;
    nS = 0;
    if(mc_thorough) { for(size_t c = 32; c <= 65536; c += c < 10240 ? 32 : 992) S[nS++] = c; }
    else { for(size_t c = 32; c <= 65536; c += c < 256 ? 32 : c < 1024 ? 96 : c < 9000 ? 736 : 9984) S[nS++] = c; static const size_t q[] = {512, 1024, 2048, 4096, 8160, 8192, 8224, 16384, 65536}; for(unsigned i = 0; i < sizeof q / sizeof *q; i++) S[nS++] = q[i]; }
}
static long count(int v) { (void) v; return (long) nS * KINDS; }
static size_t csz, cap; static uint8_t *base; static void *h; static int kindof;
static bool got[140000];
static uint8_t *other_base; static bool other_free[140000];
static uint64_t w(const uint8_t *p, size_t o) { uint64_t x; memcpy(&x, p + o, 8); return x; }
static void *one(void) { return h ? iso_alloc_from_zone(h) : iso_alloc(csz); }
static void rel(void *p) { if(h) iso_free_from_zone(p, h); else iso_free_size(p, csz); }
typedef struct { uint8_t *to; const uint8_t *from; bool head, reuse; } copy_t;
static void copied(void *a) {
    copy_t *c = a;
    if(c->head) memcpy(c->to, c->from, 8); else memcpy(c->to + csz - 8, c->from + csz - 8, 8);
    iso_verify_zones();
}
/* every free slot carries the same word at both ends, its first byte zero, the rest not the same elsewhere */
static void words(const char *when, bool canaries_only) {
    for(size_t i = 0; i < cap; i++) {
        if(got[i] || (canaries_only && i >= (cap & ~31UL))) continue;
        const uint8_t *p = base + i * csz;
        uint64_t a = w(p, 0), z = w(p, csz - 8);
        mc_eval(1);
        if(a == 0 && z == 0) continue; /* never written: a fresh slot */
        if(a != z) mc_fail("%s, slot %zu of a zone of %zu byte chunks is guarded by different words at its ends", when, i, csz);
        if((a & 0xff) != 0) mc_fail("%s, the canary of slot %zu of a zone of %zu byte chunks does not start with a zero byte: reading it as a string runs through it", when, i, csz);
        if((a >> 8) == 0) mc_fail("%s, the canary of slot %zu of a zone of %zu byte chunks is empty", when, i, csz);
    }
    /* no two alike, unless they share 256 bytes */
    size_t step = 256 / csz + 1;
    for(size_t i = 0; i + step < cap; i++) {
        if(got[i]) continue;
        uint64_t a = w(base + i * csz, 0);
        if(!a) continue;
        for(size_t j = i + step; j < cap && j < i + step + 300; j++) if(!got[j] && w(base + j * csz, 0) == a) mc_fail("%s, slots %zu and %zu of a zone of %zu byte chunks have the same canary", when, i, j, csz);
        for(size_t d = 512; i + d < cap; d *= 2) if(!got[i + d] && w(base + (i + d) * csz, 0) == a) mc_fail("%s, slots %zu and %zu of a zone of %zu byte chunks have the same canary", when, i, i + d, csz);
    }
}
static uint8_t *take[300000]; static size_t nt;
static void exhaust(void) { /* everything the zone at hand gives */
    memset(got, 0, sizeof got);
    nt = 0; cap = 0;
    int out = 0;
    size_t had = 0;
    for(;;) {
        uint8_t *p = one();
        if(!p) { if(h) break; mc_fail("NULL"); }
        if(!cap) {
            const seg_t *g = env_seg((uintptr_t) p);
            if(!g) mc_fail("unmapped chunk");
            if(iso_chunksz(p) != csz) mc_fail("harness: a chunk of %zu for %zu", iso_chunksz(p), csz);
            base = (uint8_t *) g->s; cap = (g->e - g->s) / csz;
            if(g->e - g->s != 4194304) mc_fail("harness: region of %zu", (size_t) (g->e - g->s));
        }
        if(nt >= 290000) mc_fail("harness: never ends");
        take[nt++] = p;
        if(p < base || p >= base + cap * csz) { if(++out >= 3) break; continue; }
        out = 0;
        size_t i = (p - base) / csz;
        if(got[i]) mc_fail("slot %zu handed out twice", i);
        got[i] = true; had++;
    }
    size_t held = cap - had;
    /* the slots past the last whole word of the bitmap are never used */
    if(csz <= 8192) {
        if(held < 1 || had == cap) mc_fail("a zone of %zu byte chunks sets no chunk aside", csz);
        if(held > (cap >> 7) + 31) mc_fail("a zone of %zu byte chunks gives %zu of its %zu chunks", csz, had, cap);
        size_t n = 0;
        for(size_t i = 0; i < cap; i++) if(!got[i] && w(base + i * csz, 0)) n++;
        if(n < 1) mc_fail("a full zone of %zu byte chunks has no canary chunk", csz);
        if(n > cap >> 7) mc_fail("a full zone of %zu byte chunks has %zu canary chunks of %zu", csz, n, cap);
        mc_nontrivial((csz * 1000 + n) * 4 + kindof);
    } else {
        for(size_t i = 0; i < cap; i++) if(!got[i] && w(base + i * csz, 0)) mc_fail("a zone of %zu byte chunks has a canary chunk", csz);
        mc_nontrivial(csz * 4000 + kindof);
    }
    mc_eval(1);
}
static void item(long k) {
    csz = S[k / KINDS];
    int kind = kindof = k % KINDS;
    mc_note(" %zu byte chunks, %s", csz, kind == 0 ? "private zone" : kind == 1 ? "general zone" : kind == 2 ? "a further zone" : "a replaced zone");
    h = NULL;
    if(kind == 0) { h = iso_alloc_new_zone(csz); if(!h) mc_fail("no zone"); }
    if(kind >= 2) { /* leave behind a full zone, or age the first one until it is replaced */
        uint8_t *p0 = one(), *p = p0;
        if(kind == 3) {
            if(csz >= 16384) return;
            rel(p0);
            const seg_t *g0 = env_seg((uintptr_t) p0); uintptr_t s0 = g0->s; long m0 = env.n_mmap;
            for(size_t i = 0; i < (4194304 / csz) * MC_RETIRE + 64; i++) { p = one(); rel(p); if(env.n_mmap != m0 || env_prot(s0) < 0) break; }
        } else {
            const seg_t *g0 = env_seg((uintptr_t) p0); uintptr_t s0 = g0->s, e0 = g0->e;
            int out = 0;
            for(size_t i = 0; i < 4194304 / csz + 64 && out < 1; i++) { p = one(); if((uintptr_t) p < s0 || (uintptr_t) p >= e0) out++; }
            rel(p);
        }
    }
    if(!h && iso_chunksz(one()) != csz) return; /* no zone of this size: another serves it */
    if(kind == 1 || kind == 3) iso_flush_caches();
    exhaust();
    words("with every chunk in use", true);
    /* release all of them: now every slot is guarded */
    for(size_t i = 0; i < nt; i++) if(take[i] >= base && take[i] < base + cap * csz && (i % 16 || csz > 512)) { got[(take[i] - base) / csz] = false; rel(take[i]); }
    iso_flush_caches();
    if(!env_all((uintptr_t) base, 4096, RW)) return; /* replaced */
    size_t f[8]; int nf = 0;
    for(size_t i = 0; i < cap && nf < 4; i += cap / 5 + 1) for(size_t j = i; j < cap; j++) if(!got[j] && w(base + j * csz, 0)) { f[nf++] = j; break; }
    for(size_t i = 0; i < cap; i++) if(!got[i] && w(base + i * csz, 0) == 0 && w(base + i * csz, csz - 8) != 0) mc_fail("slot %zu of a zone of %zu byte chunks is half guarded", i, csz);
    words("after their release", false);
    /* a guard word moved to another chunk's place is damage there */
    for(int a = 0; a < nf; a++) for(int b = 0; b < nf; b++) {
        if(a == b) continue;
        uintptr_t x = (uintptr_t) base + f[a] * csz, y = (uintptr_t) base + f[b] * csz;
        if(x >> 8 == y >> 8) continue;
        for(int head = 0; head < 2; head++) {
            copy_t c = {(uint8_t *) x, (uint8_t *) y, head, false};
            if(b != (a + 1) % nf && !mc_thorough) continue;
            int d = mc_death(copied, &c);
            mc_eval(1);
            if(d != D_ABORT) mc_fail("the %s canary of slot %zu of a zone of %zu byte chunks, copied over that of slot %zu, passes verification (%d)", head ? "leading" : "trailing", f[b], csz, f[a], d);
        }
    }
    iso_verify_zones();
}
static const dom_t zones = {"zones", init, 12, count, item, 1};

/* equal places of two zones, in use one after the other or side by side, are guarded differently */
static void tinit(int v) { init(v & 3); env.rmode = RM_PASS; }
static void titem(long k) {
    csz = S[k];
    mc_note(" two zones of %zu byte chunks", csz);
    void *a = iso_alloc_new_zone(csz), *b = iso_alloc_new_zone(csz);
    if(!a || !b) mc_fail("no zone");
    uint8_t *pa[40], *pb[40];
    for(int i = 0; i < 40; i++) { pa[i] = iso_alloc_from_zone(a); pb[i] = iso_alloc_from_zone(b); }
    for(int i = 0; i < 40; i++) { iso_free_from_zone(pa[i], a); iso_free_from_zone(pb[i], b); }
    iso_flush_caches();
    for(int i = 0; i < 40; i++) for(int j = 0; j < 40; j++) {
        mc_eval(1);
        if(!(w(pa[i], 0)) || !(w(pb[j], 0))) mc_fail("a freed chunk of %zu bytes is not guarded", csz);
        if(w(pa[i], 0) == w(pb[j], 0)) mc_fail("chunks of different zones of %zu byte chunks have the same canary", csz);
        uint64_t da = w(pa[i], 0) ^ (uintptr_t) pa[i], db = w(pb[j], 0) ^ (uintptr_t) pb[j];
        if(da >> 8 == db >> 8) mc_fail("two zones of %zu byte chunks guard their chunks with the same secret", csz);
    }
    {
        copy_t c = {pa[3], pb[5], true, false};
        if(mc_death(copied, &c) != D_ABORT) mc_fail("a canary of another zone of %zu byte chunks passes verification", csz);
    }
    mc_nontrivial(csz);
}
static long tcount(int v) { (void) v; return nS; }
static const dom_t two = {"two", tinit, 4, tcount, titem, 1};
static const scen_t sc[] = {MC_DOM(zones), MC_DOM(two)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
