/* C37: a zone is replaced exactly when its allotment is used up and nothing of it is live */
#include "../mm.h"
#ifndef MC_RETIRE
#define MC_RETIRE 32
#endif
#ifndef MC_QUARANTINE
#define MC_QUARANTINE 64
#endif
/* regions that hold chunks, with what each has handed out since it was mapped */
typedef struct { uintptr_t s, e; size_t chunk; long served, inuse; bool priv, touched; } reg_t;
static reg_t G[256]; static int nG;
static uintptr_t gone[64]; static int ngone;

static void event(int kind, uintptr_t a, size_t n, int prot) {
    (void) prot;
    if(kind != FK_MUNMAP) return;
    for(int i = 0; i < nG; i++) if(G[i].s < a + n && a < G[i].e) {
        if(ngone < 64) { gone[ngone++] = G[i].s; }
        G[i--] = G[--nG];
    }
}
static reg_t *reg(const void *p) {
    for(int i = 0; i < nG; i++) if((uintptr_t) p >= G[i].s && (uintptr_t) p < G[i].e) return &G[i];
    return NULL;
}
static long lo_of(const reg_t *g) { long c = 4194304 / g->chunk; return (c - c % 32) * MC_RETIRE; }
static long hi_of(const reg_t *g) { return 4194304 / (long) g->chunk * MC_RETIRE; }
/* a chunk was handed out */
static void out(void *p, bool priv) {
    if(p == NULL) mc_fail("NULL");
    size_t n = iso_chunksz(p);
    if(n > 65536) return;
    reg_t *g = reg(p);
    if(g == NULL) {
        const seg_t *s = env_seg((uintptr_t) p);
        if(nG >= 256) mc_fail("harness: regions");
        G[nG++] = (reg_t){s->s, s->e, n, 0, 0, priv, false};
        g = &G[nG - 1];
    }
    g->served++; g->inuse++;
}
static void *pend[MC_QUARANTINE]; static int npend;
static void released(void *p) { reg_t *g = reg(p); if(g) { g->inuse--; g->touched = true; } }
static void begin(void) { for(int i = 0; i < nG; i++) G[i].touched = false; ngone = 0; }
static reg_t pre[256]; static int npre;
/* the state before the call in G; what the call released is noted, then the call is made and judged */
static void snap(void) { memcpy(pre, G, sizeof(reg_t) * nG); npre = nG; ngone = 0; }
static void judge(const char *what) {
    mc_eval(1);
    for(int i = 0; i < npre; i++) {
        bool isgone = false;
        for(int k = 0; k < ngone; k++) if(gone[k] == pre[i].s) isgone = true;
        bool may = !pre[i].priv && pre[i].touched && pre[i].inuse == 0 && pre[i].chunk < 16384 && pre[i].served > lo_of(&pre[i]);
        bool must = may && pre[i].served > hi_of(&pre[i]);
        if(isgone && !may) mc_fail("%s replaced a %s zone of %zu byte chunks with %ld chunks in use after %ld allocations (allotment %ld)%s", what, pre[i].priv ? "private" : "general", pre[i].chunk, pre[i].inuse, pre[i].served, hi_of(&pre[i]), pre[i].touched ? "" : ", none of which it released");
        if(!isgone && must) mc_fail("%s emptied a zone of %zu byte chunks that had served %ld allocations (allotment %ld), yet it was not replaced", what, pre[i].chunk, pre[i].served, hi_of(&pre[i]));
        if(isgone) mc_nontrivial(pre[i].chunk * 131 + pre[i].served - lo_of(&pre[i]));
    }
    for(int i = 0; i < nG; i++) G[i].touched = false;
}
static void take_pending(void) { for(int i = 0; i < npend; i++) released(pend[i]); npend = 0; }
static void do_free(void *p) {
    if(npend == MC_QUARANTINE) take_pending();
    pend[npend++] = p;
    snap(); iso_free(p); judge("iso_free");
}
static void do_size(void *p, size_t n) { released(p); snap(); iso_free_size(p, n); judge("iso_free_size"); }
static void do_perm(void *p) { released(p); snap(); iso_free_permanently(p); judge("iso_free_permanently"); }
static void do_flush(void) { take_pending(); snap(); iso_flush_caches(); judge("iso_flush_caches"); }
static void do_zfree(void *p, int z) { released(p); snap(); iso_free_from_zone(p, zt[z].h); judge("iso_free_from_zone"); }
static void *do_alloc(size_t n) { snap(); void *p = iso_alloc(n); judge("iso_alloc"); out(p, false); return p; }

static const size_t ES[] = {8192, 1024, 16352, 480};
static size_t en;
static void hold(void *p, size_t n, int z) { live[nlive++] = (blk_t){p, n, 0, 0, z, 0}; *(volatile char *) p = 1; }
static void init(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    env.on_event = event;
    nG = 0; npend = 0; nzt = 0; begin();
    iso_alloc_initialize();
    en = ES[(v >> 2) & 3];
    /* a general zone of that size short of its allotment by two to four, with 0-2 chunks in use, and a private one beyond its own */
    hold(do_alloc(en), en, -1);
    long n = (long) (4194304 / iso_chunksz(live[0].p)) * MC_RETIRE - 1 - (v & 1);
    for(long i = 1; i < n; i++) { void *p = do_alloc(en); do_size(p, en); }
    if(v & 2) hold(do_alloc(en), en, -1); else { do_size(live[0].p, en); nlive = 0; }
    zt[0].h = iso_alloc_new_zone(en); zt[0].csz = en; nzt = 1;
    if(zt[0].h == NULL) mc_fail("no zone");
    for(long i = 0; i < 4194304 / (long) en * MC_RETIRE + 3; i++) { void *p = iso_alloc_from_zone(zt[0].h); out(p, true); do_zfree(p, 0); }
}
static void o_alloc(int k) { (void) k; hold(do_alloc(en), en, -1); }
static void o_calloc(int k) { (void) k; snap(); void *p = iso_calloc(1, en); judge("iso_calloc"); out(p, false); hold(p, en, -1); }
static void o_other(int n) { hold(do_alloc(n), n, -1); }
static int pick(int k) { return k == 0 ? nlive - 1 : 0; }
static bool gen(int k) { return nlive > 0 && live[pick(k)].zone < 0; }
static blk_t tk(int i) { blk_t b = live[i]; memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--; return b; }
static void o_free(int k) { do_free(tk(pick(k)).p); }
static void o_size(int k) { blk_t b = tk(pick(k)); do_size(b.p, b.req); }
static void o_perm(int k) { do_perm(tk(pick(k)).p); }
static void o_flush(int k) { (void) k; do_flush(); }
static void o_realloc(int n) { /* allocates first, releases then */
    blk_t b = tk(nlive - 1);
    size_t want = n ? (size_t) n : en;
    snap();
    /* what will be handed out is not known beforehand: the new chunk keeps its own zone from being empty */
    reg_t *g = reg(b.p);
    void *q = iso_realloc(b.p, want);
    if(q == NULL) mc_fail("NULL");
    if(g && (g = reg(b.p)) && (uintptr_t) q >= g->s && (uintptr_t) q < g->e) { out(q, false); g = reg(b.p); g->inuse--; judge("iso_realloc"); }
    else {
        for(int i = 0; i < npre; i++) if((uintptr_t) b.p >= pre[i].s && (uintptr_t) b.p < pre[i].e) { pre[i].inuse--; pre[i].touched = true; }
        judge("iso_realloc");
        if((g = reg(b.p))) g->inuse--;
        out(q, false);
    }
    hold(q, want, -1);
}
static bool haszone(int k) { (void) k; return nzt > 0; }
static void o_zalloc(int k) { (void) k; void *p = iso_alloc_from_zone(zt[0].h); out(p, true); hold(p, en, 0); }
static bool topz(int k) { (void) k; return nlive > 0 && live[nlive - 1].zone == 0; }
static void o_zfree(int k) { (void) k; do_zfree(tk(nlive - 1).p, 0); }
static void o_zdestroy(int k) { /* destroying it is no retirement of any other */
    (void) k;
    do_flush();
    uintptr_t zs[8]; int nz = 0;
    for(int i = 0; i < nG; i++) if(G[i].priv && nz < 8) zs[nz++] = G[i].s;
    snap();
    iso_alloc_destroy_zone(zt[0].h); nzt = 0;
    for(int k2 = 0; k2 < ngone; k2++) { bool ok = false; for(int i = 0; i < nz; i++) if(gone[k2] == zs[i]) ok = true; if(!ok) mc_fail("destroying a private zone unmapped a general one"); }
    for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == 0) tk(i);
}
static void o_ask(int k) { (void) k; snap(); iso_verify_zones(); (void) iso_alloc_detect_leaks(); (void) iso_alloc_mem_usage(); if(nlive) (void) iso_chunksz(live[0].p); judge("asking"); }
static void leaf(void) {
    mc_nontrivial(nG * 7919 + nlive * 31 + npend);
    while(nlive) { if(live[nlive - 1].zone == 0) o_zfree(0); else if(nlive & 1) o_size(0); else o_free(0); }
    do_flush();
    /* the allotment is used up for good: the next to use the zone replaces it, unless that has happened */
    for(int r = 0; r < 4; r++) { void *p = do_alloc(en); do_size(p, en); }
    iso_verify_zones();
}
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"calloc", NULL, o_calloc, 0}, {"alloc_other", NULL, o_other, 64}, {"alloc_other", NULL, o_other, 5000}, {"alloc_other", NULL, o_other, 70000},
    {"free", gen, o_free, 0}, {"free_old", gen, o_free, 1}, {"free_size", gen, o_size, 0}, {"free_size_old", gen, o_size, 1}, {"free_perm", gen, o_perm, 0}, {"flush", NULL, o_flush, 0},
    {"realloc", gen, o_realloc, 0}, {"realloc", gen, o_realloc, 300}, {"zalloc", haszone, o_zalloc, 0}, {"zfree", topz, o_zfree, 0}, {"zdestroy", haszone, o_zdestroy, 0}, {"ask", NULL, o_ask, 0},
};
static const seq_t edge = {"edge", init, 16, ops, sizeof ops / sizeof *ops, NULL, leaf, 3, 4};

/* every size class through two lifetimes in several rhythms */
static long ccount(int v) { (void) v; return 4 * (16384 / 32 + 3); }
static void cinit(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    env.on_event = event;
    nG = 0; npend = 0; begin();
    iso_alloc_initialize();
}
static void citem(long k) {
    long c = k / 4; int how = k & 3;
    size_t n = c < 512 ? (size_t) (c + 1) * 32 : (size_t[]) {20000, 32768, 65536}[c - 512];
    if(!mc_thorough && c >= 64 && c < 510 && c % 8 != 7) return;
    mc_note("chunks of %zu bytes, rhythm %d", n, how);
    static uint8_t *v[64];
    void *first = do_alloc(n);
    size_t chunk = iso_chunksz(first);
    do_size(first, n);
    long total = 2 * (hi_of(&(reg_t){.chunk = chunk}) + 40), did = 0;
    while(did < total) {
        int batch = how == 0 ? 1 : how == 1 ? 2 : how == 2 ? 37 : 5;
        for(int i = 0; i < batch; i++) { v[i] = do_alloc(n); did++; }
        for(int i = 0; i < batch; i++) {
            void *p = how == 1 ? v[batch - 1 - i] : v[i];
            if(how == 3 && i & 1) do_free(p); else do_size(p, n);
        }
    }
    do_flush();
    iso_verify_zones();
}
static const dom_t classes = {"classes", cinit, 4, ccount, citem, 1};
static const scen_t sc[] = {MC_SEQ(edge), MC_DOM(classes)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
