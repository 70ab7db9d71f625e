/* C26: what is left in freed memory */
#include "../mm.h"
#define POISON 0xde
#ifdef CFG_san_nocanary
#define CAN 0
#else
#define CAN 8
#endif
#if SANITIZE_CHUNKS
#define SAN true
#else
#define SAN false
#endif
#if PROTECT_FREE_BIG_ZONES
#define PROTBIG true
#else
#define PROTBIG false
#endif
typedef struct { uint8_t *p; size_t n; bool big, perm, done; } fr_t;
static fr_t F[64]; static int nF;
static void fillall(blk_t *b) { memset(b->p, 0x5a, b->use); }
static void clean(fr_t *f) { /* the free has been processed */
    mc_eval(1);
    uintptr_t a = (uintptr_t) f->p;
    if(f->big) {
        for(uintptr_t x = a; x < a + f->n; x += PAGE) {
            int pr = env_prot(x);
            if(PROTBIG && pr > PROT_NONE) mc_fail("page %lu of the freed big allocation %p of %zu bytes is accessible (%d)", (unsigned long) (x - a) / PAGE, (void *) f->p, f->n, pr);
            if(f->perm && pr > PROT_NONE) mc_fail("permanently freed big allocation %p is accessible", (void *) f->p);
            if(!SAN || pr <= PROT_NONE) continue;
            for(size_t i = 0; i < PAGE && x + i < a + f->n; i++) { uint8_t v = *(uint8_t *) (x + i); if(v != POISON && v != 0) mc_fail("byte %lu of the freed big allocation %p of %zu bytes is %#x", (unsigned long) (x + i - a), (void *) f->p, f->n, v); }
        }
        return;
    }
    if(!SAN && !f->perm) return;
    if(!env_all(a, f->n, RW)) return; /* its zone is gone */
    for(size_t i = CAN; i < f->n - CAN; i++) if(f->p[i] != POISON) mc_fail("byte %zu of the %sfreed chunk %p of %zu bytes is %#x", i, f->perm ? "permanently " : "", (void *) f->p, f->n, f->p[i]);
    if(CAN) for(int w = 0; w < 2; w++) if(*(uint64_t *) (f->p + (w ? f->n - 8 : 0)) == 0x5a5a5a5a5a5a5a5aULL) mc_fail("the %s word of the freed chunk %p of %zu bytes holds its old contents", w ? "last" : "first", (void *) f->p, f->n);
}
static void drop(uint8_t *p, size_t n) { for(int i = nF - 1; i >= 0; i--) if(F[i].p < p + n && p < F[i].p + F[i].n) F[i] = F[--nF]; }
static blk_t *add(void *p, size_t n, int z) { blk_t *b = m_add_nofill(p, n, z); drop(b->p, b->use); fillall(b); return b; }
static void gone(blk_t b, bool perm, bool done) { if(nF < 64) F[nF++] = (fr_t){b.p, b.use, b.req > 65536, perm, done}; }
static blk_t take(int i) {
    blk_t b = live[i];
    for(size_t k = 0; k < b.use; k++) if(b.p[k] != 0x5a) mc_fail("byte %zu of the live allocation %p of %zu bytes is %#x", k, (void *) b.p, b.use, b.p[k]);
    memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--;
    return b;
}
enum { D_FREE, D_SIZE, D_PERM, D_REALLOC, D_GROW };
static void release(blk_t b, int how) {
    if(b.zone >= 0) {
        if(how == D_PERM) iso_free_from_zone_permanently(b.p, zt[b.zone].h); else iso_free_from_zone(b.p, zt[b.zone].h);
        gone(b, how == D_PERM, true);
        return;
    }
    uint8_t *r; size_t n;
    switch(how) {
    case D_FREE: iso_free(b.p); gone(b, false, false); break;
    case D_SIZE: iso_free_size(b.p, b.req); gone(b, false, true); break;
    case D_PERM: iso_free_permanently(b.p); gone(b, true, true); break;
    case D_REALLOC: case D_GROW:
        n = how == D_GROW ? b.use + 100 : b.use / 2 + 1; if(n > 300000) n = 300000;
        r = iso_realloc(b.p, n);
        if(r) for(size_t i = 0; i < n && i < b.use; i++) if(r[i] != 0x5a) mc_fail("realloc byte %zu", i);
        gone(b, false, true); add(r, n, -1);
        break;
    }
}
/* every size class through every freeing call */
static void cinit(int v) { m_start(v & 3 ? v : 4); while(nlive) iso_free(m_take(0).p); iso_flush_caches(); nF = 0; }
static long ccount(int v) { (void) v; return 2048 + 40; }
static void citem(long k) {
    size_t n = k < 2048 ? (size_t) (k + 1) * 32 : 65537 + (k - 2048) * 3001;
    mc_note("%zu bytes ", n);
    void *h = n <= 65536 ? iso_alloc_new_zone(n) : NULL;
    zt[0] = (mz_t){h, n, 0, 0, 0, true};
    for(int how = 0; how <= D_GROW; how++) {
        for(int z = -1; z < (h && how <= D_PERM ? 1 : 0); z++) {
            /* its neighbours stay */
            void *p[3]; for(int i = 0; i < 3; i++) { p[i] = z < 0 ? iso_alloc(n - (i & 1)) : iso_alloc_from_zone(h); add(p[i], z < 0 ? n - (i & 1) : n, z); }
            release(take(m_find(p[1])), how);
            iso_flush_caches();
            for(int i = 0; i < nF; i++) clean(&F[i]);
            /* and is handed out again in full */
            void *q = z < 0 ? iso_alloc(n) : iso_alloc_from_zone(h);
            add(q, n, z);
            while(nlive) { blk_t b = take(nlive - 1); if(b.zone < 0) { if(nlive & 1) iso_free_size(b.p, b.req); else iso_free(b.p); gone(b, false, true); } else { iso_free_from_zone(b.p, h); gone(b, false, true); } }
            iso_flush_caches();
            for(int i = 0; i < nF; i++) clean(&F[i]);
            nF = 0;
        }
    }
    iso_verify_zones();
    mc_nontrivial(k);
}
static const dom_t classes = {"classes", cinit, 4, ccount, citem, 1};
/* histories */
static const size_t A[] = {24, 200, 1024, 9000, 65537, 100000};
static void o_alloc(int k) { add(iso_alloc(A[k]), A[k], -1); }
static void o_zalloc(int k) { (void) k; add(iso_alloc_from_zone(zt[0].h), zt[0].csz, 0); }
static bool en(int k) { return k < nlive; }
static void o_rel(int k) { release(take(nlive - 1 - (k >> 3)), k & 7); }
static bool o_ren(int k) { return en(k >> 3) && (live[nlive - 1 - (k >> 3)].zone < 0 || (k & 7) == D_FREE || (k & 7) == D_PERM); }
static void o_flush(int k) { (void) k; iso_flush_caches(); for(int i = 0; i < nF; i++) F[i].done = true; }
static void o_verify(int k) { (void) k; iso_verify_zones(); }
static void o_churn(int k) { for(int i = 0; i < k; i++) { size_t n = i & 1 ? 70000 : 24; add(iso_alloc(n), n, -1); blk_t b = take(nlive - 1); iso_free(b.p); gone(b, false, false); } }
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"alloc", NULL, o_alloc, 4}, {"alloc", NULL, o_alloc, 5}, {"zalloc", NULL, o_zalloc, 0},
    {"free", o_ren, o_rel, D_FREE}, {"free_size", o_ren, o_rel, D_SIZE}, {"perm", o_ren, o_rel, D_PERM}, {"realloc", o_ren, o_rel, D_REALLOC}, {"grow", o_ren, o_rel, D_GROW},
    {"free2", o_ren, o_rel, 8 + D_FREE}, {"perm2", o_ren, o_rel, 8 + D_PERM}, {"free_size3", o_ren, o_rel, 16 + D_SIZE},
    {"flush", NULL, o_flush, 0}, {"verify", NULL, o_verify, 0}, {"churn", NULL, o_churn, 3},
};
static void node(void) { for(int i = 0; i < nF; i++) if(F[i].done) clean(&F[i]); for(int i = 0; i < nlive; i++) for(size_t k = 0; k < live[i].use; k++) if(live[i].p[k] != 0x5a) mc_fail("byte %zu of the live allocation %p of %zu bytes is %#x", k, (void *) live[i].p, live[i].use, live[i].p[k]); }
static void rd(void *p) { (void) *(volatile uint8_t *) p; }
static void leaf(void) {
    o_flush(0); node();
    if(PROTBIG) for(int i = 0; i < nF; i++) if(F[i].big) { if(mc_death(rd, F[i].p) != D_SIGNAL) mc_fail("freed big allocation can be read"); if(mc_death(rd, F[i].p + F[i].n - 1) != D_SIGNAL) mc_fail("the end of a freed big allocation can be read"); }
    /* reuse in full */
    for(unsigned i = 0; i < 6; i++) { void *p = iso_alloc(A[i]); add(p, A[i], -1); }
    node();
    for(int i = 0; i < nlive; i++) m_fill(&live[i]);
    m_audit();
}
static void hinit(int v) {
    cinit(v); zt[0] = (mz_t){iso_alloc_new_zone(512), 512, 0, 0, 0, true}; nzt = 1;
    for(int i = 0; i < 4; i++) add(iso_alloc(A[i + 2]), A[i + 2], -1);
    if(v & 4) { release(take(2), D_FREE); release(take(0), D_FREE); }
}
static const seq_t hist = {"history", hinit, 8, ops, sizeof ops / sizeof *ops, node, leaf, 3, 4};
static const scen_t sc[] = {MC_DOM(classes), MC_SEQ(hist)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
