/* C07: sized free: every claim from the requested size to the usable size succeeds, every
 * larger one ends the process */
#include "../mm.h"
static size_t S[3000]; static int nS;
static const size_t zsz[] = {32, 1000, 8192, 65536};
static void init(int v) {
    m_start(v);
    nS = 0;
    for(size_t c = 32; c <= 65536; c += 32) { S[nS++] = c; }
    size_t b[600]; int nb = m_bigsizes(b);
    for(int i = 0; i < nb; i++) if(b[i] <= 1UL << 31 && (i % 3 == 0 || b[i] > 400000)) S[nS++] = b[i];
    for(int i = 0; i < 4; i++) { zt[i].h = iso_alloc_new_zone(zsz[i]); }
}
static long count(int v) { (void) v; return (nS + 7) / 8; }
typedef struct { void *p; size_t n; } rq_t;
static void go(void *a) { rq_t *r = a; iso_free_size(r->p, r->n); iso_flush_caches(); }
static void claims(uint8_t *p, size_t req, size_t use, const char *w) {
    /* too large */
    size_t T[160]; int n = 0;
    for(size_t d = 1; d <= 16; d++) T[n++] = use + d;
    for(size_t d = 32; d; d <<= 1) { if(use + d > use) T[n++] = use + d; }
    T[n++] = use * 2 + 1; T[n++] = SIZE_MAX; T[n++] = SIZE_MAX - 4095; T[n++] = (size_t) UINT32_MAX + use; T[n++] = (1UL << 32) + 1; T[n++] = (1UL << 32) + req;
    static const size_t edge[] = {65535, 65536, 65537, 69632, 131072, 1UL << 31, 1UL << 32};
    for(int i = 0; i < 7; i++) if(edge[i] > use) T[n++] = edge[i];
    for(int i = 0; i < n; i++) {
        if(T[i] <= use || (!mc_thorough && i >= 8 && i % 4 != use / 32 % 4)) continue;
        rq_t r = {p, T[i]};
        int d = mc_death(go, &r);
        if(d != D_ABORT && d != D_SIGNAL) mc_fail("iso_free_size(%s chunk of %zu bytes usable, %#zx) was accepted", w, use, T[i]);
        mc_eval(1);
    }
    /* good */
    size_t G[12]; int g = 0;
    G[g++] = req; G[g++] = use; G[g++] = (req + use) / 2; if(use > req) { G[g++] = use - 1; G[g++] = req + 1; }
    if(req <= 65536 && req > 1) { /* a chunk from the small path also accepts smaller claims */ }
    for(int i = 0; i < g; i++) {
        if(!mc_thorough && i > 1 && i != 2 + (int) (use / 32 % 3)) continue;
        if(req <= 65536 && G[i] > 65536) continue;
        rq_t r = {p, G[i]};
        if(mc_death(go, &r) != D_OK) mc_fail("iso_free_size(%s chunk requested as %zu, usable %zu, %zu) ended the process", w, req, use, G[i]);
        mc_eval(1);
    }
    mc_nontrivial(use);
}
static void item(long k) {
    for(int i = k * 8; i < nS && i < k * 8 + 8; i++) {
        size_t n = S[i];
        mc_note(" %zu", n);
        size_t req = n <= 65536 ? n - (i % 31) : n;
        blk_t *b = m_add(iso_alloc(req), req, -1);
        claims(b->p, req, b->use, "general");
        iso_free_size(b->p, b->req); nlive--;
        /* the same, in place for reuse after a free */
        b = m_add(iso_alloc(req), req, -1);
        uint8_t *p = b->p; size_t use = b->use;
        if(i % 4 == 0) claims(p, req, use, "recycled");
        nlive--;
        iso_free_size(p, use);
        if(i % 2 == 0) { m_check_all(); }
    }
    if(k < 4) {
        for(int j = 0; j < 2; j++) { void *p = iso_alloc_from_zone(zt[k].h); claims(p, zsz[k], iso_chunksz(p), "private"); }
        /* realloc results */
        void *p = iso_realloc(iso_alloc(zsz[k]), zsz[k] * 3); claims(p, zsz[k] * 3, iso_chunksz(p), "realloc");
        uint8_t *z = iso_alloc(0);
        if(z) {
            iso_free_size(z, 0); iso_free_size(z, 0);
            for(size_t n = 1; n; n <<= 1) { rq_t r = {z, n}; int d = mc_death(go, &r); if(d != D_ABORT && d != D_SIGNAL) mc_fail("iso_free_size(zero-size placeholder, %#zx) was accepted", n); mc_eval(1); }
        }
        iso_free_size(NULL, 0); iso_free_size(NULL, 77); iso_free_size(NULL, SIZE_MAX);
        m_audit();
    }
}
static const dom_t sized = {"sized", init, 8, count, item, 1};
static const scen_t sc[] = {MC_DOM(sized)};
int main(int c, char **v) { return mc_main(c, v, sc, 1); }
