/* C03: calloc zeroes, realloc preserves, array sizes never overflow */
#include "../mm.h"
static size_t S[400]; static int nS;
static void dirty(void) { /* recycled memory everywhere holds old data */
    for(int i = 0; i < nS; i++) {
        if(S[i] > 1 << 20) continue;
        void *p[6];
        for(int k = 0; k < 6; k++) { p[k] = iso_alloc(S[i]); memset(p[k], 0xcc, iso_chunksz(p[k])); }
        for(int k = 0; k < 6; k++) iso_free_size(p[k], S[i]);
    }
}
static void init(int v) {
    nS = 0;
    static const size_t base[] = {1, 8, 24, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 160, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 6000, 7000, 8159, 8160, 8191, 8192, 8193, 9000, 12000, 16320, 16384, 16385, 20000, 30000, 32736, 32768, 32769, 40000, 50000, 62624, 65504, 65535, 65536, 65537, 69632, 70000, 73728, 80000, 81920, 90000, 100000, 131072, 150000, 262144, 300000, 500000, 1048576, 3000000, 5000000};
    for(unsigned i = 0; i < sizeof base / sizeof *base; i++) S[nS++] = base[i];
    m_start(v & 3);
    if(v & 4) dirty();
}
static long rcount(int v) { (void) v; return nS; }
static void chk_prefix(uint8_t *r, blk_t *b, size_t n, const char *what, size_t to) {
    for(size_t i = 0; i < n; i++)
        if(r[i] != m_byte(b->pat, i)) mc_fail("%s %zu -> %zu: byte %zu is %#x instead of %#x", what, b->req, to, i, r[i], m_byte(b->pat, i));
    mc_eval(1);
}
static void fill_all(blk_t *b, size_t n) { b->pat = ++m_pat; for(size_t i = 0; i < n; i++) b->p[i] = m_byte(b->pat, i); }
static void *hp; static size_t hn; static int hf;
static void huge_realloc(void *a) {
    (void) a;
    void *r = hf ? iso_reallocarray(hp, hn, 1) : iso_realloc(hp, hn);
    if(r) mc_fail("realloc to %#zx bytes returned %p", hn, r);
    int i = m_find(hp);
    if(i < 0) mc_fail("harness");
    m_check_all();
    m_audit();
}
static void item_realloc(long i) {
    size_t old = S[i];
    mc_note(" realloc from %zu", old);
    for(int j = 0; j < nS; j++) {
        size_t n = S[j];
        if(n > 1 << 20 && old > 1 << 20 && i != j) continue;
        int form = j % 2;
        blk_t *b = m_add_nofill(iso_alloc(old), old, -1);
        fill_all(b, b->use);
        blk_t o = *b;
        uint8_t *r = form ? iso_reallocarray(o.p, n % 8 ? n : n / 8, n % 8 ? 1 : 8) : iso_realloc(o.p, n);
        if(!r) mc_fail("realloc(%zu -> %zu) returned NULL", old, n);
        nlive--;
        b = m_add_nofill(r, n, -1);
        chk_prefix(r, &o, o.use < n ? o.use : n, form ? "reallocarray" : "realloc", n);
        if(b->use < (1 << 20)) memset(r, 0x77, b->use);
        mc_nontrivial(o.use * 65599 + b->use);
        /* the old one is gone: every chunk handed out from now on may be it, but never r */
        void *q = iso_alloc(old);
        if((uint8_t *) q < r + b->use && r < (uint8_t *) q + old) mc_fail("realloc(%zu -> %zu): new chunk handed out again", old, n);
        iso_free_size(q, old);
        nlive--;
        if(j & 2) iso_free(r); else iso_free_size(r, n);
    }
    /* NULL and 0 */
    m_add(iso_realloc(NULL, old), old, -1);
    blk_t z = m_take(nlive - 1);
    if(iso_realloc(z.p, 0) != NULL) mc_fail("realloc(p, 0) returned a pointer");
    iso_flush_caches();
    m_check_all();
    /* failure leaves the old chunk alone */
    static const size_t H[] = {(1UL << 32) + 1, (1UL << 32) + 4096, 1UL << 33, SIZE_MAX, SIZE_MAX - 31, SIZE_MAX - 4096, SIZE_MAX / 2};
    blk_t *b = m_add_nofill(iso_alloc(old), old, -1);
    fill_all(b, b->use);
    hp = b->p;
    for(unsigned k = 0; k < 7; k++) for(hf = 0; hf < 2; hf++) {
        hn = H[k];
        int d = mc_death(huge_realloc, NULL);
        if(d != D_OK) mc_fail("realloc(%zu -> %#zx) ended the process", old, hn);
    }
    m_audit();
}
static const dom_t reallocs = {"realloc", init, 8, rcount, item_realloc, 1};

/* calloc: all (n, size) pairs over boundary values */
static size_t V[300]; static int nV;
static void initc(int v) {
    init(v);
    nV = 0;
    for(size_t i = 0; i < 20; i++) V[nV++] = i;
    for(int b = 5; b < 64; b++) { size_t x = 1UL << b; V[nV++] = x - 1; V[nV++] = x; V[nV++] = x + 1; }
    size_t more[] = {100, 1000, 10000, 65535 * 3, 46341, 92682, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 30, SIZE_MAX - 31, SIZE_MAX / 3, SIZE_MAX / 3 + 1, SIZE_MAX / 5 + 1, 0x100000000UL / 3 + 1, 4294967291UL};
    for(unsigned i = 0; i < sizeof more / sizeof *more; i++) V[nV++] = more[i];
}
static long ccount(int v) { (void) v; return nV; }
static void item_calloc(long i) {
    size_t a = V[i];
    mc_note(" calloc(%#zx, *)", a);
    for(int j = 0; j < nV; j++) {
        size_t b = V[j];
        unsigned __int128 prod = (unsigned __int128) a * b;
        for(int f = 0; f < 2; f++) {
            if(prod == 0) {
                if(f) continue; /* frees */
                uint8_t *p = iso_calloc(a, b);
                if(p) {
                    if(iso_chunksz(p) != 0 || env_prot((uintptr_t) p) != PROT_NONE) mc_fail("calloc(%#zx,%#zx) returned %p, which is not an inaccessible placeholder", a, b, (void *) p);
                    iso_free(p);
                }
                mc_eval(1);
                continue;
            }
            if(prod > (1UL << 27) && prod <= (1UL << 32) && !f) continue; /* clearing it takes long: decided by the reallocarray form */
            uint8_t *p = f ? iso_reallocarray(NULL, a, b) : iso_calloc(a, b);
            if(prod >= ((unsigned __int128) 1 << 32)) {
                if(p && prod != ((unsigned __int128) 1 << 32)) mc_fail("%s(%#zx,%#zx) overflows and returned %p", f ? "reallocarray" : "calloc", a, b, (void *) p);
                mc_eval(1);
                if(p) iso_free(p);
                continue;
            }
            size_t n = (size_t) prod;
            m_add_nofill(p, n, -1);
            if(!f) for(size_t k = 0; k < n; k += (n > (1 << 20) ? 509 : 1)) if(p[k]) mc_fail("calloc(%#zx,%#zx): byte %zu is %#x", a, b, k, p[k]);
            p[0] = 1; p[n - 1] = 1;
            mc_nontrivial(live[nlive - 1].use);
            nlive--;
            if(n < 1 << 20) memset(p, 0xcc, n);
            iso_free_size(p, n);
        }
    }
    m_audit();
}
static const dom_t callocs = {"calloc", initc, 8, ccount, item_calloc, 1};

/* calloc over chunks with a history: allocate/dirty/free/flush sequences, then calloc the class */
static void initz(int v) { init(v & 3); }
static const size_t Z[] = {32, 64, 1000, 8192, 40000, 65536, 65537, 100000};
static void o_dirty(int k) { blk_t *b = m_add_nofill(iso_alloc(Z[k]), Z[k], -1); memset(b->p, 0xee, b->use); b->pat = 0; b->tag = 1; }
static bool hasd(int k) { (void) k; return nlive > 0 && live[nlive - 1].tag; }
static void o_free(int k) { uint8_t *p = live[--nlive].p; if(k == 0) iso_free(p); else iso_free_size(p, live[nlive].req); }
static void o_flush(int k) { (void) k; iso_flush_caches(); }
static void o_calloc(int k) {
    size_t n = Z[k] - (k & 1);
    uint8_t *p = iso_calloc(1, n);
    for(int i = 0; i < nlive; i++) if(p < live[i].p + live[i].use && live[i].p < p + n) mc_fail("calloc overlaps a live chunk");
    for(size_t i = 0; i < n; i++) if(p[i]) mc_fail("calloc(1,%zu): byte %zu of recycled memory is %#x", n, i, p[i]);
    memset(p, 0xaa, iso_chunksz(p));
    mc_eval(1);
    mc_nontrivial((uintptr_t) p * 31 + env.n_mmap);
    iso_free_size(p, n);
}
static const op_t zops[] = {
    {"dirty", NULL, o_dirty, 0}, {"dirty", NULL, o_dirty, 2}, {"dirty", NULL, o_dirty, 3}, {"dirty", NULL, o_dirty, 5}, {"dirty", NULL, o_dirty, 6},
    {"free", hasd, o_free, 0}, {"free_size", hasd, o_free, 1}, {"flush", NULL, o_flush, 0},
    {"calloc", NULL, o_calloc, 0}, {"calloc", NULL, o_calloc, 1}, {"calloc", NULL, o_calloc, 3}, {"calloc", NULL, o_calloc, 4}, {"calloc", NULL, o_calloc, 6}, {"calloc", NULL, o_calloc, 7},
};
static const seq_t zeroes = {"zeroes", initz, 4, zops, sizeof zops / sizeof *zops, NULL, NULL, 3, 5};
static const scen_t sc[] = {MC_DOM(reallocs), MC_DOM(callocs), MC_SEQ(zeroes)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
