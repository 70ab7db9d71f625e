/* C23: malloc-family and C++ operator replacements. The malloc-family symbols of the
 * library are renamed to hk_* (objcopy) so that the harness keeps its own allocator. */
#include "../mm.h"
void *cpp_new(int, size_t, size_t, int *); void cpp_delete(int, void *, size_t, size_t);
void cpp_handler(int); int cpp_handler_calls(void); void *cpp_expr(int, size_t *); void cpp_unexpr(int, void *);
void *hk_malloc(size_t), *hk___libc_malloc(size_t), *hk_calloc(size_t, size_t), *hk___libc_calloc(size_t, size_t), *hk_realloc(void *, size_t), *hk___libc_realloc(void *, size_t);
void *hk_reallocarray(void *, size_t, size_t), *hk___libc_reallocarray(void *, size_t, size_t), *hk_memalign(size_t, size_t), *hk___libc_memalign(size_t, size_t), *hk_aligned_alloc(size_t, size_t);
int hk_posix_memalign(void **, size_t, size_t), hk___posix_memalign(void **, size_t, size_t);
void hk_free(void *), hk___libc_free(void *); size_t hk_malloc_usable_size(void *);
extern void *(*hk___malloc_hook)(size_t, const void *), *(*hk___realloc_hook)(void *, size_t, const void *), (*hk___free_hook)(void *, const void *), *(*hk___memalign_hook)(size_t, size_t, const void *);
#define LIMIT (1UL << 32)
#ifdef CFG_malloc_abort
#define ABORTS 1
#else
#define ABORTS 0
#endif
static void check(uint8_t *p, size_t n, size_t a, const char *w) {
    mc_eval(1);
    if(!p) mc_fail("%s of %zu bytes returned NULL", w, n);
    if((uintptr_t) p & (a - 1)) mc_fail("%s of %zu bytes aligned to %zu returned %p", w, n, a, (void *) p);
    if(n && env_prot((uintptr_t) p) != RW) mc_fail("%s of %zu bytes returned %p, not memory of this allocator", w, n, (void *) p);
    if(hk_malloc_usable_size(p) < n) mc_fail("%s of %zu bytes has usable size %zu", w, n, hk_malloc_usable_size(p));
}
/* ---- malloc family */
enum { NMA = 17 };
static const char *maname[NMA] = {"malloc", "__libc_malloc", "calloc", "__libc_calloc", "realloc(NULL)", "__libc_realloc(NULL)", "reallocarray(NULL)", "__libc_reallocarray(NULL)", "memalign", "__libc_memalign", "aligned_alloc", "posix_memalign", "__posix_memalign", "__malloc_hook", "__realloc_hook", "__memalign_hook", "calloc(n,1)"};
static void *ma(int f, size_t n, size_t a) {
    void *r = (void *) 0x55;
    switch(f) {
    case 0: return hk_malloc(n);
    case 1: return hk___libc_malloc(n);
    case 2: return hk_calloc(1, n);
    case 3: return hk___libc_calloc(1, n);
    case 4: return hk_realloc(NULL, n);
    case 5: return hk___libc_realloc(NULL, n);
    case 6: return hk_reallocarray(NULL, 1, n);
    case 7: return hk___libc_reallocarray(NULL, n, 1);
    case 8: return hk_memalign(a, n);
    case 9: return hk___libc_memalign(a, n);
    case 10: return hk_aligned_alloc(a, n);
    case 11: return hk_posix_memalign(&r, a, n) ? NULL : r;
    case 12: return hk___posix_memalign(&r, a, n) ? NULL : r;
    case 13: return hk___malloc_hook(n, NULL);
    case 14: return hk___realloc_hook(NULL, n, NULL);
    case 15: return hk___memalign_hook(a, n, NULL);
    case 16: return hk_calloc(n, 1);
    }
    return NULL;
}
#define MA_ALIGNED(f) (((f) >= 8 && (f) <= 12) || (f) == 15)
#define MA_ZEROED(f) ((f) == 2 || (f) == 3 || (f) == 16)
enum { NMF = 6 };
static void mf(int f, void *p, size_t n) { /* every way to release it */
    (void) n;
    switch(f) {
    case 0: hk_free(p); break;
    case 1: hk___libc_free(p); break;
    case 2: hk___free_hook(p, NULL); break;
    case 3: (void) hk_realloc(p, 0); break;
    case 4: { uint8_t *q = hk_realloc(p, n + 1000); check(q, n + 1000, 8, "realloc"); hk_free(q); break; }
    case 5: { uint8_t *q = hk___libc_reallocarray(p, 3, n / 3 + 1); check(q, n / 3 * 3 + 3, 8, "reallocarray"); hk___libc_free(q); break; }
    }
}
static uint8_t *chk_ma(int f, size_t n, size_t a) {
    uint8_t *p = ma(f, n, a);
    check(p, n, MA_ALIGNED(f) ? a : 8, maname[f]);
    if(MA_ZEROED(f)) for(size_t i = 0; i < n; i++) if(p[i]) mc_fail("byte %zu of %s is %#x", i, maname[f], p[i]);
    return p;
}
/* ---- C++ forms */
static const char *cname[8] = {"new", "new[]", "new(nothrow)", "new[](nothrow)", "new(align)", "new[](align)", "new(align,nothrow)", "new[](align,nothrow)"};
#define C_ALIGNED(f) ((f) >= 4)
#define C_NOTHROW(f) ((f) & 2)
static int c_del(int f, int k) { /* k-th matching form of delete */ return (C_ALIGNED(f) ? 6 : 0) + (f & 1 ? 3 : 0) + k; }
static uint8_t *chk_cpp(int f, size_t n, size_t a) {
    int t; uint8_t *p = cpp_new(f, n, a, &t);
    if(t) mc_fail("%s of %zu bytes threw", cname[f], n);
    check(p, n, C_ALIGNED(f) ? a : 8, cname[f]);
    return p;
}
/* ---- pairs: every form x size x alignment x release, each in a throw-away copy of the start state */
static size_t sizes[200]; static int nsizes;
static void sinit(int v) {
    m_start(v & 3 ? v : 4);
    nsizes = 0;
    sizes[nsizes++] = 0; sizes[nsizes++] = 1;
    for(int b = 3; b <= 17; b++) { size_t x = 1UL << b; sizes[nsizes++] = x - 1; sizes[nsizes++] = x; sizes[nsizes++] = x + 1; sizes[nsizes++] = x + x / 2; }
    /* zones of sizes that are no power of two: first the cached ones, then private zones handed over */
    static const size_t odd[] = {96, 160, 224, 544, 1056, 3104, 5024, 12320, 40992};
    for(unsigned i = 0; i < sizeof odd / sizeof *odd; i++) {
        void *h = iso_alloc_new_zone(odd[i]);
        m_add(iso_alloc_from_zone(h), odd[i], -1);
        iso_free_from_zone(m_take(nlive - 1).p, h);
        if(v & 1) iso_alloc_destroy_zone(h);
    }
    if(v & 1) { /* and the thread used them last */
        uint8_t *k[600]; int n = 0;
        for(unsigned i = 0; i < sizeof odd / sizeof *odd; i++) for(int j = 0; j < 40; j++) k[n++] = iso_alloc(odd[i]);
        for(int j = 0; j < n; j += 2) m_add_nofill(k[j], 8, -1), m_fill(&live[nlive - 1]);
        for(int j = 1; j < n; j += 2) iso_free(k[j]);
        iso_flush_caches();
    }
}
static long scount(int v) { (void) v; return (long) nsizes * 13; }
static void sitem(long k) {
    size_t n = sizes[k / 13]; int al = k % 13; size_t a = 1UL << al;
    mc_note("%zu bytes aligned to %zu ", n, a);
    for(int f = 0; f < NMA; f++) {
        if(!MA_ALIGNED(f) && al) continue;
        if((f == 11 || f == 12) && a < 8) continue;
        if(n == 0) { uint8_t *p = ma(f, 0, a); if(p) { check(p, 0, MA_ALIGNED(f) ? a : 8, maname[f]); } hk_free(p); continue; }
        for(int d = 0; d < NMF; d++) { uint8_t *p = chk_ma(f, n, a); memset(p, 0xa5, n < 70000 ? n : 70000); mf(d, p, n); }
        /* several at once do not overlap */
        int b = nlive;
        for(int i = 0; i < 3; i++) m_add(chk_ma(f, n, a), n, -1);
        while(nlive > b) { blk_t x = m_take(b); hk_free(x.p); }
    }
    for(int f = 0; f < 8; f++) {
        if(!C_ALIGNED(f) && al) continue;
        if(n == 0) { int t; uint8_t *p = cpp_new(f, 0, a, &t); if(!p || t) mc_fail("%s of 0 bytes: %p, threw %d", cname[f], (void *) p, t); cpp_delete(c_del(f, 0), p, 0, a); continue; }
        for(int d = 0; d < 3; d++) { uint8_t *p = chk_cpp(f, n, a); memset(p, 0x5a, n < 70000 ? n : 70000); cpp_delete(c_del(f, d), p, n, a); }
        int b = nlive;
        for(int i = 0; i < 3; i++) m_add(chk_cpp(f, n, a), n, -1);
        while(nlive > b) { blk_t x = m_take(b); cpp_delete(c_del(f, nlive % 3), x.p, n, a); }
    }
    m_check_all();
    iso_verify_zones();
    mc_nontrivial(k);
}
static const dom_t pairs = {"pairs", sinit, 4, scount, sitem, 1};
/* ---- oversize requests and invalid alignments */
static size_t hs[400]; static int nh;
static void oinit(int v) { m_start(v & 3); nh = m_hugesizes(hs); }
static long ocount(int v) { (void) v; return nh; }
typedef struct { int f; size_t n, a; } call_t;
static void do_ma(void *x) { call_t *c = x; uint8_t *p = ma(c->f, c->n, c->a); if(p) mc_fail("%s of %zu bytes returned %p", maname[c->f], c->n, (void *) p); }
static void do_cpp(void *x) {
    call_t *c = x; int t; uint8_t *p = cpp_new(c->f, c->n, c->a, &t);
    if(p) mc_fail("%s of %zu bytes returned %p", cname[c->f], c->n, (void *) p);
    if(C_NOTHROW(c->f)) { if(t) mc_fail("%s of %zu bytes threw an exception", cname[c->f], c->n); }
    else if(t != 1) mc_fail(t ? "%s of %zu bytes threw something other than bad_alloc" : "%s of %zu bytes returned a null pointer", cname[c->f], c->n);
}
static void outcome(void (*fn)(void *), call_t *c, const char *w) {
    mc_eval(1);
    if(!ABORTS) { fn(c); return; }
    int r = mc_death(fn, c);
    if(r == D_VIOL) mc_fail("%s of %zu bytes did not end the process", w, c->n);
    if(r != D_ABORT && r != D_OK) mc_fail("%s of %zu bytes: outcome %d", w, c->n, r);
}
static void oitem(long k) {
    for(int f = 0; f < NMA; f++) { call_t c = {f, hs[k], 64}; outcome(do_ma, &c, maname[f]); }
    for(int f = 0; f < 8; f++) for(int h = 0; h < 3; h++) {
        if(h && k % 16) continue;
        cpp_handler(h); call_t c = {f, hs[k], 64}; outcome(do_cpp, &c, cname[f]);
        if(!ABORTS && h && !C_NOTHROW(f) && !cpp_handler_calls()) mc_fail("%s of %zu bytes failed without calling the new handler", cname[f], hs[k]);
    }
    m_check_all(); m_audit();
    mc_nontrivial(k);
}
static const dom_t over = {"oversize", oinit, 4, ocount, oitem, 1};
/* nmemb * size that do not fit */
static long wcount(int v) { (void) v; return 64 * 64; }
static void witem(long k) {
    int i = k / 64, j = k % 64; size_t a = (1UL << i), b = (1UL << j), r;
    for(int d = 0; d < 4; d++) {
        size_t x = a + (d & 1 ? 1 : 0), y = b - (d & 2 ? 1 : 0);
        bool ov = __builtin_mul_overflow(x, y, &r) || r > LIMIT;
        if(!ov) continue;
        mc_eval(1);
        if(ABORTS) continue;
        if(hk_calloc(x, y)) mc_fail("calloc(%zu, %zu) succeeded", x, y);
        if(hk___libc_calloc(x, y)) mc_fail("__libc_calloc(%zu, %zu) succeeded", x, y);
        if(hk_reallocarray(NULL, x, y)) mc_fail("reallocarray(NULL, %zu, %zu) succeeded", x, y);
        if(hk___libc_reallocarray(NULL, x, y)) mc_fail("__libc_reallocarray(NULL, %zu, %zu) succeeded", x, y);
    }
}
static const dom_t wrap = {"wrap", oinit, 1, wcount, witem, 1};
static long acount(int v) { (void) v; return 8200 + 64 * 3; }
static void aitem(long k) {
    size_t a = k < 8200 ? (size_t) k : (1UL << ((k - 8200) / 3)) + (k % 3) - 1;
    bool ok = a >= 8 && !(a & (a - 1));
    for(int f = 0; f < 2; f++) {
        void *r = (void *) 0x1234;
        if(ok && a > PAGE) continue;
        int e = f ? hk___posix_memalign(&r, a, 100) : hk_posix_memalign(&r, a, 100);
        mc_eval(1);
        if(ok && e) mc_fail("posix_memalign aligned to %zu failed: %d", a, e);
        if(!ok && e != EINVAL) mc_fail("posix_memalign accepts the alignment %zu (returned %d)", a, e);
        if(ok) { check(r, 100, a, "posix_memalign"); hk_free(r); }
    }
}
static const dom_t align = {"alignments", oinit, 1, acount, aitem, 1};
/* ---- histories mixing all of them */
static uint8_t *E[8][4]; static int nE[8];
static const size_t A[] = {24, 64, 200, 4096, 9000, 70000};
static void h_ma(int k) { size_t n = A[k % 6]; m_add(chk_ma(k / 6, n, 64), n, -1); live[nlive - 1].tag = 0; }
static void h_cpp(int k) { size_t n = A[k % 6]; m_add(chk_cpp(k / 6, n, 64), n, -1); live[nlive - 1].tag = 1 + k / 6; }
static bool h_len(int k) { (void) k; return nlive > 0; }
static void h_rel(int k) { blk_t b = m_take(k & 1 ? 0 : nlive - 1); if(b.tag <= 0) mf(k >> 1, b.p, b.req); else cpp_delete(c_del(b.tag - 1, (k >> 1) % 3), b.p, b.req, 64); }
static void h_expr(int k) { size_t a; if(nE[k] >= 4) return; uint8_t *p = cpp_expr(k, &a); check(p, 1, a, "a new expression"); E[k][nE[k]++] = p; }
static bool h_een(int k) { return nE[k] > 0; }
static void h_unexpr(int k) { cpp_unexpr(k, E[k][--nE[k]]); }
static void h_misc(int k) { if(k == 0) { hk_free(NULL); cpp_delete(0, NULL, 0, 8); cpp_delete(1, NULL, 8, 8); cpp_delete(4, NULL, 8, 8); cpp_delete(7, NULL, 64, 64); } else iso_flush_caches(); }
static void h_node(void) { m_check_all(); }
static void h_leaf(void) { for(int k = 0; k < 8; k++) while(nE[k]) h_unexpr(k); for(int i = 0; i < nlive; i++) live[i].tag = 0; m_audit(); }
static void hinit(int v) { m_start(v); for(int i = 0; i < nlive; i++) live[i].tag = 0; memset(nE, 0, sizeof nE); }
static const op_t ops[] = {
    {"malloc", NULL, h_ma, 1}, {"calloc", NULL, h_ma, 2 * 6 + 4}, {"realloc", NULL, h_ma, 4 * 6 + 5}, {"memalign", NULL, h_ma, 8 * 6}, {"aligned_alloc", NULL, h_ma, 10 * 6 + 2}, {"posix_memalign", NULL, h_ma, 11 * 6 + 3},
    {"new", NULL, h_cpp, 0}, {"new[]", NULL, h_cpp, 6 + 5}, {"new_nothrow", NULL, h_cpp, 12 + 4}, {"new_aligned", NULL, h_cpp, 24 + 2}, {"new[]_aligned", NULL, h_cpp, 30 + 3},
    {"release", h_len, h_rel, 0}, {"release", h_len, h_rel, 1}, {"release2", h_len, h_rel, 2}, {"release3", h_len, h_rel, 5}, {"realloc0", h_len, h_rel, 6}, {"grow", h_len, h_rel, 8},
    {"new Plain", NULL, h_expr, 0}, {"new Plain[]", NULL, h_expr, 1}, {"new Over", NULL, h_expr, 2}, {"new Over[]", NULL, h_expr, 3}, {"new Derived", NULL, h_expr, 4},
    {"delete Plain", h_een, h_unexpr, 0}, {"delete Plain[]", h_een, h_unexpr, 1}, {"delete Over", h_een, h_unexpr, 2}, {"delete Over[]", h_een, h_unexpr, 3}, {"delete Derived", h_een, h_unexpr, 4},
    {"null", NULL, h_misc, 0}, {"flush", NULL, h_misc, 1},
};
static const seq_t hist = {"history", hinit, 8, ops, sizeof ops / sizeof *ops, h_node, h_leaf, 3, 4};
static const scen_t sc[] = {MC_DOM(pairs), MC_DOM(over), MC_DOM(wrap), MC_DOM(align), MC_SEQ(hist)};
int main(int c, char **v) { return mc_main(c, v, sc, 5); }
