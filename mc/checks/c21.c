/* C21: zero-size allocations */
#include "../mm.h"
static uint8_t *Z[16]; static int nZ;
static void zcheck(uint8_t *p, const char *w) {
    mc_eval(1);
    if(!p) return;
    if(env_prot((uintptr_t) p) != PROT_NONE) mc_fail("%s of zero bytes returned %p, which is %s", w, (void *) p, env_prot((uintptr_t) p) < 0 ? "not mapped by the allocator" : "accessible");
    for(int i = 0; i < nlive; i++) if(p >= live[i].p && p < live[i].p + live[i].use) mc_fail("%s of zero bytes returned %p, inside the live allocation %p", w, (void *) p, (void *) live[i].p);
    if(iso_chunksz(p) != 0) mc_fail("usable size %zu of a zero-size allocation", iso_chunksz(p));
}
static void got(uint8_t *p, const char *w) { zcheck(p, w); if(p && nZ < 16) Z[nZ++] = p; }
static void o_zero(int k) {
    int before = nZ;
    switch(k) {
    case 0: got(iso_alloc(0), "iso_alloc"); break;
    case 1: got(iso_calloc(0, 8), "iso_calloc"); break;
    case 2: got(iso_calloc(8, 0), "iso_calloc"); break;
    case 3: got(iso_calloc(0, 0), "iso_calloc"); break;
    case 4: got(iso_realloc(NULL, 0), "iso_realloc"); break;
    case 5: got(iso_reallocarray(NULL, 0, 8), "iso_reallocarray"); break;
    case 6: got(iso_reallocarray(NULL, 8, 0), "iso_reallocarray"); break;
    }
    if(k < 4 && nZ == before && nZ < 16) mc_fail("%s of zero bytes returned NULL", k ? "iso_calloc" : "iso_alloc");
}
static bool live_en(int k) { (void) k; return nlive > 0; }
static void o_to0(int k) { blk_t b = m_take(nlive - 1); got(k ? iso_reallocarray(b.p, 0, 4) : iso_realloc(b.p, 0), "iso_realloc"); }
static bool z_en(int k) { (void) k; return nZ > 0; }
static void o_zfree(int k) { /* stays listed: may be freed any number of times */
    uint8_t *p = Z[nZ - 1];
    if(k == 0) iso_free(p); else if(k == 1) iso_free_size(p, 0); else if(k == 2) iso_free_permanently(p); else if(k == 3) got(iso_realloc(p, 0), "iso_realloc");
    else { static const size_t n[] = {1, 100, 70000}; m_add(k < 7 ? iso_realloc(p, n[k - 4]) : iso_reallocarray(p, 2, 50), k < 7 ? n[k - 4] : 100, -1); }
    zcheck(p, "a request (after freeing it)");
}
static const size_t A[] = {64, 1, 8192, 70000};
static void o_alloc(int k) { m_add(iso_alloc(A[k]), A[k], -1); }
static void o_calloc(int k) { uint8_t *p = iso_calloc(1, A[k]); for(size_t i = 0; p && i < A[k]; i++) if(p[i]) mc_fail("calloc"); m_add(p, A[k], -1); }
static void o_free(int k) { blk_t b = m_take(nlive - 1); if(k) iso_free_size(b.p, b.req); else iso_free(b.p); }
static void o_flush(int k) { (void) k; iso_flush_caches(); }
static void o_verify(int k) { (void) k; iso_verify_zones(); }
static void o_zone(int k) { (void) k; void *h = iso_alloc_new_zone(1024); m_add(iso_alloc_from_zone(h), 1024, 0); blk_t b = m_take(nlive - 1); iso_free_from_zone(b.p, h); iso_alloc_destroy_zone(h); }
static void node(void) { for(int i = 0; i < nZ; i++) zcheck(Z[i], "an earlier request"); m_check_all(); }
static void touch(void *a) { uint8_t *p = ((void **) a)[0]; if(((intptr_t *) a)[1]) *(volatile uint8_t *) p = 7; else (void) *(volatile uint8_t *) p; }
static void leaf(void) {
    for(int i = 0; i < nZ; i++) if(i == 0 || Z[i] != Z[i - 1])
        for(intptr_t w = 0; w < 2; w++) for(int o = 0; o < 2; o++) {
            void *a[2] = {Z[i] + (o ? 63 : 0), (void *) w};
            if(mc_death(touch, a) != D_SIGNAL) mc_fail("byte %d of a zero-size allocation can be %s", o ? 63 : 0, w ? "written" : "read");
            mc_eval(1);
        }
    node();
    m_audit();
    node();
}
static void init(int v) { m_start(v); nZ = 0; if(v == 7) { o_zero(0); } }
static const op_t ops[] = {
    {"alloc0", NULL, o_zero, 0}, {"calloc0_8", NULL, o_zero, 1}, {"calloc8_0", NULL, o_zero, 2}, {"calloc0_0", NULL, o_zero, 3}, {"reallocNULL_0", NULL, o_zero, 4}, {"reallocarray0_8", NULL, o_zero, 5}, {"reallocarray8_0", NULL, o_zero, 6},
    {"realloc_to_0", live_en, o_to0, 0}, {"reallocarray_to_0", live_en, o_to0, 1},
    {"zfree", z_en, o_zfree, 0}, {"zfree_size", z_en, o_zfree, 1}, {"zperm", z_en, o_zfree, 2}, {"zrealloc0", z_en, o_zfree, 3}, {"zrealloc1", z_en, o_zfree, 4}, {"zrealloc100", z_en, o_zfree, 5}, {"zrealloc70000", z_en, o_zfree, 6}, {"zreallocarray", z_en, o_zfree, 7},
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 3}, {"calloc", NULL, o_calloc, 0}, {"free", live_en, o_free, 0}, {"free_size", live_en, o_free, 1}, {"flush", NULL, o_flush, 0}, {"verify", NULL, o_verify, 0}, {"zone", NULL, o_zone, 0},
};
static const seq_t seq = {"history", init, 8, ops, sizeof ops / sizeof *ops, node, leaf, 3, 4};
/* every freeing call with every claimed size */
static void cinit(int v) { m_start(v); }
static long ccount(int v) { (void) v; return 64 * 7; }
static void item(long k) {
    nZ = 0;
    o_zero(k % 7); if(k % 7 == 4 && nZ == 0) return;
    if(!nZ) return;
    uint8_t *p = Z[0];
    int b = k / 7;
    /* freed b times, with pressure in between */
    for(int i = 0; i < b; i++) { o_zfree(i % 3); if(i % 5 == 0) { o_alloc(i % 4); } zcheck(p, "a request"); o_zero(i % 7); }
    for(int i = 0; i < nZ; i++) zcheck(Z[i], "a request");
    m_audit();
    mc_nontrivial(k);
}
static const dom_t many = {"many", cinit, 8, ccount, item, 1};
static const scen_t sc[] = {MC_SEQ(seq), MC_DOM(many)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
