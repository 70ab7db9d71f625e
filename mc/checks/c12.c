/* C12: guard pages. Every mapping the allocator makes is followed through the shadow
 * page table; mappings are placed back to back, so nothing but guards separates them. */
#include "../gd.h"
static void init0(int v) {
    static const int pol[] = {PL_PACKED, PL_DOWN, PL_REUSE, PL_SPREAD};
    env_reset(pol[v & 3]);
    env.on_event = guard_event;
    nmaps = nlast = 0;
    iso_alloc_initialize();
    check_guards();
}
/* every zone size class: fill the bitmap pages, private and internal */
static void initc(int v) { init0(v); }
static long countc(int v) { (void) v; return 2048 / 16; }
static void itemc(long k) {
    void *h[40]; int n = 0;
    for(size_t c = k * 16 * 32 + 32; c <= (size_t) (k + 1) * 16 * 32; c += 32) {
        if(c & 32) { void *p = iso_alloc(c); m_add(p, c, -1); }
        else { h[n] = iso_alloc_new_zone(c); if(!h[n]) mc_fail("no zone"); m_add(iso_alloc_from_zone(h[n]), c, -1); n++; }
        check_guards();
        mc_nontrivial(c);
    }
    for(int i = 0; i < n; i += 2) { for(int j = nlive - 1; j >= 0; j--) if(live[j].req == (size_t) (k * 16 * 32 + 64 * (i + 1))) { live[j] = live[--nlive]; } iso_alloc_destroy_zone(h[i]); check_guards(); }
}
static const dom_t classes = {"classes", initc, 4, countc, itemc, 1};

static void alloc(int sz) { in_big = sz > 65536; void *p = iso_alloc(sz); in_big = false; m_add(p, sz, -1); }
static bool has(int i) { return i < 0 ? nlive >= -i : nlive > i; }
static int ix(int i) { return i < 0 ? nlive + i : i; }
static void freeit(int i) { blk_t b = m_take(ix(i)); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p); }
static void freeperm(int i) { blk_t b = m_take(ix(i)); iso_free_permanently(b.p); }
static bool genl(int i) { return has(i) && live[ix(i)].zone < 0; }
static void realloc_(int sz) { blk_t b = m_take(nlive - 1); in_big = sz > 65536; void *r = iso_realloc(b.p, sz); in_big = false; m_add(r, sz, -1); }
static bool genr(int i) { (void) i; return genl(-1); }
static void newz(int sz) { void *h = iso_alloc_new_zone(sz); zt[nzt] = (mz_t){h, sz, 0, 0, 0, true}; m_add(iso_alloc_from_zone(h), sz, nzt); nzt++; }
static bool zen(int a) { (void) a; return nzt && zt[nzt - 1].live; }
static bool nzok(int a) { (void) a; return nzt < 60; }
static void zdestroy(int a) { (void) a; for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == nzt - 1) m_take(i); zt[nzt - 1].live = false; iso_alloc_destroy_zone(zt[nzt - 1].h); }
static void flush(int a) { (void) a; iso_flush_caches(); }
static void churn(int sz) { for(int i = 0; i < 4200000 / sz + 5; i++) { void *p = iso_alloc(sz); iso_free_size(p, sz); } }
static void node(void) { check_guards(); for(int i = 0; i < nlive; i++) m_check(&live[i]); }
static void leaf(void) { m_outcome(); char why[300]; if(!env_check_maps(why, sizeof why)) mc_fail("%s", why); }
static const op_t ops[] = {
    {"alloc", NULL, alloc, 64}, {"alloc", NULL, alloc, 8192}, {"alloc", NULL, alloc, 40000}, {"alloc", NULL, alloc, 65537}, {"alloc", NULL, alloc, 200000},
    {"free", has, freeit, 0}, {"free", has, freeit, -1}, {"free_perm", genl, freeperm, -1}, {"realloc", genr, realloc_, 3000}, {"realloc", genr, realloc_, 81920},
    {"new_zone", nzok, newz, 64}, {"new_zone", nzok, newz, 8192}, {"zone_destroy", zen, zdestroy, 0}, {"flush", NULL, flush, 0}, {"churn", NULL, churn, 8192}, {"churn", NULL, churn, 16320},
};
static const seq_t guards = {"guards", init0, 4, ops, sizeof ops / sizeof *ops, node, leaf, 3, 4};
static const scen_t sc[] = {MC_DOM(classes), MC_SEQ(guards)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
