/* C40: poisoning of memory in builds with Address Sanitizer support */
#include "../mm.h"
#include "../asan.h"
#define MAXF 16384
typedef struct { uint8_t *p; size_t n; bool big, done; } fr_t;
static fr_t F[MAXF]; static int nF;
static void drop(uintptr_t p, size_t n) { for(int i = nF - 1; i >= 0; i--) if((uintptr_t) F[i].p < p + n && p < (uintptr_t) F[i].p + F[i].n) F[i] = F[--nF]; }
static void gone(blk_t b, bool done) { if(nF == MAXF) mc_fail("harness: too many freed chunks"); F[nF++] = (fr_t){b.p, b.use, b.req > 65536, done}; }
static void ev(int kind, uintptr_t a, size_t len, int prot) { (void) prot; if(kind == FK_MUNMAP) drop(a, len); }
static blk_t *add(void *p, size_t n, int z) { blk_t *b = m_add(p, n, z); drop((uintptr_t) b->p, b->use); return b; }
enum { D_FREE, D_SIZE, D_PERM, D_REALLOC, D_SHRINK };
static void release(int i, int how) {
    blk_t b = live[i];
    if(b.zone >= 0) {
        m_take(i); gone(b, true);
        if(how == D_PERM) iso_free_from_zone_permanently(b.p, zt[b.zone].h); else iso_free_from_zone(b.p, zt[b.zone].h);
        return;
    }
    size_t n;
    switch(how) {
    case D_FREE: m_take(i); gone(b, false); iso_free(b.p); break;
    case D_SIZE: m_take(i); gone(b, true); iso_free_size(b.p, b.req); break;
    case D_PERM: m_take(i); gone(b, true); iso_free_permanently(b.p); break;
    case D_REALLOC: case D_SHRINK:
        n = how == D_REALLOC ? b.use + 100 : b.use / 2 + 1;
        if(n > 300000) n = 300000;
        m_take(i);
        uint8_t *r = iso_realloc(b.p, n);
        if(r != b.p) gone(b, true);
        for(size_t k = 0; k < n && k < b.use && k < HEAD && r; k++) if(r[k] != m_byte(b.pat, k)) mc_fail("byte %zu is not kept by realloc", k);
        add(r, n, -1);
        break;
    }
}
#define ZUS (4UL << 20)
static bool zoneseg(const seg_t *s) { return s && s->prot == RW && s->e - s->s == ZUS; }
static void judge(void) {
    mc_eval(1);
    /* live memory can be used in full */
    for(int i = 0; i < nlive; i++) {
        size_t x = as_poisoned((uintptr_t) live[i].p, live[i].use);
        if(x) mc_fail("%zu bytes of the live allocation %p of %zu bytes are poisoned", x, (void *) live[i].p, live[i].use);
    }
    /* released memory cannot, a delayed free is either still pending or not */
    for(int i = 0; i < nF; i++) {
        fr_t *f = &F[i];
        size_t x = as_poisoned((uintptr_t) f->p, f->n);
        if(env_prot((uintptr_t) f->p) <= PROT_NONE) { if(env_prot((uintptr_t) f->p) < 0 && x) mc_fail("%zu bytes of unmapped memory are poisoned", x); continue; }
        if(x != f->n && (x || f->done)) mc_fail("%zu of %zu bytes of the freed %s %p are poisoned", x, f->n, f->big ? "big allocation" : "chunk", (void *) f->p);
    }
    /* in a zone everything else is poisoned */
    uintptr_t seen[64]; int ns = 0;
    for(int i = -nF; i < nlive; i++) {
        uintptr_t p = (uintptr_t) (i < 0 ? F[-i - 1].p : live[i].p);
        const seg_t *s = env_seg(p);
        if(!zoneseg(s)) continue;
        bool dup = false;
        for(int k = 0; k < ns; k++) dup |= seen[k] == s->s;
        if(dup || ns == 64) continue;
        seen[ns++] = s->s;
        size_t want = 0;
        for(int k = 0; k < nlive; k++) if(live[k].p >= (uint8_t *) s->s && live[k].p < (uint8_t *) s->e) want += live[k].use;
        for(int k = 0; k < nF; k++) if(F[k].p >= (uint8_t *) s->s && F[k].p < (uint8_t *) s->e) want += F[k].n - as_poisoned((uintptr_t) F[k].p, F[k].n);
        size_t un = ZUS - as_poisoned(s->s, ZUS);
        if(un != want) mc_fail("%zu bytes of the zone at %p can be accessed, but only %zu are in use", un, (void *) s->s, want);
    }
    /* and nothing else is: neither memory given back to the kernel nor what the allocator keeps its records in */
    for(long i = 0; i < as_ranges(); i++) {
        uintptr_t a, e;
        as_range(i, &a, &e);
        while(a < e) {
            const seg_t *s = env_seg(a);
            if(!s) mc_fail("%p is poisoned and not mapped", (void *) a);
            uintptr_t x = s->e < e ? s->e : e;
            if(!zoneseg(s)) {
                size_t in = 0;
                for(int k = 0; k < nF; k++) {
                    uintptr_t b = (uintptr_t) F[k].p, t = b + F[k].n;
                    if(F[k].big && b < x && t > a) in += (t < x ? t : x) - (b > a ? b : a);
                }
                if(in != x - a) mc_fail("%zu bytes at %p are poisoned, of which %zu are in freed big allocations", x - a, (void *) a, in);
            }
            a = x;
        }
    }
}
static void flush(void) { iso_flush_caches(); for(int i = 0; i < nF; i++) F[i].done = true; judge(); }
static const size_t A[] = {24, 200, 1024, 9000, 65537, 100000};
static void start(int v) {
    env_reset((int[]){PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN}[v & 3]);
    env.madv_drop = (v & 3) == 2; env.huge = (v & 3) == 1; nF = 0;
    env.on_event = ev;
    iso_alloc_initialize();
    judge();
}
/* every size class through every freeing call */
static long ccount(int v) { (void) v; return 2048 + 40; }
static void citem(long k) {
    size_t n = k < 2048 ? (size_t) (k + 1) * 32 : 65537 + (k - 2048) * 3001;
    mc_note("%zu bytes ", n);
    void *h = n <= 65536 ? iso_alloc_new_zone(n) : NULL;
    judge();
    zt[0] = (mz_t){h, n, 0, 0, 0, true};
    for(int how = 0; how <= D_SHRINK; how++)
        for(int z = -1; z < (h && how <= D_PERM ? 1 : 0); z++) {
            void *p[3];
            for(int i = 0; i < 3; i++) { size_t m = z < 0 ? n - (i & 1) : n; p[i] = z < 0 ? i == 2 ? iso_calloc(1, m) : iso_alloc(m) : iso_alloc_from_zone(h); add(p[i], m, z); judge(); }
            release(m_find(p[1]), how); judge();
            flush();
            add(z < 0 ? iso_alloc(n) : iso_alloc_from_zone(h), n, z); judge();
            iso_verify_zones();
            while(nlive) release(nlive - 1, nlive & 1 ? D_SIZE : D_FREE);
            judge(); flush();
        }
    if(h) { iso_alloc_destroy_zone(h); for(int i = nF - 1; i >= 0; i--) if(env_prot((uintptr_t) F[i].p) < 0) F[i] = F[--nF]; judge(); }
    mc_nontrivial(k);
}
static const dom_t classes = {"classes", start, 4, ccount, citem, 1};
/* whole zones: every chunk in use, every chunk freed, the zone retired */
static long fcount(int v) { (void) v; return 48; }
static void fitem(long k) {
    size_t n = k < 16 ? (size_t) 4096 << (k & 3) : (size_t) 1025 + 1361 * (k - 16);
    bool priv = k & 1;
    void *h = priv ? iso_alloc_new_zone(n) : NULL;
    zt[0] = (mz_t){h, n, 0, 0, 0, true};
    size_t c = 1024; while(c < n) c <<= 1;
    int cnt = (int) (ZUS / c);
    mc_note("%zu bytes%s ", n, priv ? " of its own" : "");
    for(int r = 0; r < 3; r++) {
        for(int i = 0; i < cnt + (priv ? 0 : 3); i++) {
            void *p = priv ? iso_alloc_from_zone(h) : iso_alloc(n);
            if(!p && priv) break;
            add(p, n, priv ? 0 : -1);
        }
        judge();
        while(nlive > (r == 1 ? 2 : 0)) { release(r & 1 ? nlive - 1 : 0, nlive & 3 ? D_FREE : D_SIZE); if(nlive % 97 == 0) judge(); }
        judge(); flush();
        iso_verify_zones();
    }
    if(priv) { nlive = 0; iso_alloc_destroy_zone(h); judge(); }
    mc_nontrivial(5000 + k);
}
static const dom_t full = {"full", start, 4, fcount, fitem, 1};
/* histories */
static void o_alloc(int k) { add(iso_alloc(A[k]), A[k], -1); }
static void o_calloc(int k) { add(iso_calloc(1, A[k]), A[k], -1); }
static bool zen(int k) { (void) k; return nzt && zt[0].live; }
static bool zno(int k) { (void) k; return !nzt; }
static void o_newz(int k) { zt[0] = (mz_t){iso_alloc_new_zone(k), k, 0, 0, 0, true}; nzt = 1; }
static void o_zalloc(int k) { (void) k; add(iso_alloc_from_zone(zt[0].h), zt[0].csz, 0); }
static void o_zdestroy(int k) { (void) k; for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == 0) m_take(i); iso_alloc_destroy_zone(zt[0].h); zt[0].live = false; }
static bool en(int k) { return nlive > (k >> 3) && (live[nlive - 1 - (k >> 3)].zone < 0 || (k & 7) == D_FREE || (k & 7) == D_PERM); }
static void o_rel(int k) { release(nlive - 1 - (k >> 3), k & 7); }
static void o_flush(int k) { (void) k; flush(); }
static void o_verify(int k) { (void) k; iso_verify_zones(); }
static void o_churn(int k) { for(int i = 0; i < k; i++) { size_t n = i & 1 ? 70000 : 24; add(iso_alloc(n), n, -1); release(nlive - 1, D_FREE); } }
static void o_retire(int k) { for(int i = 0; i < 130; i++) { add(iso_alloc(k), k, -1); release(nlive - 1, D_SIZE); } }
#if defined ISO_DTOR_CLEANUP && ISO_DTOR_CLEANUP
static void o_restart(int k) { (void) k; m_check_all(); iso_alloc_destroy(); nlive = nF = 0; nzt = 0; if(as_ranges()) { uintptr_t a, e; as_range(0, &a, &e); mc_fail("%zu bytes at %p stay poisoned after everything was torn down", (size_t) (e - a), (void *) a); } iso_alloc_initialize(); }
#endif
static const op_t ops[] = {
#if defined ISO_DTOR_CLEANUP && ISO_DTOR_CLEANUP
    {"restart", NULL, o_restart, 0},
#endif
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"alloc", NULL, o_alloc, 4}, {"alloc", NULL, o_alloc, 5}, {"calloc", NULL, o_calloc, 1}, {"calloc", NULL, o_calloc, 5},
    {"newzone", zno, o_newz, 512}, {"zalloc", zen, o_zalloc, 0}, {"zdestroy", zen, o_zdestroy, 0},
    {"free", en, o_rel, D_FREE}, {"free_size", en, o_rel, D_SIZE}, {"perm", en, o_rel, D_PERM}, {"realloc", en, o_rel, D_REALLOC}, {"shrink", en, o_rel, D_SHRINK},
    {"free2", en, o_rel, 8 + D_FREE}, {"perm2", en, o_rel, 8 + D_PERM}, {"free_size3", en, o_rel, 16 + D_SIZE},
    {"flush", NULL, o_flush, 0}, {"verify", NULL, o_verify, 0}, {"churn", NULL, o_churn, 4}, {"retire", NULL, o_retire, 65536},
};
static void leaf(void) {
    m_outcome();
    flush();
    for(unsigned i = 0; i < 6; i++) { add(iso_alloc(A[i]), A[i], -1); judge(); }
    while(nlive) release(0, live[0].zone >= 0 ? D_FREE : nlive % 3 ? D_SIZE : D_FREE);
    flush();
}
static void hinit(int v) {
    start(v); nzt = 0;
    if(v & 4) {
        for(int i = 0; i < 6; i++) for(int r = 0; r < 2; r++) add(iso_alloc(A[i]), A[i], -1);
        release(2, D_FREE); release(0, D_SIZE); release(6, D_FREE); release(5, D_SIZE); release(4, D_PERM);
    }
    judge();
}
static const seq_t hist = {"history", hinit, 8, ops, sizeof ops / sizeof *ops, judge, leaf, 3, 4};
static const scen_t sc[] = {MC_DOM(classes), MC_DOM(full), MC_SEQ(hist)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
