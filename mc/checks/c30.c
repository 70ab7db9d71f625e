/* C30: hardware memory tagging, judged on a model of the hardware (mte.c) */
#include "../mm.h"
#include "../mte.h"
#define MAXF 16384
#define TP(b) ((void *) ((uintptr_t) (b).p | (uintptr_t) (b).tag << 56))
/* released memory: the tag it had, whether the release has been carried out, the draws made before */
typedef struct { uint8_t *p; size_t n; int tag; bool big, done; long first, draws; } fr_t;
static fr_t F[MAXF]; static int nF;
static bool hw;
static void drop(uintptr_t p, size_t n) { for(int i = nF - 1; i >= 0; i--) if((uintptr_t) F[i].p < p + n && p < (uintptr_t) F[i].p + F[i].n) F[i] = F[--nF]; }
static void ev(int kind, uintptr_t a, size_t len, int prot) { (void) prot; if(kind == FK_MUNMAP) drop(a, len); }
static void gone(blk_t b, bool done, long draws) { if(nF == MAXF) mc_fail("harness: too many freed chunks"); F[nF++] = (fr_t){b.p, b.use, b.tag, b.req > 65536, done, draws, draws}; }
static void covered(blk_t *b, long since) {
    for(size_t o = 0; o < b->use; o += 16) {
        int t = mte_tag((uintptr_t) b->p + o);
        if(t < 0) mc_fail("byte %zu of the allocation %p of %zu bytes is in memory without tags", o, TP(*b), b->use);
        if(t != b->tag) mc_fail("byte %zu of the live allocation %p of %zu bytes has tag %d, so a valid access faults", o, TP(*b), b->use, t);
        if(since >= 0 && mte_drawn((uintptr_t) b->p + o) <= since) mc_fail("byte %zu of the allocation %p of %zu bytes has a tag that was not drawn for it", o, TP(*b), b->use);
    }
}
/* since: draws before the call, -1 when the memory may be the same as before */
static blk_t *add(void *tp, size_t n, int z, long since) {
    if(tp == NULL) mc_fail("request for %zu bytes returned NULL", n);
    uint8_t *p = UNTAG(tp); int t = TAGOF(tp);
    if(!hw && t) mc_fail("request for %zu bytes returned the tagged pointer %p, the hardware has no tags", n, tp);
    if(hw && (t < 1 || t > 15)) mc_fail("request for %zu bytes returned %p, which has no tag", n, tp);
    blk_t *b = m_add_nofill(p, n, z);
    b->tag = t;
    if(iso_chunksz(tp) != b->use) mc_fail("the usable size of %p is %zu with its tag and %zu without", tp, iso_chunksz(tp), b->use);
    if(hw) covered(b, since);
    m_fill(b);
    drop((uintptr_t) b->p, b->use);
    return b;
}
static void judge(void) {
    mc_eval(1);
    if(hw != mte_on()) mc_fail("tag checks are %s, the hardware has %s", mte_on() ? "on" : "off", hw ? "them" : "none");
    for(int i = 0; i < nlive; i++) if(hw) covered(&live[i], -1);
    for(int i = 0; i < nF && hw; i++) {
        fr_t *f = &F[i];
        if(env_prot((uintptr_t) f->p) <= PROT_NONE) continue;
        /* the first granule at once, and with another tag when the pointer was given to iso_free */
        for(size_t o = 0; o < (f->done && !f->big ? f->n : 16); o += 16) {
            int t = mte_tag((uintptr_t) f->p + o);
            if(t < 0) mc_fail("freed memory %p has no tags", (void *) f->p);
            bool fresh = mte_drawn((uintptr_t) f->p + o) > f->draws;
            if(t == f->tag && !fresh) mc_fail("byte %zu of the freed %s %p of %zu bytes still has its tag %d, so a stale pointer works%s", o, f->big ? "big allocation" : "chunk", (void *) f->p, f->n, t, f->done ? "" : " (the free is delayed)");
        }
        if(!f->done && !f->big && mte_tag((uintptr_t) f->p) == f->tag) {
            /* until the free is carried out the tag is one other than the old */
            bool rest = true;
            for(size_t o = 16; o < f->n; o += 16) rest &= mte_drawn((uintptr_t) f->p + o) > f->draws;
            if(f->n > 16 && !rest) mc_fail("the first bytes of the freed chunk %p have its old tag %d again, so a stale pointer works", (void *) f->p, f->tag);
        }
    }
}
enum { D_FREE, D_SIZE, D_PERM, D_REALLOC, D_SHRINK };
static void release(int i, int how) {
    blk_t b = live[i];
    void *tp = TP(b);
    long d = mte.draws;
    if(b.zone >= 0) {
        m_take(i); gone(b, true, d);
        if(how == D_PERM) iso_free_from_zone_permanently(tp, zt[b.zone].h); else iso_free_from_zone(tp, zt[b.zone].h);
        return;
    }
    size_t n;
    switch(how) {
    case D_FREE: m_take(i); gone(b, false, d); iso_free(tp); break;
    case D_SIZE: m_take(i); if(b.req <= 65536) gone(b, true, d); iso_free_size(tp, b.req); break;
    case D_PERM: m_take(i); gone(b, true, d); iso_free_permanently(tp); break;
    case D_REALLOC: case D_SHRINK:
        n = how == D_REALLOC ? b.use + 100 : b.use / 2 + 1;
        if(n > 300000) n = 300000;
        m_take(i);
        uint8_t *r = iso_realloc(tp, n);
        if(UNTAG(r) != b.p) { if(b.req <= 65536) gone(b, true, d); }
        for(size_t k = 0; k < n && k < b.use && k < HEAD && r; k++) if(((uint8_t *) UNTAG(r))[k] != m_byte(b.pat, k)) mc_fail("byte %zu is not kept by realloc", k);
        add(r, n, -1, UNTAG(r) == b.p ? -1 : d);
        break;
    }
}
static blk_t *al(size_t n) { long d = mte.draws; return add(iso_alloc(n), n, -1, d); }
static blk_t *cal(size_t n) {
    long d = mte.draws;
    uint8_t *p = iso_calloc(1, n), *u = UNTAG(p);
    for(size_t i = 0; i < n && u; i++) if(u[i]) mc_fail("byte %zu of a cleared allocation is %#x", i, u[i]);
    return add(p, n, -1, d);
}
static blk_t *zal(int z) { long d = mte.draws; void *p = iso_alloc_from_zone(zt[z].h); return p ? add(p, zt[z].csz, z, d) : NULL; }
static void flush(void) { iso_flush_caches(); for(int i = 0; i < nF; i++) F[i].done = true; judge(); }
static const size_t A[] = {24, 200, 1024, 9000, 65537, 100000};
/* variants: address policy and drawing policy, then 4 of hardware without tags */
static void start(int v) {
    env_reset((int[]){PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN}[v & 3]);
    env.madv_drop = (v & 3) == 2; env.huge = (v & 3) == 1; nF = 0;
    env.on_event = ev;
    mte_start();
    env.mte = mte.present = hw = v < 4;
    mte.policy = v & 3;
    iso_alloc_initialize();
    judge();
}
/* every size class through every freeing call */
static long ccount(int v) { return mc_thorough || v == 3 ? 2048 + 40 : 261 + 5; }
static void citem(long k) {
    if(!mc_thorough && mc_variant != 3) k = k < 261 ? (k * 47 + mc_variant * 5) % 2048 : 2048 + (k - 261) * 8 + mc_variant;
    size_t n = k < 2048 ? (size_t) (k + 1) * 32 : 65537 + (k - 2048) * 3001;
    mc_note("%zu bytes ", n);
    void *h = n <= 65536 ? iso_alloc_new_zone(n) : NULL;
    zt[0] = (mz_t){h, n, 0, 0, 0, true};
    for(int how = 0; how <= D_SHRINK; how++)
        for(int z = -1; z < (h && how <= D_PERM ? 1 : 0); z++) {
            uint8_t *p[3];
            for(int i = 0; i < 3; i++) { size_t m = z < 0 ? n - (i & 1) : n; p[i] = (z >= 0 ? zal(z) : i == 2 ? cal(m) : al(m))->p; }
            judge();
            release(m_find(p[1]), how); judge();
            flush();
            if(z < 0) al(n); else zal(z);
            judge();
            iso_verify_zones();
            while(nlive) release(nlive - 1, nlive & 1 ? D_SIZE : D_FREE);
            judge(); flush();
        }
    if(h) { iso_alloc_destroy_zone(h); judge(); }
    mc_nontrivial(k);
}
static const dom_t classes = {"classes", start, 8, ccount, citem, 1};
/* whole zones: every chunk in use, every chunk freed, the zone retired */
#define ZUS (4UL << 20)
static long fcount(int v) { (void) v; return 48; }
static void fitem(long k) {
    size_t n = k < 16 ? (size_t) 4096 << (k & 3) : (size_t) 1025 + 1361 * (k - 16);
    bool priv = k & 1;
    void *h = priv ? iso_alloc_new_zone(n) : NULL;
    zt[0] = (mz_t){h, n, 0, 0, 0, true};
    size_t c = 1024; while(c < n) c <<= 1;
    int cnt = (int) (ZUS / c);
    mc_note("%zu bytes%s ", n, priv ? " of its own" : "");
    for(int r = 0; r < 3; r++) {
        for(int i = 0; i < cnt + (priv ? 0 : 3); i++) if(priv) { if(!zal(0)) break; } else al(n);
        judge();
        while(nlive > (r == 1 ? 2 : 0)) { release(r & 1 ? nlive - 1 : 0, nlive & 3 ? D_FREE : D_SIZE); if(nlive % 97 == 0) judge(); }
        judge(); flush();
        iso_verify_zones();
    }
    if(priv) { nlive = 0; iso_alloc_destroy_zone(h); judge(); }
    mc_nontrivial(5000 + k);
}
static const dom_t full = {"full", start, 8, fcount, fitem, 1};
/* histories */
static void o_alloc(int k) { al(A[k]); }
static void o_calloc(int k) { cal(A[k]); }
static void o_strdup(int k) { (void) k; long d = mte.draws; char *p = iso_strdup("a string of forty-three characters, no more"); add(p, 44, -1, d); }
static bool zen(int k) { (void) k; return nzt && zt[0].live; }
static bool zno(int k) { (void) k; return !nzt; }
static void o_newz(int k) { zt[0] = (mz_t){iso_alloc_new_zone(k), k, 0, 0, 0, true}; nzt = 1; }
static void o_zalloc(int k) { (void) k; zal(0); }
static void o_zdestroy(int k) { (void) k; for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == 0) m_take(i); iso_alloc_destroy_zone(zt[0].h); zt[0].live = false; }
static bool en(int k) { return nlive > (k >> 3) && (live[nlive - 1 - (k >> 3)].zone < 0 || (k & 7) == D_FREE || (k & 7) == D_PERM); }
static void o_rel(int k) { release(nlive - 1 - (k >> 3), k & 7); }
static void o_flush(int k) { (void) k; flush(); }
static void o_verify(int k) { (void) k; iso_verify_zones(); iso_alloc_detect_leaks(); }
static void o_churn(int k) { for(int i = 0; i < k; i++) { al(i & 1 ? 70000 : 24); release(nlive - 1, D_FREE); } }
static void o_retire(int k) { for(int i = 0; i < 130; i++) { al(k); release(nlive - 1, D_SIZE); } }
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"alloc", NULL, o_alloc, 4}, {"alloc", NULL, o_alloc, 5}, {"calloc", NULL, o_calloc, 1}, {"calloc", NULL, o_calloc, 5}, {"strdup", NULL, o_strdup, 0},
    {"newzone", zno, o_newz, 512}, {"zalloc", zen, o_zalloc, 0}, {"zdestroy", zen, o_zdestroy, 0},
    {"free", en, o_rel, D_FREE}, {"free_size", en, o_rel, D_SIZE}, {"perm", en, o_rel, D_PERM}, {"realloc", en, o_rel, D_REALLOC}, {"shrink", en, o_rel, D_SHRINK},
    {"free2", en, o_rel, 8 + D_FREE}, {"perm2", en, o_rel, 8 + D_PERM}, {"free_size3", en, o_rel, 16 + D_SIZE},
    {"flush", NULL, o_flush, 0}, {"verify", NULL, o_verify, 0}, {"churn", NULL, o_churn, 4}, {"retire", NULL, o_retire, 65536},
};
static void leaf(void) {
    m_outcome();
    flush();
    for(unsigned i = 0; i < 6; i++) al(A[i]);
    judge();
    while(nlive) release(0, live[0].zone >= 0 ? D_FREE : nlive % 3 ? D_SIZE : D_FREE);
    flush();
}
static void hinit(int v) {
    start(v & 7); nzt = 0;
    if(v & 8) {
        for(int i = 0; i < 6; i++) for(int r = 0; r < 2; r++) al(A[i]);
        release(2, D_FREE); release(0, D_SIZE); release(6, D_FREE); release(5, D_SIZE); release(4, D_PERM);
    }
    judge();
}
static const seq_t hist = {"history", hinit, 16, ops, sizeof ops / sizeof *ops, judge, leaf, 2, 3};
static const scen_t sc[] = {MC_DOM(classes), MC_DOM(full), MC_SEQ(hist)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
