/* C08: one byte of a free chunk's canary is changed: every later observer ends the process */
#include "../mm.h"
static size_t S[3000]; static int nS;
static uint8_t *slot[140000]; static int nslot; static bool used[140000]; /* whole zone by position; !used: canary chunk */
static size_t csz; static void *h; static uint8_t *zbase;
static void init(int v) {
    m_start(v);
    nS = 0;
    if(mc_thorough) { for(size_t c = 32; c <= 65536; c += c < 2048 ? 32 : c < 16384 ? 256 : 2048) S[nS++] = c; }
    else { static const size_t q[] = {32, 64, 96, 160, 512, 992, 1024, 2048, 4096, 4128, 8192, 8224, 12000, 16384, 32768, 65504, 65536}; for(unsigned i = 0; i < sizeof q / sizeof *q; i++) S[nS++] = q[i]; }
}
#define NPOS 8
#define KINDS 4 /* freed, freed twice over its life, permanently freed, canary chunk */
static long count(int v) { (void) v; return (long) nS * KINDS; }
static uint8_t *victim, *left, *right;
typedef struct { int trig; int off; uint8_t x; } rq_t;
static const char *tn[] = {"whole-heap verification", "zone verification", "reuse", "release of the left neighbour", "release of the right neighbour", "iso_free of the left neighbour and flush", "iso_free of the right neighbour and flush", "sized free of the left neighbour", "permanent free of the right neighbour"};
#define NT 9
static void fire(int t) {
    switch(t) {
    case 0: iso_verify_zones(); break;
    case 1: iso_verify_zone(h); break;
    case 2: for(int i = 0; i < 4; i++) if(!iso_alloc_from_zone(h)) break; break;
    case 3: iso_free_from_zone(left, h); break;
    case 4: iso_free_from_zone(right, h); break;
    case 5: iso_free(left); iso_flush_caches(); break;
    case 6: iso_free(right); iso_flush_caches(); break;
    case 7: iso_free_size(left, csz); break;
    case 8: iso_free_from_zone_permanently(right, h); break;
    }
}
static bool applies(int t, int kind) {
    if(t == 2) return kind < 2;
    if(t == 3 || t == 5 || t == 7) return left != NULL;
    if(t == 4 || t == 6 || t == 8) return right != NULL;
    return true;
}
static void go(void *a) {
    rq_t *r = a;
    if(r->off >= 0) victim[r->off < 8 ? r->off : csz - 16 + r->off] ^= r->x;
    fire(r->trig);
}
static int posn(uint8_t *p) { return (p - zbase) / csz; }
static void item(long k) {
    csz = S[k / KINDS];
    int kind = k % KINDS;
    mc_note(" %zu byte chunks, kind %d", csz, kind);
    h = iso_alloc_new_zone(csz);
    if(!h) mc_fail("no zone for %zu byte chunks", csz);
    /* take everything the zone has */
    static uint8_t *all[140000]; int n = 0;
    for(uint8_t *p; (p = iso_alloc_from_zone(h)); ) all[n++] = p;
    const seg_t *sg = env_seg((uintptr_t) all[0]);
    zbase = (uint8_t *) sg->s;
    nslot = (sg->e - sg->s) / csz;
    memset(used, 0, sizeof used);
    int hi = 0;
    for(int i = 0; i < n; i++) { if((all[i] - zbase) % csz) mc_fail("harness: zone layout"); used[posn(all[i])] = true; if(posn(all[i]) > hi) hi = posn(all[i]); }
    int cand[64], nc = 0;
    if(kind < 3) {
        int want[] = {0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 63, 64, hi, hi - 1, hi / 2, hi / 2 + 1, hi - 31, hi - 32, hi - 33};
        int lim = mc_thorough ? 12 : NPOS;
        for(unsigned i = 0; i < sizeof want / sizeof *want && nc < lim; i++) {
            int w = want[mc_thorough ? i : (i * 7 + csz / 32) % 19]; bool dup = w < 0 || w > hi || !used[w];
            for(int j = 0; j < nc; j++) dup |= cand[j] == w;
            if(!dup) cand[nc++] = w;
        }
    } else
        for(int i = 0; i < hi && nc < (mc_thorough ? 8 : 3); i++) if(!used[i]) cand[nc++] = i;
    for(int c = 0; c < nc; c++) {
        int i = cand[c];
        victim = zbase + (size_t) i * csz;
        left = i > 0 && used[i - 1] ? victim - csz : NULL;
        right = i < hi && used[i + 1] ? victim + csz : NULL;
        if(kind == 0) iso_free_from_zone(victim, h);
        if(kind == 1) { iso_free(victim); iso_flush_caches(); if(iso_alloc_from_zone(h) != victim) mc_fail("the only free chunk of a full zone was not handed out"); memset(victim, 0xa5, csz); iso_free_size(victim, csz); }
        if(kind == 2) iso_free_from_zone_permanently(victim, h);
        if(victim[0] || victim[csz - 8]) mc_fail("the first byte of a canary of a %zu byte chunk is %#x / %#x, not zero", csz, victim[0], victim[csz - 8]);
        /* undamaged: nothing objects */
        for(int t = 0; t < NT; t++) if(applies(t, kind)) {
            rq_t r = {t, -1, 0};
            if(mc_death(go, &r) != D_OK) mc_fail("%s terminated the process although no canary was touched (%zu byte chunks, position %d)", tn[t], csz, i);
        }
        for(int off = 0; off < 16; off++) {
            static const uint8_t X[] = {0x01, 0x80, 0xff, 0x10};
            for(int x = 0; x < 4; x++) {
                if(!mc_thorough && x != (off + c) % 4) continue;
                for(int t = 0; t < NT; t++) {
                    if(!applies(t, kind)) continue;
                    rq_t r = {t, off, X[x]};
                    int d = mc_death(go, &r);
                    if(d != D_ABORT) mc_fail("%s did not notice byte %d of the %s canary of a free %zu byte chunk at position %d changed by %#x (kind %d)", tn[t], off % 8, off < 8 ? "leading" : "trailing", csz, i, X[x], kind);
                    mc_eval(1);
                }
            }
        }
        mc_nontrivial(csz * 64 + c * 4 + kind);
        if(kind < 2) { if(iso_alloc_from_zone(h) != victim) mc_fail("the only free chunk of a full zone was not handed out"); }
        if(kind == 2) used[i] = false;
    }
    iso_verify_zones();
    m_audit();
}
static const dom_t can = {"canary", init, 8, count, item, 1};

/* the same through the general allocation calls, at every point of short histories */
static const size_t A[] = {64, 1000, 8192};
static uint8_t *fr[64]; static size_t fsz[64]; static int nfr;
static void ginit(int v) { m_start(v); nfr = 0; for(int i = 0; i < 3; i++) for(int j = 0; j < 2; j++) m_add(iso_alloc(A[i]), A[i], -1); iso_flush_caches(); }
static void drop_overlap(uint8_t *p, size_t n) { for(int i = 0; i < nfr; i++) if(p < fr[i] + fsz[i] && fr[i] < p + n) { fr[i] = fr[--nfr]; fsz[i] = fsz[nfr]; i--; } }
static void o_alloc(int k) { blk_t *b = m_add(iso_alloc(A[k]), A[k], -1); drop_overlap(b->p, b->use); }
static bool have(int k) { (void) k; return nlive > 0; }
static void o_free(int k) {
    blk_t b = m_take(k & 1 ? 0 : nlive - 1);
    if(k < 2) { iso_free_size(b.p, b.req); }
    else if(k < 4) iso_free_permanently(b.p);
    else { iso_free(b.p); iso_flush_caches(); }
    if(nfr < 60) { fr[nfr] = b.p; fsz[nfr++] = b.use; }
}
static void o_realloc(int k) { (void) k; blk_t b = m_take(nlive - 1); uint8_t *r = iso_realloc(b.p, A[1]); drop_overlap(r, iso_chunksz(r)); m_add(r, A[1], -1); if(nfr < 60) { fr[nfr] = b.p; fsz[nfr++] = b.use; } }
static int hitf; static int hito; static int hitt;
static void hit(void *a) {
    (void) a;
    fr[hitf][hito < 8 ? hito : fsz[hitf] - 16 + hito] ^= 0x20;
    if(hitt == 0) iso_verify_zones();
    else { /* handed out at the latest when its class is exhausted; verification catches permanent ones */
        for(int i = 0; i < 3000; i++) { uint8_t *p = iso_alloc(fsz[hitf]); if(p == fr[hitf]) mc_fail("a free chunk with a damaged canary was handed out"); }
        iso_verify_zones();
    }
}
static void gleaf(void) {
    for(int i = 0; i < nfr; i++) {
        if(env_prot((uintptr_t) fr[i]) != RW) continue;
        if(fr[i][0] || fr[i][fsz[i] - 8]) mc_fail("the first byte of a canary is not zero");
        for(int o = 0; o < 16; o += 5) { hitf = i; hito = o; hitt = o == 5 && fsz[i] >= 8192; if(mc_death(hit, NULL) != D_ABORT) mc_fail("damage to byte %d of the canaries of free chunk %p (%zu bytes) was not detected", o, (void *) fr[i], fsz[i]); mc_eval(1); }
    }
    m_audit();
}
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2},
    {"free_size", have, o_free, 0}, {"free_size", have, o_free, 1}, {"perm", have, o_free, 2}, {"perm", have, o_free, 3}, {"free_flush", have, o_free, 4}, {"realloc", have, o_realloc, 0},
};
static const seq_t hist = {"history", ginit, 8, ops, sizeof ops / sizeof *ops, NULL, gleaf, 3, 5};
static const scen_t sc[] = {MC_DOM(can), MC_SEQ(hist)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
