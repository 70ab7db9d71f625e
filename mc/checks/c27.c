/* C27: references to a freed chunk are replaced by the address of an inaccessible page, and nothing else changes */
#include "../mm.h"

static uint8_t *shadow[MAXLIVE]; /* by slot number kept in live[].tag */
static int nslot;
static uintptr_t trap;
static bool hit;
typedef struct { uint8_t *at; uint64_t was; bool ok; } loc_t;
static loc_t loc[64]; static int nloc;
static uintptr_t pend[16]; static int npend;
static int nunmap;
static void ev(int k, uintptr_t a, size_t n, int p) { (void) a; (void) n; (void) p; if(k == FK_MUNMAP) nunmap++; }

static uint64_t rd(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static void track(blk_t *b) {
    b->tag = nslot; shadow[nslot] = malloc(b->use);
    memcpy(shadow[nslot++], b->p, b->use);
    for(int i = 0; i < npend; i++) if(pend[i] == (uintptr_t) b->p) { memmove(&pend[i], &pend[i + 1], (npend - i - 1) * sizeof *pend); npend--; i--; }
}
static blk_t *add(void *p, size_t n, int zone) {
    for(int i = 0; i < nloc; i++) if(loc[i].at + 8 > (uint8_t *) p && loc[i].at < (uint8_t *) p + n) loc[i--] = loc[--nloc];
    blk_t *b = m_add_nofill(p, n, zone);
    for(size_t i = 0; i < b->use; i++) b->p[i] = m_byte(7, i);
    track(b);
    return b;
}
static bool mapped(const uint8_t *p) { return env_all((uintptr_t) p, 8, RW); }
static bool inbig(const uint8_t *p) { for(int i = 0; i < nlive; i++) if(p >= live[i].p && p < live[i].p + live[i].use) return live[i].use > 65536; return false; }
static void before(void) {
    nunmap = 0;
    for(int i = 0; i < nloc; i++) { loc[i].ok = mapped(loc[i].at); loc[i].was = loc[i].ok ? rd(loc[i].at) : 0; }
}
/* after an operation: which words changed. must: this address was certainly released now */
static void after(uintptr_t must, const blk_t *freed) {
    int cnt[16] = {0}, mustn = 0, mustc = 0;
    for(int i = 0; i < nloc; i++) {
        if(!loc[i].ok) continue;
        if(!mapped(loc[i].at)) { loc[i--] = loc[--nloc]; continue; }
        bool own = freed && loc[i].at + 8 > freed->p && loc[i].at < freed->p + freed->use; /* the freed chunk itself may have been cleared */
        uint64_t now = rd(loc[i].at);
        bool big = inbig(loc[i].at);
        if(loc[i].was == must && must && !own && !big) mustn++;
        if(now == loc[i].was) continue;
        mc_eval(1);
        int k = -1;
        if(loc[i].was == must && must) mustc++;
        else { for(k = npend - 1; k >= 0 && pend[k] != loc[i].was; k--); }
        bool released = (loc[i].was == must && must) || k >= 0;
        if(!released) continue; /* another word that overlaps it changed, or the memory was reused: the shadow decides */
        if(now != trap && trap) { /* not the word replaced; an overlapping one may have been */
            if(loc[i].was == must && must) mustc--;
            continue;
        }
        if(!trap) {
            if(env_prot(now) != PROT_NONE || now % PAGE) { if(loc[i].was == must && must) mustc--; continue; }
            trap = now;
        }
        if(env_prot(trap) != PROT_NONE) mc_fail("a reference was replaced by the accessible address %#lx", (unsigned long) trap);
        if(!hit) mc_fail("a free that was not selected replaced the word at %p", (void *) loc[i].at);
        if(big) mc_fail("a word of a big allocation was replaced");
        if(k >= 0 && ++cnt[k] > 1) mc_fail("one free replaced two references");
        /* the shadow follows the replaced word */
        for(int j = 0; j < nlive; j++) for(int q = 0; q < 8; q++) if(loc[i].at + q >= live[j].p && loc[i].at + q < live[j].p + live[j].use) shadow[live[j].tag][loc[i].at + q - live[j].p] = loc[i].at[q];
    }
    if(mustc > 1) mc_fail("one free replaced %d references", mustc);
    if(hit && must && mustn && !mustc && !nunmap) mc_fail("%d references to the freed chunk %#lx exist and none was replaced", mustn, (unsigned long) must);
    for(int i = 0; i < nlive; i++) {
        if(!env_all((uintptr_t) live[i].p, live[i].use, RW)) mc_fail("a live allocation became inaccessible");
        for(size_t o = 0; o < live[i].use; o++) if(live[i].p[o] != shadow[live[i].tag][o]) mc_fail("byte %zu of the live allocation %p of %zu bytes changed from %#x to %#x", o, (void *) live[i].p, live[i].use, shadow[live[i].tag][o], live[i].p[o]);
    }
    mc_nontrivial((uint64_t) mustn << 32 | mustc << 16 | nloc);
}
static void put(blk_t *b, size_t off, uintptr_t v) {
    memcpy(b->p + off, &v, 8); memcpy(shadow[b->tag] + off, &v, 8);
    uint8_t *at = b->p + off;
    for(int i = 0; i < nloc; i++) if(loc[i].at == at) return;
    loc[nloc++].at = at;
}

static void begin(int v) {
    static const size_t keep[] = {64, 1500};
    env_reset((v & 1) ? PL_REUSE : PL_SPREAD);
    env.rmode = (v & 2) ? RM_CONST : RM_HIT; /* selected: every free; otherwise none */
    hit = !(v & 2);
    iso_alloc_initialize();
    zt[0] = (mz_t){iso_alloc_new_zone(256), 256, 0, 0, 0, true}; nzt = 1;
    if(v & 4) { /* aged: holes and stale memory */
        void *p[12];
        for(int i = 0; i < 12; i++) { p[i] = iso_alloc(i & 1 ? 64 : 1500); memset(p[i], 0x11, 64); }
        for(int i = 0; i < 12; i += 2) iso_free(p[i + 1 - (i & 2) / 2]);
        iso_flush_caches();
    }
    for(int i = 0; i < 2; i++) add(iso_alloc(keep[i]), keep[i], -1);
    env.on_event = ev;
}
static const size_t A[] = {64, 1500, 70000};
static void o_alloc(int k) { before(); uint8_t *p = iso_alloc(A[k]); add(p, A[k], -1); after(0, NULL); }
static void o_zalloc(int k) { (void) k; before(); add(iso_alloc_from_zone(zt[0].h), 256, 0); after(0, NULL); }
static bool have(int k) { return nlive > k; }
/* arg: holder (from the newest) | target << 2 (3: the holder itself) | position << 4 */
static bool s_en(int a) { int h = a & 3, t = a >> 2 & 3; return nlive > h && (t == 3 || nlive > t) && nloc < 60; }
static void o_store(int a) {
    blk_t *h = &live[nlive - 1 - (a & 3)]; int t = a >> 2 & 3, pos = a >> 4;
    blk_t *x = t == 3 ? h : &live[nlive - 1 - t];
    size_t off = pos == 0 ? 8 : pos == 1 ? 13 : h->use - 16;
    before(); put(h, off, (uintptr_t) x->p); before(); after(0, NULL);
}
enum { F_FREE, F_FLUSHED, F_SIZE, F_PERM };
static void o_free(int a) {
    int how = a >> 2;
    if((a & 3) >= nlive) return;
    before();
    int i = nlive - 1 - (a & 3);
    blk_t b = live[i];
    memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--;
    bool small = b.use <= 65536;
    if(b.zone >= 0) { if(how == F_PERM) iso_free_from_zone_permanently(b.p, zt[0].h); else iso_free_from_zone(b.p, zt[0].h); after((uintptr_t) b.p, &b); return; }
    bool empty = npend == 0;
    if(how == F_FREE || (how == F_FLUSHED && !empty)) { iso_free(b.p); if(how == F_FLUSHED) iso_flush_caches(); pend[npend++] = (uintptr_t) b.p; after(0, NULL); if(how == F_FLUSHED) npend = 0; }
    else if(how == F_FLUSHED) { iso_free(b.p); iso_flush_caches(); after(small ? (uintptr_t) b.p : 0, small ? &b : NULL); }
    else { if(how == F_SIZE) iso_free_size(b.p, b.req); else iso_free_permanently(b.p); after(small ? (uintptr_t) b.p : 0, small ? &b : NULL); }
    if(!small) for(int k = 0; k < nloc; k++) if(loc[k].at >= b.p && loc[k].at < b.p + b.use) loc[k--] = loc[--nloc];
}
static bool f_en(int a) { return have(a & 3) && npend < 15; }
static void o_flush(int k) { (void) k; before(); iso_flush_caches(); after(0, NULL); npend = 0; }
static bool z_en(int k) { (void) k; return zt[0].live; }
static bool za_en(int k) { (void) k; return zt[0].live; }
static void o_zdel(int k) {
    (void) k; before();
    for(int i = 0; i < nlive; i++) if(live[i].zone == 0) { memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--; i--; }
    iso_alloc_destroy_zone(zt[0].h); zt[0].live = false;
    after(0, NULL); npend = 0;
}
#define ST(h, t, p) {"store", s_en, o_store, (h) | (t) << 2 | (p) << 4}
#define FR(i, h) {"free", f_en, o_free, (i) | (h) << 2}
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2}, {"zalloc", za_en, o_zalloc, 0},
    ST(0, 1, 0), ST(0, 1, 1), ST(1, 0, 0), ST(1, 0, 2), ST(0, 3, 1), ST(2, 0, 0), ST(0, 2, 2),
    FR(0, F_FREE), FR(1, F_FREE), FR(0, F_FLUSHED), FR(1, F_FLUSHED), FR(0, F_SIZE), FR(1, F_SIZE), FR(0, F_PERM), FR(1, F_PERM),
    {"flush", NULL, o_flush, 0}, {"destroy", z_en, o_zdel, 0},
};
static void leaf(void) {
    before(); iso_verify_zones(); iso_flush_caches(); after(0, NULL);
    m_outcome();
}
static const seq_t history = {"history", begin, 8, ops, sizeof ops / sizeof *ops, NULL, leaf, 3, 4};

/* every offset: one reference in a holder, at the start, middle and end of its zone */
typedef struct { uint32_t sz, off; uint8_t where, form; } it_t;
static it_t *its; static long nits;
static void oinit(int v) {
    begin(v);
    static const uint32_t sz[] = {32, 64, 96, 128, 256, 480, 1024, 1536, 4096, 8192, 12000, 65536};
    its = malloc(sizeof *its * 200000); nits = 0;
    for(int s = 0; s < 12; s++) {
        uint32_t n = sz[s];
        for(uint32_t o = 0; o + 8 <= n; o++) {
            if(!(o < (mc_thorough ? 256 : 24) || o + 8 + (mc_thorough ? 256 : 24) > n || (o + 12) % 4096 < 12 || (mc_thorough && n <= 1536) || n <= 64)) continue;
            its[nits++] = (it_t){n, o, (o + s) % 3, (o / 3 + s) % 4};
            if(o + 8 == n || o == 0) for(int w = 0; w < 3; w++) its[nits++] = (it_t){n, o, w, w};
        }
    }
}
static long ocount(int v) { (void) v; return nits; }
static void oitem(long k) {
    it_t t = its[k];
    mc_note("holder of %u bytes, offset %u, place %u, free %u", t.sz, t.off, t.where, t.form);
    /* the holder lies in a zone of its own, at its first, some or its last slot */
    void *z = iso_alloc_new_zone(t.sz);
    zt[1] = (mz_t){z, t.sz, 0, 0, 0, true}; nzt = 2;
    blk_t *h = NULL;
    if(t.where == 0) h = add(iso_alloc_from_zone(z), t.sz, 1);
    else {
        uint8_t *best = NULL;
        for(int i = 0; i < (t.sz >= 4096 ? 1 << 30 : 100); i++) { uint8_t *p = iso_alloc_from_zone(z); if(!p) break; if(!best || (t.where == 2 ? p > best : p < best)) best = p; }
        h = add(best, t.sz, 1);
    }
    uint8_t *hp = h->p;
    blk_t *x = add(iso_alloc(64), 64, -1); (void) x;
    add(iso_alloc(200000), 200000, -1);
    h = &live[m_find(hp)];
    uint8_t *xp = live[nlive - 2].p;
    put(h, t.off, (uintptr_t) xp);
    /* neighbours that are no references */
    if(t.off >= 8) { uintptr_t v = (uintptr_t) xp + 1; memcpy(h->p + t.off - 8, &v, 8); memcpy(shadow[h->tag] + t.off - 8, &v, 8); }
    if(t.off + 16 <= t.sz) { uintptr_t v = (uintptr_t) xp | 1UL << 60; memcpy(h->p + t.off + 8, &v, 8); memcpy(shadow[h->tag] + t.off + 8, &v, 8); }
    o_free(1 | t.form << 2);
    iso_verify_zones();
    mc_nontrivial(k);
}
static const dom_t offsets = {"offsets", oinit, 4, ocount, oitem, 1};
static const scen_t sc[] = {MC_SEQ(history), MC_DOM(offsets)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
