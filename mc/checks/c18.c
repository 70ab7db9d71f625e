/* C18: software memory tags: the tag of every chunk of every private zone is followed
 * through all operations by asking for it, and every other value is refused */
#include "../mm.h"
#ifndef MC_RETIRE
#define MC_RETIRE 1
#endif
#define MAXZ 12
#define MAXC 131072
typedef struct { uint8_t *base; int n; long allocs, act; uint8_t t[MAXC]; } tz_t;
static tz_t tzs[MAXZ];

static uint8_t *base_of(uint8_t *p) { const seg_t *s = env_seg((uintptr_t) p); if(!s) mc_fail("chunk %p is not mapped", (void *) p); return (uint8_t *) s->s; }
static uint8_t tag_of(int z, int i) { return iso_alloc_get_mem_tag(tzs[z].base + (size_t) i * zt[z].csz, zt[z].h); }
static void read_tags(int z) { for(int i = 0; i < tzs[z].n; i++) tzs[z].t[i] = tag_of(z, i); }
static int slot(int z, const uint8_t *p) { return (int) ((p - tzs[z].base) / zt[z].csz); }
/* the last free of a chunk of zone z: which tags may have changed */
enum { E_NONE, E_ONE, E_ALL, E_EITHER };
static void expect(int z, int i, int what, uint8_t nb) {
    if(!zt[z].live) return;
    tz_t *t = &tzs[z];
    long changed = 0, kept = 0;
    for(int k = 0; k < t->n; k++) {
        uint8_t g = tag_of(z, k);
        bool self = k == i;
        if(g != t->t[k]) changed++; else if(t->t[k] != nb) kept++;
        if(self && what != E_NONE) { if(g == t->t[k] && t->t[k] != nb) mc_fail("the tag %#x of chunk %d of a zone of %zu byte chunks did not change when the chunk was freed", g, k, zt[z].csz); }
        else if(what == E_NONE || what == E_ONE) { if(g != t->t[k]) mc_fail("the tag of chunk %d of a zone of %zu byte chunks changed from %#x to %#x (%s)", k, zt[z].csz, t->t[k], g, what == E_NONE ? "no chunk of the zone was freed" : "another chunk was freed"); }
        t->t[k] = g;
    }
    if(what == E_ALL && kept) mc_fail("the zone of %zu byte chunks reached its refresh age with no chunk in use, but %ld of %d tags were kept", zt[z].csz, kept, t->n);
    if(what == E_EITHER && kept && changed > 1) mc_fail("the tags of a zone of %zu byte chunks were refreshed in part", zt[z].csz);
    mc_eval(1);
}
static void expect_none(void) { for(int z = 0; z < nzt; z++) expect(z, -1, E_NONE, 0); }
static int due(int z) {
    tz_t *t = &tzs[z];
    if(t->act) return E_ONE;
    long age = ((long) t->n * MC_RETIRE) >> 2;
    return t->allocs > age ? E_ALL : t->allocs == age ? E_EITHER : E_ONE;
}
/* every random draw made by a free is a byte pattern different from the tag it replaces */
static uint8_t rnd_for(int z, int i) { uint8_t nb = tzs[z].t[i] ^ 0x5b; if(!nb) nb = 0x5c; env.rmode = RM_CONST; env.rconst = nb * 0x0101010101010101ULL; return nb; }
static void rnd_off(void) { env.rmode = RM_PASS; }

static void zone_new(int csz) {
    if(nzt >= MAXZ) mc_fail("harness: zones");
    int z = nzt++;
    zt[z] = (mz_t){iso_alloc_new_zone(csz), csz, 0, 0, 0, true};
    if(!zt[z].h) mc_fail("no zone of %d byte chunks", csz);
    uint8_t *p = iso_alloc_from_zone(zt[z].h);
    m_add(p, csz, z);
    tzs[z].allocs = tzs[z].act = 1;
    tzs[z].base = base_of(p);
    const seg_t *sg = env_seg((uintptr_t) p);
    tzs[z].n = (sg->e - sg->s) / csz & ~31; /* slots the bitmap covers */
    if(tzs[z].n > MAXC) mc_fail("zone larger than expected");
    read_tags(z);
}
/* the tagged pointer of a live chunk: layout, round trip, verification */
static void *check_tag(blk_t *b) {
    int z = b->zone, i = slot(z, b->p);
    void *h = zt[z].h;
    uint8_t t = iso_alloc_get_mem_tag(b->p, h);
    if(t != tzs[z].t[i]) mc_fail("the tag of chunk %d changed from %#x to %#x", i, tzs[z].t[i], t);
    void *q = iso_alloc_tag_ptr(b->p, h);
    if((uintptr_t) q != ((uintptr_t) t << 56 | (uintptr_t) b->p)) mc_fail("tagging %p with tag %#x gave %p", (void *) b->p, t, q);
    if(iso_alloc_untag_ptr(q, h) != b->p) mc_fail("untagging %p gave %p, not %p", q, iso_alloc_untag_ptr(q, h), (void *) b->p);
    iso_alloc_verify_ptr_tag(q, h);
    mc_eval(3);
    return q;
}
static void add_tagged(int z) {
    uint8_t *q = iso_alloc_from_zone_tagged(zt[z].h);
    if(!q) { if(tzs[z].act < tzs[z].n) { /* the caches may hide slots, nothing to judge here */ } return; }
    uint8_t *p = (uint8_t *) ((uintptr_t) q & ((1ULL << 56) - 1));
    m_add(p, zt[z].csz, z);
    tzs[z].allocs++; tzs[z].act++;
    if(check_tag(&live[nlive - 1]) != q) mc_fail("iso_alloc_from_zone_tagged returned %p, but the chunk's tagged pointer is different", (void *) q);
}
static void add_plain(int z) {
    uint8_t *p = iso_alloc_from_zone(zt[z].h);
    if(!p) return;
    m_add(p, zt[z].csz, z);
    tzs[z].allocs++; tzs[z].act++;
}
static void release(int li, int how) {
    blk_t b = m_take(li);
    int z = b.zone, i = slot(z, b.p);
    void *q = iso_alloc_tag_ptr(b.p, zt[z].h);
    uint8_t nb = rnd_for(z, i);
    bool now = true;
    switch(how) {
    case 0: iso_free_from_zone(q, zt[z].h); break;
    case 1: iso_free_from_zone(b.p, zt[z].h); break;
    case 2: iso_free_size(b.p, b.req); break;
    case 3: iso_free_permanently(b.p); break;
    case 4: iso_free_from_zone_permanently(q, zt[z].h); break;
    case 5: iso_free(b.p); iso_flush_caches(); break; /* processed at once */
    case 6: iso_flush_caches(); iso_free(b.p); now = false; break;
    }
    if(now) { tzs[z].act--; expect(z, i, due(z), nb); rnd_off(); for(int y = 0; y < nzt; y++) if(y != z) expect(y, -1, E_NONE, 0); }
    else {
        rnd_off(); expect(z, -1, E_NONE, 0);
        nb = rnd_for(z, i); iso_flush_caches(); tzs[z].act--; expect(z, i, due(z), nb); rnd_off();
    }
}

/* must end the process */
typedef struct { void *q, *h; int how; } dead_t;
static void doomed(void *vp) {
    dead_t *d = vp;
    switch(d->how) {
    case 0: iso_alloc_verify_ptr_tag(d->q, d->h); break;
    case 1: iso_free_from_zone(d->q, d->h); break;
    case 2: iso_free_from_zone_permanently(d->q, d->h); break;
    case 3: (void) !iso_alloc_get_mem_tag(d->q, d->h); break;
    case 4: (void) !iso_alloc_tag_ptr(d->q, d->h); break;
    }
}
static void must_end(void *q, int z, int how, const char *what) {
    dead_t d = {q, zt[z].h, how};
    int r = mc_death(doomed, &d);
    static const char *n[] = {"iso_alloc_verify_ptr_tag", "iso_free_from_zone", "iso_free_from_zone_permanently", "iso_alloc_get_mem_tag", "iso_alloc_tag_ptr"};
    if(r != D_ABORT) mc_fail("%s accepted %s %p (chunk size %zu, outcome %d)", n[how], what, q, zt[z].csz, r);
    mc_eval(1);
}
static void *with(const void *p, uint8_t t) { return (void *) ((uintptr_t) p | (uintptr_t) t << 56); }

/* every class: round trip, independence, a wrong tag, a stale tag, the age */
static void init(int v) { m_start(v); iso_flush_caches(); nzt = 0; while(nlive) iso_free_size(live[nlive - 1].p, live[nlive - 1].req), nlive--; }
static long ccount(int v) { (void) v; return 2048; }
static void citem(long k) {
    int csz = 32 * (k + 1);
    mc_note(" zone of %d byte chunks", csz);
    zone_new(csz); zone_new(csz == 64 ? 96 : 64);
    int z = 0;
    long n = tzs[z].n;
    if(n <= 0) mc_fail("no chunks");
    /* different chunks have tags of their own */
    int seen = 0; bool val[256] = {0};
    for(int i = 0; i < n; i++) { seen += !val[tzs[z].t[i]]; val[tzs[z].t[i]] = true; }
    if(seen < 8) mc_fail("a zone of %ld chunks has only %d different tags", n, seen);
    for(int i = 0; i < 5; i++) add_tagged(z);
    if(nlive < 5) mc_fail("only %d chunks", nlive);
    /* the last chunk of the zone too */
    check_tag(&live[0]);
    expect_none();
    blk_t b = live[nlive - 1];
    uint8_t t = tag_of(z, slot(z, b.p));
    must_end(with(b.p, t ^ 0x80), z, 0, "a wrong tag");
    must_end(with(b.p, t ^ 1), z, 0, "a wrong tag");
    if((t ^ 1) != 0) must_end(with(b.p, t ^ 1), z, 1, "a wrong tag");
    must_end(b.p + csz / 2, z, 3, "the middle of a chunk");
    must_end(with(b.p, t), 1, 0, "a chunk of another zone");
    release(nlive - 1, k % 6);
    uint8_t nt = tag_of(z, slot(z, b.p));
    if(t && nt != t) { must_end(with(b.p, t), z, 0, "a stale tag"); must_end(with(b.p, t), z, 1, "a stale tag"); }
    /* to the end of the zone's chunks: the highest slots */
    if(k % 16 == 0 || n <= 512 || mc_thorough) {
        for(long g = 0; g < n + 8 && tzs[z].act < n; g++) { int c = nlive; if(nlive < MAXLIVE - 8) add_plain(z); else break; if(nlive == c) break; }
        blk_t *hi = NULL; int hk = -1;
        for(int i = 0; i < nlive; i++) if(live[i].zone == z && (!hi || live[i].p > hi->p)) { hi = &live[i]; hk = i; }
        check_tag(hi);
        expect_none();
        release(hk, 0);
    }
    /* the age: a quarter of the retirement age with nothing in use */
    for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z) { if(tzs[z].act > 4) { /* checked one by one below */ blk_t x = m_take(i); iso_free_from_zone(x.p, zt[z].h); tzs[z].act--; } }
    read_tags(z);
    for(long g = tzs[z].allocs; g <= ((n * MC_RETIRE) >> 2) + 1; g++) { void *p = iso_alloc_from_zone(zt[z].h); iso_free_from_zone(p, zt[z].h); tzs[z].allocs++; }
    read_tags(z);
    for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z) release(i, (k + i) % 3);
    mc_nontrivial(csz);
    m_check_all();
    m_audit();
}
static const dom_t classes = {"classes", init, 8, ccount, citem, 1};

/* all 256 tag values for the chunk's pointer, on the accept and reject side */
static const int tcs[] = {32, 96, 1024, 8192, 40000, 65536};
static long tcount(int v) { (void) v; return 6 * 256; }
static void titem(long k) {
    int csz = tcs[k / 256]; uint8_t x = k % 256;
    mc_note(" zone of %d byte chunks, pointer tagged %#x", csz, x);
    if(k & 1) zone_new(128);
    zone_new(csz);
    int z = nzt - 1;
    add_tagged(z); add_plain(z);
    /* give some chunk that very tag: freeing it draws it */
    blk_t b = m_take(nlive - 1);
    env.rmode = RM_CONST; env.rconst = x * 0x0101010101010101ULL;
    iso_free_from_zone(b.p, zt[z].h);
    tzs[z].act--;
    rnd_off();
    read_tags(z);
    /* every live chunk against every value */
    for(int i = 0; i < nlive; i++) {
        blk_t *l = &live[i];
        if(l->zone != z) continue;
        uint8_t t = tag_of(z, slot(z, l->p));
        void *q = with(l->p, x);
        if(x == t) {
            if(check_tag(l) != q) mc_fail("tag");
            mc_nontrivial(k);
        } else {
            must_end(q, z, 0, "a wrong tag");
            if(x) { must_end(q, z, 1, "a wrong tag"); must_end(q, z, 2, "a wrong tag"); }
        }
    }
    /* the freed chunk: whatever its tag is now decides */
    uint8_t t = tag_of(z, slot(z, b.p));
    iso_alloc_verify_ptr_tag(with(b.p, t), zt[z].h);
    must_end(with(b.p, t ^ (x ? x : 1)), z, 0, "a wrong tag");
    must_end(with(b.p, t), z, 1, "the current tag of a freed chunk");
    mc_nontrivial(t * 6 + k / 256);
    m_audit();
}
static const dom_t values = {"values", init, 8, tcount, titem, 1};

/* every sequence */
static void inits(int v) {
    init(v);
    zone_new(65536); zone_new(16384 + 32);
    if(v & 1) { add_plain(0); add_tagged(0); }
}
static int lastof(int z) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z) return i; return -1; }
static bool zl(int a) { return (a & 7) < nzt && zt[a & 7].live; }
static bool has(int a) { return zl(a) && lastof(a & 7) >= 0; }
static void o_tagged(int z) { add_tagged(z); expect_none(); }
static void o_plain(int z) { add_plain(z); expect_none(); }
static void o_rel(int a) { release(lastof(a & 7), a >> 3); }
static void o_churn(int z) { for(int i = 0; i < 9; i++) { int n = nlive; add_plain(z); if(nlive > n) release(nlive - 1, i % 2); } }
static void o_gen(int sz) { m_add(iso_alloc(sz), sz, -1); expect_none(); }
static bool hasg(int a) { (void) a; return lastof(-1) >= 0; }
static void o_genfree(int a) { (void) a; blk_t b = m_take(lastof(-1)); iso_free_size(b.p, b.req); expect_none(); }
static void o_verify(int a) { (void) a; iso_verify_zones(); expect_none(); }
static bool znok(int a) { (void) a; return nzt < MAXZ; }
static void o_new(int sz) { zone_new(sz); expect_none(); }
static void o_destroy(int z) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z) m_take(i); iso_alloc_destroy_zone(zt[z].h); zt[z].live = false; expect_none(); }
static void node(void) { for(int i = 0; i < nlive; i++) if(live[i].zone >= 0) check_tag(&live[i]); m_check_all(); }
static const op_t ops[] = {
    {"zone_alloc_tagged", zl, o_tagged, 0}, {"zone_alloc_tagged", zl, o_tagged, 1}, {"zone_alloc", zl, o_plain, 0},
    {"free tagged", has, o_rel, 0}, {"free tagged", has, o_rel, 1}, {"free untagged", has, o_rel, 8}, {"free_size", has, o_rel, 16}, {"free_perm", has, o_rel, 24}, {"free_zone_perm tagged", has, o_rel, 33}, {"iso_free, flush", has, o_rel, 40}, {"iso_free, later flush", has, o_rel, 48},
    {"churn", zl, o_churn, 0}, {"churn", zl, o_churn, 1}, {"alloc", NULL, o_gen, 65536}, {"alloc", NULL, o_gen, 64}, {"free_size general", hasg, o_genfree, 0}, {"new_zone", znok, o_new, 65536}, {"zone_destroy", zl, o_destroy, 1}, {"verify", NULL, o_verify, 0},
};
static const seq_t history = {"history", inits, 8, ops, sizeof ops / sizeof *ops, node, m_audit, 3, 4};
static const scen_t sc[] = {MC_DOM(classes), MC_DOM(values), MC_SEQ(history)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
