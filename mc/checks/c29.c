/* C29: secrets, requested addresses and slot orders follow the kernel's random source.
 * One fixed program is run again for every bit of every word of entropy it asks for, with only
 * that bit changed; the addresses it is given stay the same, so what changes follows from the bit. */
#include "../mm.h"
#include <stdatomic.h>

enum { NH = 160, NZ = 8, NORD = 24 };
typedef struct {
    bool done;
    long draws;
    struct { uintptr_t hint; size_t len; long from, to; } h[NH]; int nh; /* mappings asked for, and the requests for entropy made since the one before */
    struct { long from, to, end; uint64_t handle; bool priv, fresh; uint64_t can[2]; uint64_t first, second; int tag; bool tagged; uintptr_t at; size_t sz; } z[NZ]; int nz;
    uint64_t bigcan, bignext; long bigdraws;
} obs_t;
static obs_t *base, *cur;
static long last_draw;

static void on_hint(uintptr_t hint, size_t len) {
    if(cur->nh >= NH) mc_fail("harness: too many mappings");
    cur->h[cur->nh].hint = hint; cur->h[cur->nh].len = len; cur->h[cur->nh].from = last_draw; cur->h[cur->nh++].to = env.n_getrandom;
    last_draw = env.n_getrandom;
}
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v; h *= 0x9e3779b97f4a7c15UL; return h ^ h >> 29; }
static uint64_t rd(uintptr_t a) { uint64_t v; memcpy(&v, (void *) a, 8); return v; }
static uintptr_t zone_start(const void *p) { const seg_t *s = env_seg((uintptr_t) p); if(!s || s->e - s->s < 4194304) mc_fail("harness: %p lies in no zone", p); return s->s; }

static uint8_t *q[140000];
/* uses the zone up (or as far as REFILLS requests for entropy get it), then frees its two first chunks; nothing else touches the memory */
enum { REFILLS = 160 };
static void zone(size_t sz, bool priv, uintptr_t only, long from) {
    int k = cur->nz++;
    cur->z[k].from = from; cur->z[k].to = env.n_getrandom; cur->z[k].priv = priv; cur->z[k].sz = sz;
    void *h = NULL;
    if(priv) { h = iso_alloc_new_zone(sz); cur->z[k].handle = (uint64_t) h; cur->z[k].to = env.n_getrandom; }
    uint64_t first = 1, second = 1; long n = 0;
    uintptr_t at = only;
    long cap = 4194304 / sz;
    static uint8_t got[140000]; memset(got, 0, cap);
    for(;;) {
        uint8_t *p = priv ? iso_alloc_from_zone(h) : iso_alloc(sz);
        if(!p) break;
        if(!at) at = zone_start(p);
        if(!priv && zone_start(p) != at) { iso_free_size(p, sz); break; }
        size_t off = ((uintptr_t) p - at) / sz;
        got[off] = 1; q[off] = p;
        if(n < NORD) first = mix(first, off);
        second = mix(second, off);
        if(++n >= cap || env.n_getrandom - cur->z[k].to >= REFILLS) break;
    }
    cur->z[k].end = env.n_getrandom;
    cur->z[k].first = first; cur->z[k].second = second; cur->z[k].at = at;
#if MEMORY_TAGGING
    if(priv) { cur->z[k].tag = iso_alloc_get_mem_tag((void *) at, h); cur->z[k].tagged = true; }
#endif
    /* what a freed chunk holds */
    for(long i = 0, c = 0; i < cap && c < 2; i++) {
        if(!got[i]) continue;
        if(priv) iso_free_from_zone(q[i], h); else iso_free_size(q[i], sz);
        cur->z[k].can[c++] = rd((uintptr_t) q[i]);
    }
}
static void program(void *x) {
    (void) x;
    env.on_hint = on_hint; last_draw = 0;
    iso_alloc_initialize();
    static const size_t G[] = {1024, 8192};
    long d0 = 0;
    zone(G[0], false, 0, d0);
    if(mc_variant & 1) { /* a zone that replaces a retired one */
        int maps = cur->nh;
        for(int i = 0; i < 1500 && cur->nh == maps; i++) { d0 = env.n_getrandom; iso_free_size(iso_alloc(8192), 8192); }
        if(cur->nh == maps) d0 = 0;
    }
    zone(G[1], false, 0, d0);
    for(int i = 0; i < 3; i++) { long d = env.n_getrandom; zone(i == 2 ? 512 : 4096, true, 0, d); }
    /* big allocations */
    int n0 = cur->nh;
    static uintptr_t before[1024]; int nb = 0;
    for(int i = 0; i < nsegs && nb < 1024; i++) if(segs[i].prot == RW && segs[i].e - segs[i].s == PAGE) before[nb++] = segs[i].s;
    void *b1 = iso_alloc(70000);
    for(int i = 0; i < nsegs && nb < 1024; i++) if(segs[i].prot == RW && segs[i].e - segs[i].s == PAGE) before[nb++] = segs[i].s;
    void *b2 = iso_alloc(300000);
    (void) n0; (void) b1;
    for(int i = 0; i < nsegs; i++) {
        if(segs[i].prot != RW || segs[i].e - segs[i].s != PAGE) continue;
        bool old = false;
        for(int j = 0; j < nb; j++) if(before[j] == segs[i].s) old = true;
        if(old) continue;
        uint64_t w[600]; int nw = 0;
        for(uintptr_t a = segs[i].s; a < segs[i].e; a += 8) if(rd(a) >> 48) w[nw++] = rd(a);
        for(int a = 0; a < nw; a++) for(int b = a + 1; b < nw; b++) if(w[a] == w[b]) cur->bigcan = w[a];
        for(int a = 0; a < nw; a++) if(w[a] != cur->bigcan) cur->bignext = w[a];
    }
    (void) b2;
    cur->draws = env.n_getrandom;
    cur->done = true;
}
static void room(void) { base = real_mmap(NULL, sizeof(obs_t) * 66, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static void run(obs_t *o, long at, uint64_t flip) {
    memset(o, 0, sizeof *o);
    cur = o;
    env.g_flip_at = at; env.g_flip = flip;
    int r = mc_death(program, NULL);
    if(r != D_OK || !o->done) mc_fail("with bit pattern %#lx of entropy word %ld changed the program ends (%d): %s", (unsigned long) flip, at, r, env_msg);
}
static int cmp(const void *a, const void *b) { uint64_t x = *(uint64_t *) a, y = *(uint64_t *) b; return x < y ? -1 : x > y; }
static int distinct(uint64_t *v, int n) { qsort(v, n, 8, cmp); int c = n > 0; for(int i = 1; i < n; i++) c += v[i] != v[i - 1]; return c; }

static void init(int v) {
    env_reset(v & 1 ? PL_PACKED : PL_SPREAD);
    env.rmode = RM_PASS;
    env.rnd_state = 0x1234567 + (v >> 1) * 0x9999999999UL;
}
static long count(int v) {
    (void) v;
    room();
    obs_t *o = &base[65];
    run(o, 0, 0);
    return o->draws;
}
/* item: one word of entropy; everything that is drawn between two requests is judged by the item of each */
static void need(uint64_t have, uint64_t want, const char *what, long at) { if((have & want) != want) mc_fail("%s does not follow entropy word %ld: bits %#lx never change", what, at, (unsigned long) (want & ~have)); }
static struct ok { _Atomic long done; uint8_t hint[NH], can[NZ], first[NZ], second[NZ], tag[NZ], handle[NZ], bigcan, bignext; } *ok;
static struct ok *oks; /* shared by all workers, one per start state */
static void judge(obs_t *o);
static void item(long k) {
    long d = k + 1;
    mc_note("entropy word %ld", d);
    room();
    run(base, 0, 0);
    ok = oks + mc_variant;
    for(int b = 0; b < 64; b++) run(&base[1 + b], d, 1UL << b);
    obs_t *o = base;
    for(int i = 0; i < o->nh; i++) {
        uint64_t t = 0;
        for(int b = 0; b < 64; b++) if(o[1 + b].nh > i) t |= o[1 + b].h[i].hint ^ o->h[i].hint;
        if(d > o->h[i].from && d <= o->h[i].to && (t & 0x1fffffff000UL) == 0x1fffffff000UL) ok->hint[i] = 1;
    }
    for(int i = 0; i < o->nz; i++) {
        bool in = d > o->z[i].from && d <= o->z[i].to;
        uint64_t t[2] = {0, 0}, th = 0, tt = 0, f[65], s[65];
        for(int b = 0; b <= 64; b++) {
            if(o[b].z[i].at != o->z[i].at) mc_fail("harness: zone %d moved", i);
            t[0] |= o[b].z[i].can[0] ^ o->z[i].can[0]; t[1] |= o[b].z[i].can[1] ^ o->z[i].can[1];
            tt |= o[b].z[i].tag ^ o->z[i].tag;
            th |= o[b].z[i].handle ^ o->z[i].handle;
            f[b] = o[b].z[i].first; s[b] = o[b].z[i].second;
        }
        if(in && (t[0] & t[1] & 0xffffffffffffff00UL) == 0xffffffffffffff00UL) ok->can[i] = 1;
        int nf = distinct(f, 65), ns = distinct(s, 65);
        if(in && nf >= 40) ok->first[i] = 1;
        if(d > o->z[i].to && d <= o->z[i].end && ns >= 40) ok->second[i] = 1;
        if(in && tt == 255) ok->tag[i] = 1;
        if(th == ~0UL) ok->handle[i] = 1;
        mc_eval(65);
        mc_nontrivial((uint64_t) nf << 40 | (uint64_t) ns << 30 | i << 10 | d);
    }
    uint64_t tc = 0, tn = 0;
    for(int b = 0; b <= 64; b++) { tc |= o[b].bigcan ^ o->bigcan; tn |= o[b].bignext ^ o->bignext; }
    if((tc | 0xfff) == ~0UL) ok->bigcan = 1;
    if((tn | 0xfff) == ~0UL) ok->bignext = 1;
    if(atomic_fetch_add(&ok->done, 1) + 1 == o->draws) { mc_note(" (the last one)"); judge(o); }
}
/* all words have been changed: everything has to have followed some word */
static void judge(obs_t *o) {
    for(int i = 0; i < o->nh; i++) if(!ok->hint[i]) mc_fail("the address asked for by mapping %d (%zu bytes) does not follow the entropy requested for it (words %ld to %ld)", i, o->h[i].len, o->h[i].from + 1, o->h[i].to);
    for(int i = 0; i < o->nz; i++) {
        if(!ok->can[i]) mc_fail("the secret of zone %d (%zu byte chunks) does not follow any entropy requested while it was made (words %ld to %ld)", i, o->z[i].sz, o->z[i].from + 1, o->z[i].to);
        if(!ok->first[i]) mc_fail("the order in which zone %d (%zu byte chunks) first hands out slots does not follow any entropy requested while it was made", i, o->z[i].sz);
        if(!ok->second[i]) mc_fail("the order in which zone %d (%zu byte chunks) hands out later slots does not follow any entropy requested after it was made", i, o->z[i].sz);
        if(o->z[i].tagged && !ok->tag[i]) mc_fail("the tags of zone %d (%zu byte chunks) do not follow any entropy requested while it was made", i, o->z[i].sz);
        if(o->z[i].priv && !ok->handle[i]) mc_fail("the handle of zone %d does not follow any entropy", i);
        for(int j = 0; j < i; j++) if((o->z[i].can[0] ^ o->z[i].at) == (o->z[j].can[0] ^ o->z[j].at) || o->z[i].can[0] == o->z[j].can[0]) mc_fail("zones %d and %d share a secret", j, i);
    }
    if(o->bigcan && !ok->bigcan) mc_fail("the check words of big allocations do not follow any entropy");
    if(o->bignext && !ok->bignext) mc_fail("the links between big allocations do not follow any entropy");
}
static const dom_t d1 = {"draws", init, 4, count, item, 1};
static const scen_t sc[] = {MC_DOM(d1)};
int main(int c, char **v) { oks = real_mmap(NULL, sizeof *oks * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return mc_main(c, v, sc, 1); }
