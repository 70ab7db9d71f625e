/* C36: damage to the allocator's own records is detected before it misleads anyone */
#include "../mm.h"
#ifndef FUZZ_MODE
#define FUZZ_MODE 0
#endif
/* ---- records of big allocations: found as the two equal words of their metadata mapping ---- */
typedef struct { uint8_t *p; size_t n; uint8_t *c[2]; int len; bool freed; } big_t;
static uint64_t word(const void *p) { uint64_t x; memcpy(&x, p, 8); return x; }
static big_t B[16]; static int nB;
static uintptr_t mp[16][2]; static int nmp; static bool rec;
static void event(int kind, uintptr_t a, size_t n, int prot) { (void) prot; if(kind == FK_MMAP && rec && nmp < 16) { mp[nmp][0] = a; mp[nmp][1] = a + n; nmp++; } }
static big_t *big(size_t n) {
    rec = true; nmp = 0;
    uint8_t *p = iso_alloc(n);
    rec = false;
    if(!p) mc_fail("NULL");
    m_add(p, n, -1);
    for(int i = 0; i < nB; i++) if(B[i].p == p) { B[i].n = n; B[i].freed = false; return &B[i]; }
    big_t *b = &B[nB++];
    *b = (big_t){p, n, {0}, 0, false};
    int found = 0;
    size_t use = iso_chunksz(p);
    for(int i = 0; i < nmp; i++)
        for(uintptr_t pg = mp[i][0]; pg < mp[i][1]; pg += PAGE) {
            if((pg >= (uintptr_t) p && pg < (uintptr_t) p + use) || env_prot(pg) != RW) continue;
            uint8_t *w = (uint8_t *) pg;
            for(int x = 0; x < 4088; x++) if(word(w + x) > 0xffffffff) for(int y = x + 8; y <= 4088 && y < x + 160; y++)
                if(word(w + x) == word(w + y)) { /* as far as they agree, without what is zero around them */
                    int s = x, e = x + 8, d = y - x;
                    while(e + d < 4096 && w[e] == w[e + d]) e++;
                    while(s < e && !w[s]) s++;
                    while(e > s && !w[e - 1]) e--;
                    if(e - s > 8 || e - s < 4) continue;
                    b->c[0] = w + s; b->c[1] = w + s + d; b->len = e - s; found++;
                    x = e; break;
                }
        }
    if(found != 1) mc_fail("harness: %d records of a big allocation", found);
    return b;
}
static int nbig; static const size_t bsz[] = {65537, 69632, 100000, 300000, 1 << 20};
static void dirty(void) { /* small chunks of every kind */
    zt[0] = (mz_t){.h = iso_alloc_new_zone(64), .csz = 64, .live = true}; zt[1] = (mz_t){.h = iso_alloc_new_zone(9024), .csz = 9024, .live = true}; nzt = 2;
    for(int i = 0; i < 6; i++) { m_add(iso_alloc_from_zone(zt[0].h), 64, 0); m_add(iso_alloc_from_zone(zt[1].h), 9024, 1); m_add(iso_alloc(200), 200, -1); m_add(iso_alloc(20000), 20000, -1); }
}
static void binit(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    if(v & 4) { env.gmode = 1; env.gconst = v & 1 ? 0 : ~0UL; }
    iso_alloc_initialize();
    env.on_event = event;
    nB = 0;
    dirty();
    nbig = 3;
}
static int live_of(const uint8_t *p) { int i = m_find(p); if(i < 0) mc_fail("harness: not live"); return i; }
static int T; static big_t *tb; static int byte; static uint8_t flip;
static const char *tn[] = {"whole-heap verification", "its release with iso_free and a flush", "its sized release", "its permanent release", "its reallocation", "its reuse", "asking for its usable size", "destroying the heap"};
static void fire(void) {
    blk_t b;
    switch(T) {
    case 0: iso_verify_zones(); break;
    case 1: b = m_take(live_of(tb->p)); iso_free(b.p); iso_flush_caches(); break;
    case 2: b = m_take(live_of(tb->p)); iso_free_size(b.p, b.req); break;
    case 3: b = m_take(live_of(tb->p)); iso_free_permanently(b.p); break;
    case 4: b = m_take(live_of(tb->p)); iso_realloc(b.p, 90000); break;
    case 5: if(iso_alloc(tb->n) != tb->p && byte < 0) _exit(EX_ABORT + 20); break; /* another one is reused */
    case 6: iso_chunksz(tb->p); break;
    case 7: iso_alloc_destroy(); break;
    }
}
static void hit(void *a) { (void) a; if(byte >= 0) tb->c[byte / 8][byte % 8] ^= flip; fire(); }
/* item: three big allocations, of which a subset is released, in one order or the other; then one byte */
static long bcount(int v) { (void) v; return 5 * 8 * 2; }
static void bitem(long k) {
    int s = k % 5, sub = k / 5 % 8, rev = k / 40;
    mc_note(" size %zu, released %d, %s", bsz[s], sub, rev ? "newest first" : "oldest first");
    size_t n[3] = {bsz[s], bsz[(s + 2) % 5], bsz[(s + 3) % 5]};
    for(int i = 0; i < 3; i++) big(n[i]);
    for(int j = 0; j < 3; j++) { int i = rev ? 2 - j : j; if(sub >> i & 1) { blk_t b = m_take(live_of(B[i].p)); iso_free_size(b.p, b.req); B[i].freed = true; } }
    for(int i = 0; i < 3; i++) {
        tb = &B[i];
        for(T = 0; T < 8; T++) {
            if(B[i].freed ? T >= 1 && T != 5 && T != 7 : T == 5) continue;
            if(B[i].freed && env_prot((uintptr_t) tb->c[0]) != RW) continue; /* not retained */
            byte = -1;
            int u = mc_death(hit, NULL);
            if(T == 5 && u == D_OTHER) continue;
            if(u != D_OK) mc_fail("%s ended the process although nothing was damaged", tn[T]);
            for(byte = 0; byte < 16; byte++) for(int x = 0; x < 8; x++) {
                if(byte % 8 >= tb->len) continue;
                if(!mc_thorough && x != (byte * 3 + T) % 8) continue;
                flip = 1 << x;
                int d = mc_death(hit, NULL);
                mc_eval(1);
                if(d != D_ABORT) mc_fail("%s of a big allocation of %zu bytes did not notice byte %d of its %s canary changed by %#x (%d)", tn[T], tb->n, byte % 8, byte < 8 ? "first" : "second", flip, d);
            }
        }
        /* both canaries of one record put in the place of another's */
        if(env_prot((uintptr_t) B[(i + 1) % 3].c[0]) == RW && env_prot((uintptr_t) tb->c[0]) == RW && word(B[(i + 1) % 3].c[0]) == word(tb->c[0]) && B[(i + 1) % 3].c[0] != tb->c[0]) mc_fail("two big allocations have the same canary");
    }
    iso_verify_zones();
    for(int i = nlive - 1; i >= 0; i--) { blk_t b = m_take(i); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p); }
    m_audit();
    mc_nontrivial(k);
}
static const dom_t bigs = {"bigs", binit, 8, bcount, bitem, 1};

/* ---- the list of free slots: which word of the zone's record a release writes is found by comparing ---- */
static uint8_t *shot; static seg_t reg[256]; static int nreg;
static void snap(void) {
    size_t o = 0; nreg = 0;
    if(!shot) shot = real_mmap(NULL, 64UL << 20, RW, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for(int i = 0; i < nsegs && nreg < 256; i++) {
        if(segs[i].prot != RW || segs[i].e - segs[i].s >= 4194304 || o + segs[i].e - segs[i].s > 64UL << 20) continue;
        reg[nreg++] = segs[i];
        memcpy(shot + o, (void *) segs[i].s, segs[i].e - segs[i].s);
        o += segs[i].e - segs[i].s;
    }
}
static uint64_t *entry; static uint64_t val;
static bool diff(size_t idx) { /* the word that names the slot now: two bits of the bitmap per chunk */
    size_t o = 0; entry = NULL; int n = 0;
    for(int i = 0; i < nreg; i++) {
        if(reg[i].prot != RW) continue;
        uint64_t *now = (uint64_t *) reg[i].s, *old = (uint64_t *) (shot + o);
        size_t w = (reg[i].e - reg[i].s) / 8;
        for(size_t k = 0; k < w; k++) if(now[k] != old[k] && now[k] == 2 * idx) { entry = &now[k]; val = now[k]; n++; }
        o += w * 8;
    }
    return n == 1;
}
static size_t Z[] = {65536, 32768, 16384, 16416, 40000, 8192};
static void sinit(int v) { binit(v & 3); }
static uint8_t *ch[1100]; static int nch; static uint64_t slot[1100]; static uint64_t *ent[1100];
static void *zh; static size_t zs; static uint8_t *lo;
static int vic, pos; static int mode;
static uint8_t *own[1100];
static void attack(void *a) { /* the slot of a chunk in use appears a second time in the list */
    (void) a;
    *ent[pos] = slot[vic];
    if(mode == 0) { /* it is released */
        if(mc_variant & 1) iso_free_from_zone(ch[vic], zh); else iso_free_size(ch[vic], zs);
        if(VERIFY_FREE_BIT_SLOTS) _exit(EX_ABORT + 20); /* judged by the end of the process */
    }
    int n = 0;
    for(uint8_t *p; (p = iso_alloc_from_zone(zh)); ) {
        if(mode == 1 && p == ch[vic]) mc_fail("a chunk in use was handed out again");
        for(int i = 0; i < n; i++) if(own[i] == p) mc_fail("a chunk was handed out twice");
        own[n++] = p;
        if(n >= 1100) mc_fail("the zone never ends");
    }
    _exit(EX_ABORT + 20); /* the duplicate was never used */
}
static void undamaged(void *a) { (void) a; iso_free_from_zone(ch[vic], zh); int n = 0; for(uint8_t *p; (p = iso_alloc_from_zone(zh)); ) own[n++] = p; for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) if(own[i] == own[j]) mc_fail("two owners"); }
static long scount(int v) { (void) v; return 6 * 3; }
static void sitem(long k) {
    zs = Z[k / 3]; int how = k % 3;
    mc_note(" slots of %zu byte chunks, %d", zs, how);
    zh = iso_alloc_new_zone(zs);
    nch = 0;
    for(uint8_t *p; (p = iso_alloc_from_zone(zh)); ) { if(nch >= 1100) mc_fail("harness: zone"); ch[nch++] = p; }
    lo = (uint8_t *) env_seg((uintptr_t) ch[0])->s;
    /* learn the slot of the victims by releasing and taking them again */
    int want[] = {0, nch / 2, nch - 1}; vic = want[how];
    snap();
    iso_free_from_zone(ch[vic], zh);
    if(!diff((ch[vic] - lo) / zs)) { mc_note("no room"); mc_nontrivial(k * 7 + 1); return; }
    slot[vic] = val;
    if(iso_alloc_from_zone(zh) != ch[vic]) mc_fail("the only free chunk was not handed out");
    /* fill the list with other chunks */
    int f[1100], nf = 0;
    for(int i = 0; i < nch; i++) {
        if(i == vic || (i - vic + nch) % nch > nch - 2) continue;
        snap();
        iso_free_from_zone(ch[i], zh);
        if(!diff((ch[i] - lo) / zs)) break;
        slot[i] = val; ent[i] = entry; f[nf++] = i;
        if(nf >= 260) break;
    }
    if(nf < 1) { mc_nontrivial(k * 7 + 2); return; }
    if(mc_death(undamaged, NULL) != D_OK) mc_fail("an undamaged list of free slots ended the process");
    int live_entries = 0;
    for(int j = 0; j < nf; j++) {
        if(!mc_thorough && j > 12 && j % 7 && j < nf - 6) continue;
        pos = f[j];
        mode = 1;
        int used = mc_death(attack, NULL);
        mode = 0;
        int d = mc_death(attack, NULL);
        mc_eval(2);
        if(used == D_VIOL || d == D_VIOL) return;
        if(used != D_ABORT && used != D_OTHER) mc_fail("entry %d of %d of the list of free slots naming chunk %d of a zone of %zu byte chunks, which is in use, ended the process in disorder (%d)", j, nf, vic, zs, used);
        if(used == D_ABORT) live_entries++;
        /* an entry that nothing consults any more misleads nobody */
        if(VERIFY_FREE_BIT_SLOTS && used == D_ABORT && d != D_ABORT) mc_fail("chunk %d of a zone of %zu byte chunks was released while entry %d of %d of the list of free slots already named it, and the process went on", vic, zs, j, nf);
        if(d != D_ABORT && d != D_OTHER) mc_fail("a second entry for chunk %d of a zone of %zu byte chunks (entry %d of %d) ended the process in disorder (%d)", vic, zs, j, nf, d);
    }
    if(nf > 2 && !live_entries) mc_fail("harness: no entry of the list is ever used");
    mc_nontrivial(k * 1000 + nf);
}
static const dom_t slots = {"slots", sinit, 4, scount, sitem, 1};

/* ---- fuzzing mode: any damage, anywhere, at the next call ---- */
static uint8_t *V[32]; static size_t Vs[32]; static const char *Vw[32]; static int nV;
static void victim(void *p, size_t n, const char *w) { V[nV] = p; Vs[nV] = n; Vw[nV++] = w; }
static const char *an[] = {"iso_alloc(40)", "iso_alloc(65536)", "iso_calloc", "iso_realloc", "iso_reallocarray", "iso_strdup", "allocation from a zone", "iso_free and flush", "iso_free_size", "iso_free_permanently", "iso_free_from_zone", "string copy from a zone", "nothing"};
#define NA 12
static int act;
static void fzinit(int v) {
    binit(v & 3);
    nV = 0;
    static const size_t zz[] = {32, 96, 512, 4096, 8192, 20000, 65536};
    for(int i = 0; i < 7; i++) {
        void *z = iso_alloc_new_zone(zz[i]); uint8_t *p = iso_alloc_from_zone(z), *q = iso_alloc_from_zone(z);
        iso_free_from_zone(p, z); victim(p, zz[i], "a free private chunk");
        m_add(q, zz[i], -2);
        p = iso_alloc(zz[i]); size_t u = iso_chunksz(p); iso_free_size(p, zz[i]); victim(p, u, "a free general chunk");
    }
    /* a canary chunk: a slot that a full zone keeps */
    void *z = iso_alloc_new_zone(4096); uint8_t *lo = NULL, *p; static bool u[1024]; memset(u, 0, sizeof u);
    while((p = iso_alloc_from_zone(z))) { if(!lo) lo = (uint8_t *) env_seg((uintptr_t) p)->s; u[(p - lo) / 4096] = true; }
    for(int i = 0; i < 1024; i++) if(!u[i] && *(uint64_t *) (lo + i * 4096)) { victim(lo + i * 4096, 4096, "a canary chunk"); break; }
    big(70000); big(200000); big(90000);
    blk_t b = m_take(live_of(B[2].p)); iso_free_size(b.p, b.req);
    zt[2] = (mz_t){.h = iso_alloc_new_zone(256), .csz = 256, .live = true}; nzt = 3;
    m_add(iso_alloc_from_zone(zt[2].h), 256, 2); m_add(iso_alloc(300), 300, -1);
}
static long fzcount(int v) { (void) v; return (long) (nV + 3) * NA; }
static int fv, fo;
static void fuzz(void *a) {
    (void) a;
    if(fo >= 0) { if(fv < nV) V[fv][fo < 8 ? fo : Vs[fv] - 16 + fo] ^= flip; else B[fv - nV].c[fo / 8][fo % 8] ^= flip; }
    uint8_t *g = live[nlive - 1].p, *z = live[nlive - 2].p;
    switch(act) {
    case 0: iso_alloc(40); break;
    case 1: iso_alloc(65536); break;
    case 2: iso_calloc(3, 50); break;
    case 3: iso_realloc(g, 900); break;
    case 4: iso_reallocarray(g, 9, 90); break;
    case 5: iso_strdup("abc"); break;
    case 6: iso_alloc_from_zone(zt[2].h); break;
    case 7: iso_free(g); iso_flush_caches(); break;
    case 8: iso_free_size(g, 300); break;
    case 9: iso_free_permanently(g); break;
    case 10: iso_free_from_zone(z, zt[2].h); break;
    case 11: iso_strdup_from_zone(zt[2].h, "abc"); break;
    }
}
static void fzitem(long k) {
    fv = k / NA; act = k % NA;
    mc_note(" %s, then %s", fv < nV ? Vw[fv] : "a big record", an[act]);
    fo = -1;
    if(mc_death(fuzz, NULL) != D_OK) mc_fail("%s ended the process although nothing was damaged", an[act]);
    for(fo = 0; fo < 16; fo++) for(int x = 0; x < 8; x++) {
        if(fv >= nV && fo % 8 >= B[fv - nV].len) continue;
        if(!mc_thorough && x != (fo * 5 + act) % 8) continue;
        flip = 1 << x;
        int d = mc_death(fuzz, NULL);
        mc_eval(1);
        if(d != D_ABORT) mc_fail("in fuzzing mode %s (chunk of %zu bytes) damaged at byte %d went unnoticed by %s (%d)", fv < nV ? Vw[fv] : "a big record", fv < nV ? Vs[fv] : 0, fo, an[act], d);
    }
    mc_nontrivial(k);
}
static const dom_t fz = {"fuzz", fzinit, 4, fzcount, fzitem, 1};
static const scen_t sc[] = {MC_DOM(bigs), MC_DOM(slots), MC_DOM(fz)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
