/* C38: what the allocator asks of the kernel for each kind of memory */
#include "../mm.h"
#include <ctype.h>
#include <errno.h>
#ifndef MAP_ANONYMOUS
#define MAP_ANONYMOUS 0x20
#endif
int c38_bitmaps(uintptr_t *s);
uintptr_t c38_root(void);
uintptr_t c38_zones(size_t *n);
const char *c38_name(int k);
enum { N_GEN, N_PRIV, N_BIG, N_GUARD, N_ROOT, N_TAGS, N_SAMPLE };

/* every mapping as it was made, and what was asked for parts of it since */
typedef struct { uintptr_t s, e; int flags; bool init; } map_t;
static map_t maps[1024]; static int nmaps;
typedef struct { uintptr_t s, e; char n[88]; } nam_t;
static nam_t names[8192]; static int nnames;
static struct { uintptr_t s, e; } locks[64]; static int nlocks;
static bool initing, aging;
static uintptr_t fresh_s, fresh_e; /* the latest mapping: nothing was stored there yet */
static struct { uintptr_t s, e; } bigs[512]; static int nbigs; /* user pages of the big path */
static void (*pre_mut)(void);

static void cut_names(uintptr_t s, uintptr_t e) {
    for(int i = nnames - 1; i >= 0; i--) if(names[i].s < e && s < names[i].e) {
        nam_t o = names[i];
        names[i] = names[--nnames];
        if(o.s < s) { names[nnames] = o; names[nnames++].e = s; }
        if(o.e > e) { if(nnames >= 8190) mc_fail("harness: names"); names[nnames] = o; names[nnames++].s = e; }
    }
}
static const char *name_of(uintptr_t a) { for(int i = 0; i < nnames; i++) if(a >= names[i].s && a < names[i].e) return names[i].n; return NULL; }
static int map_of(uintptr_t a) { for(int i = 0; i < nmaps; i++) if(a >= maps[i].s && a < maps[i].e) return i; return -1; }

static void sys(int kind, uintptr_t a, size_t n, long arg, int prot, const char *nm) {
    uintptr_t e = a + ((n + PAGE - 1) & ~(PAGE - 1));
    mc_eval(1);
    if((kind == FK_MMAP || kind == FK_MPROTECT) && (prot & PROT_EXEC)) mc_fail("memory was made executable");
    if((kind == FK_MMAP || kind == FK_MPROTECT) && prot == PROT_WRITE) mc_fail("odd protection");
    switch(kind) {
    case FK_MMAP: {
        int f = (int) arg;
        if((f & MAP_SHARED) || !(f & MAP_PRIVATE)) mc_fail("%zu bytes were mapped shared", n);
        if(!(f & MAP_ANONYMOUS)) mc_fail("%zu bytes were not mapped anonymously", n);
        if(f & (MAP_FIXED | MAP_GROWSDOWN)) mc_fail("%zu bytes were mapped with flags %#x", n, f);
        if(f & MAP_LOCKED) mc_fail("%zu bytes were mapped locked", n);
        if((f & MAP_POPULATE) && !PRE_POPULATE_PAGES) mc_fail("%zu bytes were populated unasked", n);
#if !HUGE_PAGES
        if(f & MAP_HUGETLB) mc_fail("huge pages were used unasked");
#endif
        if((f & MAP_HUGETLB) && n % (2UL << 20)) mc_fail("huge pages were asked for %zu bytes", n);
        if(nmaps >= 1024) mc_fail("harness: maps");
        maps[nmaps++] = (map_t){a, e, f, initing};
        fresh_s = a; fresh_e = e;
        cut_names(a, e);
        break;
    }
    case FK_MUNMAP:
        for(int i = nmaps - 1; i >= 0; i--) if(maps[i].s < e && a < maps[i].e) {
            map_t o = maps[i];
            maps[i] = maps[--nmaps];
            if(o.s < a) { maps[nmaps] = o; maps[nmaps++].e = a; }
            if(o.e > e) { maps[nmaps] = o; maps[nmaps++].s = e; }
        }
        for(int i = nbigs - 1; i >= 0; i--) if(bigs[i].s < e && a < bigs[i].e) bigs[i] = bigs[--nbigs];
        for(int i = nlocks - 1; i >= 0; i--) if(locks[i].s < e && a < locks[i].e) locks[i] = locks[--nlocks];
        cut_names(a, e);
        break;
    case FK_MLOCK:
#if !USE_MLOCK
        mc_fail("memory was locked unasked");
#endif
        if(!env_all(a & ~(PAGE - 1), ((a + n + PAGE - 1) & ~(PAGE - 1)) - (a & ~(PAGE - 1)), RW)) mc_fail("%zu bytes at %p were locked, which are not all the allocator's own memory", n, (void *) a);
        for(int i = 0; i < nlive; i++) if(live[i].p < (uint8_t *) e && (uint8_t *) a < live[i].p + live[i].use) mc_fail("user memory was locked");
        if(nlocks < 64) { locks[nlocks].s = a & ~(PAGE - 1); locks[nlocks++].e = (a + n + PAGE - 1) & ~(PAGE - 1); } else mc_fail("harness: locks");
        break;
    case FK_MADVISE:
        if(map_of(a) < 0 || e > maps[map_of(a)].e) mc_fail("advice %ld for %zu bytes at %p, which are not all the allocator's own", arg, n, (void *) a);
#if !HUGE_PAGES || !THP_PAGES
        if(arg == MADV_HUGEPAGE) mc_fail("huge pages were advised unasked");
#endif
        if(arg == MADV_HUGEPAGE && n % (2UL << 20)) mc_fail("huge pages were advised for %zu bytes", n);
        if(arg == MADV_FREE || arg == MADV_DONTNEED) {
            for(int i = 0; i < nlive; i++) if(live[i].p < (uint8_t *) e && (uint8_t *) a < live[i].p + live[i].use) mc_fail("pages of the live allocation %p (%zu bytes) were given up", (void *) live[i].p, live[i].req);
            if(!(a >= fresh_s && e <= fresh_e)) { /* in use before: only user pages of big allocations are ever given up */
                bool ok = false;
                for(int i = 0; i < nbigs; i++) if(a >= bigs[i].s && e <= bigs[i].e) ok = true;
                if(!ok && !aging) mc_fail("%zu bytes at %p in use by the allocator were given up", n, (void *) a);
            }
        } else if(arg != MADV_HUGEPAGE) mc_fail("advice %ld", arg);
        break;
    case FK_PRCTL: {
#if !NAMED_MAPPINGS
        mc_fail("memory was named unasked");
#endif
        if(arg != (0x53564d41L << 8)) mc_fail("prctl %#lx", arg >> 8);
        if(a % PAGE || map_of(a) < 0) mc_fail("a name was given to %p, which is not the allocator's own", (void *) a);
        for(uintptr_t x = a; x < e; ) { int m = map_of(x); if(m < 0) mc_fail("a name was given to %zu bytes at %p, which are not all the allocator's own", n, (void *) a); x = maps[m].e; }
        if(nm) {
            size_t l = strlen(nm);
            if(l >= 80) mc_fail("the kernel refuses names of %zu bytes", l);
            for(size_t i = 0; i < l; i++) if(!isprint((unsigned char) nm[i]) || strchr("\\`$[]", nm[i])) mc_fail("the kernel refuses the name '%s'", nm);
        }
        cut_names(a, e);
        if(nm) { if(nnames >= 8190) mc_fail("harness: names"); names[nnames].s = a; names[nnames].e = e; snprintf(names[nnames++].n, 88, "%s", nm); }
        break;
    }
    }
}
static char own[64][24]; /* names given by the program */
static void expect_name(uintptr_t s, uintptr_t e, const char *want, const char *what) {
#if NAMED_MAPPINGS
    if(env.fail_mask & FK_PRCTL) return;
    for(uintptr_t a = s & ~(PAGE - 1); a < e; a += PAGE) {
        const char *n = name_of(a);
        if(n == NULL || strcmp(n, want)) mc_fail("page %p of %s is named '%s' instead of '%s'", (void *) a, what, n ? n : "(none)", want);
    }
#endif
}
static bool refuse;
static void judge(void) {
    mc_eval(1);
    for(int i = 0; i < nlive; i++) {
        blk_t *b = &live[i];
        uintptr_t s = (uintptr_t) b->p, e = s + b->use;
        int m = map_of(s);
        if(m < 0) mc_fail("no mapping for a live allocation");
        if(maps[m].flags & MAP_POPULATE) mc_fail("pages for user data were populated");
        for(int k = 0; k < nlocks; k++) if(locks[k].s < e && s < locks[k].e) mc_fail("user memory is locked");
        bool big = b->req > 65536, sampled = maps[m].e - maps[m].s == 3 * PAGE && !big;
        if(e - s <= 1UL << 22) {
            if(b->zone >= 0) expect_name(s, e, own[b->zone][0] ? own[b->zone] : c38_name(N_PRIV), "a private chunk");
            else if(big) expect_name(s, e, c38_name(N_BIG), "a big allocation");
#if NAMED_MAPPINGS
            else if(sampled) expect_name(s, e, c38_name(N_SAMPLE), "a sampled allocation");
#endif
            else expect_name(s, e, c38_name(N_GEN), "a general chunk");
        }
        /* the inaccessible neighbours, where there are any */
        const seg_t *g = env_seg(s);
        if(g && !big) {
            if(env_prot(g->s - 1) == PROT_NONE) expect_name(g->s - PAGE, g->s, c38_name(N_GUARD), "a guard");
            if(env_prot(g->e) == PROT_NONE) expect_name(g->e, g->e + PAGE, c38_name(N_GUARD), "a guard");
        }
        (void) sampled;
    }
#if NAMED_MAPPINGS && MEMORY_TAGGING
    for(int i = 0; i < nlive; i++) if(live[i].zone >= 0) { /* below the guard below a tagged zone are its tags */
        const seg_t *g = env_seg((uintptr_t) live[i].p);
        uintptr_t t = g->s - 2 * PAGE;
        if(env_prot(t) == RW && map_of(t) == map_of(g->s)) expect_name(t, t + PAGE, c38_name(N_TAGS), "memory for tags");
    }
#endif
}
static void inited(void) { /* what was locked and populated at the start */
    uintptr_t bm[256]; int nb = c38_bitmaps(bm);
    size_t zn; uintptr_t zs = c38_zones(&zn);
    int meta = 0;
    for(int i = 0; i < nmaps; i++) {
        if(!maps[i].init || (maps[i].e - maps[i].s >= (4UL << 20) && !(zs >= maps[i].s && zs < maps[i].e))) {
            uintptr_t len = maps[i].e - maps[i].s;
            if(len < (4UL << 20) + 2 * PAGE || len > (4UL << 20) + 16 * PAGE) { /* a table of many megabytes, not a zone */ }
            else continue;
        }
        bool bitmap = false;
        for(int k = 0; k < nb; k++) if(bm[k] >= maps[i].s && bm[k] < maps[i].e) bitmap = true;
        uintptr_t s = maps[i].s, e = maps[i].e;
        while(s < e && env_prot(s) == PROT_NONE) s += PAGE;
        while(e > s && env_prot(e - 1) == PROT_NONE) e -= PAGE;
        if(s == e) continue; /* placeholder pages */
        expect_name(maps[i].s, s, c38_name(N_GUARD), "a guard"); expect_name(e, maps[i].e, c38_name(N_GUARD), "a guard");
        if(bitmap) {
            for(int k = 0; k < nlocks; k++) if(locks[k].s < e && s < locks[k].e) mc_fail("bitmaps are locked");
            continue;
        }
        meta++;
        for(uintptr_t a = s; a < e; a += PAGE) {
            bool l = false;
            for(int k = 0; k < nlocks; k++) if(a >= locks[k].s && a < locks[k].e) l = true;
#if USE_MLOCK
            if(!l && !(env.fail_mask & FK_MLOCK)) mc_fail("page %lu of %lu of a metadata mapping made at the start is not locked%s", (a - s) / PAGE, (e - s) / PAGE, c38_root() == s ? " (the root)" : zs == s ? " (the zone table)" : "");
#endif
        }
        if(PRE_POPULATE_PAGES && zs != s && !(maps[i].flags & MAP_POPULATE)) mc_fail("a metadata mapping of %lu pages made at the start is not populated", (e - s) / PAGE);
    }
    if(meta < 4) mc_fail("harness: %d metadata mappings", meta);
    uintptr_t r = c38_root();
    expect_name(r, r + 1, c38_name(N_ROOT), "the root");
}
static void pre(void) { env.on_sys = sys; initing = true; if(refuse) { env.fail_mask = FK_MLOCK | FK_MADVISE | FK_PRCTL; env.fail_at = 1; env.fail_sticky = 1; } }
static void post(void) { initing = false; inited(); for(int i = 0; i < nmaps; i++) maps[i].init = false; aging = true; }
static void init(int v) {
    nmaps = nnames = nlocks = nbigs = nzt = 0;
    memset(own, 0, sizeof own);
    refuse = v >= 8;
    m_pre = pre; m_post = post; aging = false;
    m_start(v & 7);
    iso_flush_caches();
    aging = false;
    for(int i = 0; i < nlive; i++) if(live[i].req > 65536) { bigs[nbigs].s = (uintptr_t) live[i].p; bigs[nbigs++].e = (uintptr_t) live[i].p + live[i].use; }
    judge();
}
static void add(void *p, size_t n, int z) {
    blk_t *b = m_add_nofill(p, n, z);
    if(b->use <= 1 << 17) m_fill(b); else { b->pat = ++m_pat; m_fill_span(b, 0, 64); m_fill_span(b, b->use - 64, b->use); }
    if(n > 65536) {
        for(int i = 0; i < nbigs; i++) if(bigs[i].s == (uintptr_t) p) return;
        if(nbigs >= 512) mc_fail("harness: bigs");
        bigs[nbigs].s = (uintptr_t) p; bigs[nbigs++].e = ((uintptr_t) p + b->use + PAGE - 1) & ~(PAGE - 1);
    }
}
static blk_t tk(int i) { blk_t b = live[i]; memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--; return b; }
static const size_t A[] = {48, 8192, 60000, 70000, 2UL << 20, 4UL << 20, (4UL << 20) - 2 * PAGE};
static void o_alloc(int k) { add(iso_alloc(A[k]), A[k], -1); }
static void o_calloc(int k) { add(iso_calloc(1, A[k]), A[k], -1); }
static bool has(int k) { return nlive > k; }
static void o_free(int k) { blk_t b = tk(k ? 0 : nlive - 1); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p); }
static bool topg(int k) { return nlive > 0 && live[nlive - 1].zone < 0; }
static void o_size(int k) { blk_t b = tk(nlive - 1); iso_free_size(b.p, b.req); }
static void o_perm(int k) { blk_t b = tk(nlive - 1); iso_free_permanently(b.p); }
static void o_realloc(int k) { blk_t b = tk(nlive - 1); void *q = iso_realloc(b.p, A[k]); add(q, A[k], -1); }
static void o_zone(int n) { if(nzt >= 60) return; void *h = iso_alloc_new_zone(n); if(!h) mc_fail("no zone"); zt[nzt] = (mz_t){h, n, 0, 0, 0, true}; own[nzt][0] = 0; add(iso_alloc_from_zone(h), n, nzt); nzt++; }
static bool z_en(int k) { return nzt > 0 && zt[nzt - 1].live; }
static void o_zname(int k) {
    char nm[24]; snprintf(nm, sizeof nm, "mine %d", nzt + k);
    int r = iso_alloc_name_zone(zt[nzt - 1].h, nm);
    if(NAMED_MAPPINGS && (env.fail_mask & FK_PRCTL)) { if(r == 0) mc_fail("naming a zone succeeded though the kernel refused"); return; }
    if(r != 0) mc_fail("naming a zone yields %d", r);
    if(NAMED_MAPPINGS) strcpy(own[nzt - 1], nm);
    if(iso_alloc_name_zone(NULL, nm) != 0) mc_fail("naming no zone");
}
static void o_zalloc(int k) { void *p = iso_alloc_from_zone(zt[nzt - 1].h); if(p) add(p, zt[nzt - 1].csz, nzt - 1); }
static void o_zdestroy(int k) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == nzt - 1) tk(i); zt[nzt - 1].live = false; iso_alloc_destroy_zone(zt[nzt - 1].h); }
static void o_flush(int k) { iso_flush_caches(); }
static void o_age(int k) { for(int i = 0; i < 4200000 / 8192 + 5; i++) { void *p = iso_alloc(8192); iso_free_size(p, 8192); } }
static void o_ask(int k) { iso_verify_zones(); iso_alloc_protect_root(); iso_alloc_unprotect_root(); }
static void node(void) { judge(); }
static void leaf(void) {
    mc_nontrivial(nmaps * 7919 + nnames * 31 + nlive + nlocks * 131);
    while(nlive) o_free(nlive & 1);
    iso_flush_caches();
    iso_verify_zones();
}
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"alloc", NULL, o_alloc, 4}, {"alloc", NULL, o_alloc, 5}, {"alloc", NULL, o_alloc, 6}, {"calloc", NULL, o_calloc, 3},
    {"free", has, o_free, 0}, {"free_old", has, o_free, 1}, {"free_size", topg, o_size, 0}, {"free_perm", topg, o_perm, 0}, {"realloc", topg, o_realloc, 0}, {"realloc", topg, o_realloc, 4}, {"flush", NULL, o_flush, 0}, {"age", NULL, o_age, 0}, {"ask", NULL, o_ask, 0},
    {"zone", NULL, o_zone, 1024}, {"zone", NULL, o_zone, 32}, {"zname", z_en, o_zname, 0}, {"zalloc", z_en, o_zalloc, 0}, {"zdestroy", z_en, o_zdestroy, 0},
};
static const seq_t attrs = {"attrs", init, 16, ops, sizeof ops / sizeof *ops, node, leaf, 3, 4};
static const scen_t sc[] = {MC_SEQ(attrs)};
int main(int c, char **v) { return mc_main(c, v, sc, 1); }
