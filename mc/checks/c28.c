/* C28: protecting and unprotecting the root */
#include "../mm.h"
#include <sys/wait.h>
#include <unistd.h>
extern void *_root;
static uintptr_t root_lo, root_hi;

static void find_root(void) { /* the mapping that holds the root, guards excluded */
    const seg_t *s = env_seg((uintptr_t) _root);
    if(!s || s->prot != RW) mc_fail("the root is not mapped readable and writable");
    root_lo = (uintptr_t) _root & ~(PAGE - 1);
    /* its pages are those that were mapped with it */
    root_hi = root_lo;
    for(int i = 0; i < nsegs; i++) if(segs[i].s <= root_lo && root_lo < segs[i].e) root_hi = segs[i].e;
}
static int seg_snapshot(seg_t *o) { int n = 0; for(int i = 0; i < nsegs; i++) o[n++] = segs[i]; return n; }
static seg_t before[MAXSEG]; static int nb;
static void pr(void) {
    nb = seg_snapshot(before);
    iso_alloc_protect_root();
    mc_eval(1);
    for(uintptr_t a = root_lo; a < root_hi; a += PAGE) if(env_prot(a) != PROT_NONE) mc_fail("page %lu of %lu of the protected root is accessible (%d)", (unsigned long) (a - root_lo) / PAGE, (unsigned long) (root_hi - root_lo) / PAGE, env_prot(a));
    /* nothing else changed */
    for(int i = 0; i < nb; i++) for(uintptr_t a = before[i].s; a < before[i].e && before[i].e - before[i].s < (1UL << 25); a += before[i].e - before[i].s > 65536 ? before[i].e - PAGE - before[i].s : PAGE) {
        if(a >= root_lo && a < root_hi) continue;
        if(env_prot(a) != before[i].prot) mc_fail("protecting the root changed the page %p from %d to %d", (void *) a, before[i].prot, env_prot(a));
    }
    for(int i = 0; i < nlive; i++) m_check(&live[i]); /* user memory stays usable */
}
static void un(void) {
    iso_alloc_unprotect_root();
    if(nsegs != nb) mc_fail("protecting and unprotecting the root left %d segments instead of %d", nsegs, nb);
    for(int i = 0; i < nb; i++) if(segs[i].s != before[i].s || segs[i].e != before[i].e || segs[i].prot != before[i].prot) mc_fail("after unprotecting the root %p..%p has protection %d instead of %d", (void *) segs[i].s, (void *) segs[i].e, segs[i].prot, before[i].prot);
    mc_eval(1);
}
static void start(int v) {

    m_start(v);
    zt[0] = (mz_t){iso_alloc_new_zone(256), 256, 0, 0, 0, true}; nzt = 1;
    find_root();
}
/* ---- histories with pairs as an operation */
static const size_t A[] = {24, 1500, 8192, 70000};
static void o_alloc(int k) { m_add(iso_alloc(A[k]), A[k], -1); }
static void o_calloc(int k) { uint8_t *p = iso_calloc(1, A[k]); m_add(p, A[k], -1); }
static bool en(int k) { return k < nlive; }
static void o_free(int k) { blk_t b = m_take(nlive - 1 - (k & 3)); if(b.zone >= 0) iso_free_from_zone(b.p, zt[0].h); else if(k & 4) iso_free_size(b.p, b.req); else if(k & 8) iso_free_permanently(b.p); else iso_free(b.p); }
static bool f_en(int k) { return en(k & 3); }
static void o_realloc(int n) { int i = nlive - 1; if(live[i].zone >= 0) return; blk_t b = m_take(i); m_add(iso_realloc(b.p, n), n, -1); }
static void o_zalloc(int k) { (void) k; m_add(iso_alloc_from_zone(zt[0].h), 256, 0); }
static void o_misc(int k) { if(k == 0) iso_flush_caches(); else if(k == 1) iso_verify_zones(); else { void *h = iso_alloc_new_zone(512); iso_alloc_destroy_zone(h); } }
static void o_pair(int k) { for(int i = 0; i <= k; i++) { pr(); un(); } }
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"calloc", NULL, o_calloc, 1},
    {"free", f_en, o_free, 0}, {"free", f_en, o_free, 1}, {"free_size", f_en, o_free, 4}, {"free_perm", f_en, o_free, 8}, {"realloc", en, o_realloc, 90000}, {"zalloc", NULL, o_zalloc, 0},
    {"flush", NULL, o_misc, 0}, {"verify", NULL, o_misc, 1}, {"zone", NULL, o_misc, 2},
};
enum { NOPS = sizeof ops / sizeof *ops };
/* every sequence with a pair in front of each subset of its operations: the same addresses as without any */
static uintptr_t *shm; enum { SL = 64 };
static int seqn[8], seqlen, pmask;
static int log_n;
static void logv(uintptr_t v) { if(log_n < SL) shm[log_n++] = v; }
static void dorun(void *x) {
    int base = (int) (intptr_t) x; log_n = base;
    for(int i = 0; i < seqlen; i++) {
        if(pmask >> i & 1) o_pair(pmask >> 7 & 1);
        const op_t *o = &ops[seqn[i]];
        if(o->enabled && !o->enabled(o->arg)) continue;
        o->run(o->arg);
        logv(nlive ? (uintptr_t) live[nlive - 1].p : 0); logv(env.n_mmap); logv(env.n_munmap);
        m_check_all();
    }
    if(pmask >> seqlen & 1) o_pair(0);
    m_audit();
    logv(env.n_mmap); logv(env.n_munmap); logv(log_n - base);
}
static int L(void) { return mc_thorough ? 4 : 3; }
static void pinit(int v) { start(v); }
static long pcount(int v) { (void) v; long n = 1; for(int i = 0; i < L(); i++) n *= NOPS; return n; }
static void pitem(long k) {
    seqlen = L();
    for(int i = 0; i < seqlen; i++) { seqn[i] = k % NOPS; k /= NOPS; mc_note("%s(%d) ", ops[seqn[i]].name, ops[seqn[i]].arg); }
    uintptr_t ref[SL];
    shm = real_mmap(NULL, SL * 8 * 2, RW, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(shm, 0, SL * 8);
    pmask = 0;
    if(mc_death(dorun, (void *) 0) != D_OK) mc_fail("the sequence fails without protection");
    memcpy(ref, shm, sizeof ref);
    for(int m = 1; m < 1 << (seqlen + 1); m++) {
        if(!mc_thorough && (m & (m - 1)) && m != (1 << (seqlen + 1)) - 1 && m != 5 && m != 6) continue;
        pmask = m | ((m & 3) == 3 ? 128 : 0);
        memset(shm, 0, SL * 8);
        int r = mc_death(dorun, (void *) 0);
        if(r != D_OK) mc_fail("with the root protected and unprotected at %#x the sequence fails (outcome %d)", m, r);
        for(int i = 0; i < SL; i++) if(ref[i] != shm[i]) mc_fail("with the root protected and unprotected at %#x result %d is %#lx instead of %#lx", m, i, shm[i], ref[i]);
        mc_eval(1);
    }
    mc_nontrivial(k + ref[0] + ref[6]);
    real_munmap(shm, SL * 8 * 2);
}
static const dom_t pairs = {"pairs", pinit, 4, pcount, pitem, 1};
/* ---- every call while this thread keeps the root protected: it waits for ever or faults */
static void *gp, *gbig, *gz;
static void call(void *x) {
    iso_alloc_protect_root();
    alarm(1);
    switch((intptr_t) x) {
    case 0: (void) iso_alloc(64); break;
    case 1: (void) iso_alloc(0); break;
    case 2: (void) iso_alloc(100000); break;
    case 3: (void) iso_calloc(2, 50); break;
    case 4: (void) iso_realloc(gp, 500); break;
    case 5: (void) iso_realloc(NULL, 500); break;
    case 6: (void) iso_reallocarray(gp, 5, 500); break;
    case 7: iso_free(gp); break;
    case 8: iso_free_size(gp, 64); break;
    case 9: iso_free_permanently(gp); break;
    case 10: iso_free(gbig); break;
    case 11: iso_free_size(gbig, 70000); break;
    case 12: iso_free_from_zone(gz, zt[0].h); break;
    case 13: iso_free_from_zone_permanently(gz, zt[0].h); break;
    case 14: (void) iso_alloc_from_zone(zt[0].h); break;
    case 15: (void) iso_alloc_new_zone(128); break;
    case 16: iso_alloc_destroy_zone(zt[0].h); break;
    case 17: (void) iso_chunksz(gp); break;
    case 18: (void) iso_chunksz(gbig); break;
    case 19: (void) iso_strdup("abc"); break;
    case 20: (void) iso_strndup("abc", 2); break;
    case 21: iso_flush_caches(); break;
    case 22: iso_verify_zones(); break;
    case 23: iso_verify_zone(zt[0].h); break;
    case 24: (void) iso_alloc_name_zone(zt[0].h, "x"); break;
    case 25: (void) iso_zone_chunk_count(zt[0].h); break;
    case 26: (void) iso_strdup_from_zone(zt[0].h, "abc"); break;
    case 27: iso_alloc_destroy(); break;
    case 28: iso_free_permanently(gbig); break;
    }
}
enum { NCALL = 29 };
static long ccount(int v) { (void) v; return NCALL; }
static void citem(long k) {
    gp = iso_alloc(64); gbig = iso_alloc(70000); gz = iso_alloc_from_zone(zt[0].h);
    int r = mc_death(call, (void *) k);
    if(r != D_SIGNAL && !(r == D_OTHER && WIFSIGNALED(mc_death_status))) mc_fail("call %ld %s while the root is protected", k, r == D_OK ? "completed" : "did not fault");
    mc_eval(1); mc_nontrivial(k);
    m_add(gp, 64, -1); pr(); un();
    m_audit();
}
static const dom_t calls = {"calls", pinit, 4, ccount, citem, 1};
static const scen_t sc[] = {MC_DOM(pairs), MC_DOM(calls)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
