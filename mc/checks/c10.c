/* C10/C11: every schedule of small multi-threaded programs over the allocator */
#include "../mm.h"
#include "../mcsched.h"
#include <signal.h>
#ifndef MC_QUARANTINE
#define MC_QUARANTINE 64
#endif

enum { NOWN = 6 };
static struct { uint8_t *p; size_t n; int zone; } own[SCH_MAXT][NOWN];
static int nown[SCH_MAXT];
static void *sharedz, *privz[SCH_MAXT];
static uint8_t *handed[4]; static size_t handed_n[4];

/* registers an allocation without calling into the allocator */
static void c_reg(int t, void *vp, size_t n, int zone) {
    uint8_t *p = vp;
    if(!p) mc_fail("thread %d: request for %zu bytes returned NULL", t, n);
    if((uintptr_t) p & 7) mc_fail("thread %d: %p is not aligned", t, vp);
    if(!env_all((uintptr_t) p, n, RW)) mc_fail("thread %d: request for %zu bytes returned inaccessible memory", t, n);
    for(int i = 0; i < nlive; i++)
        if(p < live[i].p + live[i].use && live[i].p < p + n) mc_fail("thread %d: request for %zu bytes returned %p, overlapping a live allocation %p of %zu", t, n, vp, (void *) live[i].p, live[i].use);
    live[nlive] = (blk_t){p, n, n, 0, zone, 0};
    sch_write(p, n > 64 ? 64 : n);
    if(n > 64) sch_write(p + n - 64, 64);
    m_fill(&live[nlive++]);
    mc_eval(1);
}
static void c_own(int t, void *p, size_t n, int zone) {
    c_reg(t, p, n, zone);
    if(nown[t] < NOWN) { own[t][nown[t]].p = p; own[t][nown[t]].n = n; own[t][nown[t]].zone = zone; nown[t]++; }
}
static size_t c_take(int t, uint8_t **p, int *zone) {
    if(nown[t] == 0) return 0;
    nown[t]--;
    *p = own[t][nown[t]].p; *zone = own[t][nown[t]].zone;
    int i = m_find(*p);
    if(i < 0) mc_fail("harness: lost block");
    size_t n = live[i].use;
    sch_read(*p, n > 64 ? 64 : n);
    m_take(i);
    return n;
}
static void o_alloc(int t, int n) { c_own(t, iso_alloc(n), n, -1); }
static void o_calloc(int t, int n) {
    uint8_t *p = iso_calloc(1, n);
    if(p) for(int i = 0; i < n; i++) if(p[i]) mc_fail("iso_calloc memory is not zero");
    c_own(t, p, n, -1);
}
static void o_free(int t, int how) {
    uint8_t *p; int z;
    size_t n = c_take(t, &p, &z);
    if(!n) return;
    if(z >= 0 && how != 9) iso_free_from_zone(p, zt[z].h);
    else if(how == 1) iso_free_size(p, n);
    else if(how == 2) iso_free_permanently(p);
    else iso_free(p);
}
static void o_realloc(int t, int n) {
    uint8_t *p; int z;
    size_t o = c_take(t, &p, &z);
    if(!o || z >= 0) { c_own(t, iso_realloc(NULL, n), n, -1); return; }
    uint8_t head[16];
    memcpy(head, p, 16);
    uint8_t *q = iso_realloc(p, n);
    if(q && memcmp(head, q, 16)) mc_fail("iso_realloc lost the contents");
    c_own(t, q, n, -1);
}
static void o_size(int t, int n) {
    (void) n;
    if(!nown[t]) return;
    size_t r = iso_chunksz(own[t][nown[t] - 1].p);
    if(r < own[t][nown[t] - 1].n) mc_fail("iso_chunksz gives %zu for an allocation of %zu bytes", r, own[t][nown[t] - 1].n);
}
static void o_flush(int t, int a) { (void) t; (void) a; iso_flush_caches(); }
static void o_verify(int t, int a) { (void) t; (void) a; iso_verify_zones(); }
static void o_verifyz(int t, int a) { (void) t; (void) a; iso_verify_zone(sharedz); }
static void o_count(int t, int a) { (void) t; (void) a; if(iso_zone_chunk_count(sharedz) < 10) mc_fail("iso_zone_chunk_count is wrong"); }
static void o_zalloc(int t, int a) { (void) a; c_own(t, iso_alloc_from_zone(sharedz), zt[0].csz, 0); }
static void o_znew(int t, int n) {
    if(privz[t]) return;
    void *h = iso_alloc_new_zone(n);
    if(!h) mc_fail("no zone");
    zt[1 + t] = (mz_t){h, n, 0, 0, 0, true};
    privz[t] = h;
    c_own(t, iso_alloc_from_zone(h), n, 1 + t);
}
static void o_zdel(int t, int a) {
    (void) a;
    if(!privz[t]) return;
    for(int i = nown[t] - 1; i >= 0; i--) if(own[t][i].zone == 1 + t) {
        int k = m_find(own[t][i].p); m_take(k);
        memmove(&own[t][i], &own[t][i + 1], (nown[t] - i - 1) * sizeof own[t][0]); nown[t]--;
    }
    iso_alloc_destroy_zone(privz[t]);
    privz[t] = NULL; zt[1 + t].live = false;
}
static void o_leaks(int t, int a) {
    (void) t;
    if(a == 0) iso_alloc_detect_leaks();
    else if(a == 1) iso_alloc_mem_usage();
    else if(a == 2) iso_alloc_detect_zone_leaks(sharedz);
    else iso_alloc_zone_mem_usage(sharedz);
}
static void o_name(int t, int a) { (void) t; (void) a; iso_alloc_name_zone(sharedz, "z"); }
#if MEMORY_TAGGING
static void o_ztag(int t, int a) { /* a tagged pointer keeps its tag while it is allocated */
    void *q = iso_alloc_from_zone_tagged(sharedz);
    sch_point();
    iso_alloc_verify_ptr_tag(q, sharedz);
    void *p = iso_alloc_untag_ptr(q, sharedz);
    if((uintptr_t) p >> 56) mc_fail("untagging %p gives %p", q, p);
    sch_point();
    if(iso_alloc_get_mem_tag(p, sharedz) != (uintptr_t) q >> 56) mc_fail("the tag of a live chunk changed");
    if(iso_alloc_tag_ptr(p, sharedz) != q) mc_fail("tagging %p again gives another pointer than %p", p, q);
    c_own(t, p, zt[0].csz, 0);
    if(a) {
        uint8_t *x; int z;
        if(c_take(t, &x, &z)) iso_free_from_zone(q, sharedz);
    }
}
#endif
#if HEAP_PROFILER
static void o_traces(int t, int a) {
    (void) t;
    static iso_alloc_traces_t at[128]; static iso_free_traces_t ft[128];
    if(a == 0) (void) !iso_get_alloc_traces(at); else if(a == 1) (void) !iso_get_free_traces(ft); else iso_alloc_reset_traces();
}
#endif
static void o_zero(int t, int a) { (void) t; (void) a; void *p = iso_alloc(0); iso_free(p); }
/* hand over: thread t publishes its last block, the other side frees it */
static void o_post(int t, int ch) { uint8_t *p; int z; if(nown[t]) { nown[t]--; handed[ch] = own[t][nown[t]].p; handed_n[ch] = own[t][nown[t]].n; } (void) p; (void) z; sch_post(ch); }
static void o_wait(int t, int ch) { sch_wait(ch); if(handed[ch]) { own[t][nown[t]].p = handed[ch]; own[t][nown[t]].n = handed_n[ch]; own[t][nown[t]].zone = -1; nown[t]++; } }

static const sop_t A[] = {
    {"alloc", o_alloc, 64}, {"alloc", o_alloc, 8192}, {"alloc", o_alloc, 1500}, {"alloc", o_alloc, 70000},
    {"free", o_free, 0}, {"freesize", o_free, 1}, {"freeperm", o_free, 2},
    {"realloc", o_realloc, 100000}, {"realloc", o_realloc, 48}, {"chunksz", o_size, 0},
    {"flush", o_flush, 0}, {"verify", o_verify, 0}, {"zalloc", o_zalloc, 0}, {"znew", o_znew, 8192}, {"zdel", o_zdel, 0},
    {"verifyzone", o_verifyz, 0}, {"calloc", o_calloc, 200},
#if LEAK_DETECTOR || HEAP_PROFILER || MEM_USAGE
    {"leaks", o_leaks, 0}, {"usage", o_leaks, 1}, {"zleaks", o_leaks, 2}, {"zusage", o_leaks, 3},
#endif
#if HEAP_PROFILER
    {"atraces", o_traces, 0}, {"ftraces", o_traces, 1}, {"reset", o_traces, 2},
#endif
#if MEMORY_TAGGING
    {"ztag", o_ztag, 0}, {"ztagfree", o_ztag, 1},
#endif
    {"zero", o_zero, 0}, {"name", o_name, 0},
};
enum { NA = sizeof A / sizeof *A };
static const sop_t POST = {"give", o_post, 0}, WAIT = {"take", o_wait, 0};
static const sop_t *A_(const char *n, int arg) { for(int i = 0; i < NA; i++) if(!strcmp(A[i].name, n) && A[i].arg == arg) return &A[i]; abort(); }

/* start states. 0: nothing owned, fresh heap. 1: each thread owns a small and a big block,
 * the delayed-free buffer is one short of full. 2: the 8192 zone has one free chunk left and
 * recycled big blocks wait for reuse. 3: a zone on the brink of retirement. */
static void pre(int t, size_t n) {
    void *p = iso_alloc(n);
    blk_t *b = m_add_nofill(p, n, -1);
    b->use = n; m_fill(b);
    own[t][nown[t]].p = p; own[t][nown[t]].n = n; own[t][nown[t]].zone = -1; nown[t]++;
}
static int nret;
static void retired(int k, uintptr_t a, size_t n, int p) { (void) a; (void) p; if(k == FK_MUNMAP && n > 4194304) nret++; }
static void init(int v) {
    static const int pol[] = {PL_SPREAD, PL_REUSE, PL_PACKED, PL_REUSE};
    env_reset(pol[v & 3]);
    iso_alloc_initialize();
    sharedz = iso_alloc_new_zone(1024);
    zt[0] = (mz_t){sharedz, 1024, 0, 0, 0, true}; nzt = 4;
    if(v == 1 || v == 2) {
        for(int t = 0; t < 3; t++) { pre(t, 70000); pre(t, 64); }
    }
    if(v == 1) for(int i = 0; i < MC_QUARANTINE - 1; i++) { void *p = iso_alloc(1024); iso_free(p); }
    if(v == 2) {
        void *b[3];
        for(int i = 0; i < 3; i++) b[i] = iso_alloc(70000);
        for(int i = 0; i < 2; i++) iso_free_size(b[i], 70000);
        static void *q[600]; int n = 0;
        /* exhaust the first zone of 8192 byte chunks */
        for(int i = 0; i < 506; i++) q[n++] = iso_alloc(8192);
        const seg_t *s = env_seg((uintptr_t) q[0]);
        uintptr_t e = s->e, b0 = s->s;
        void *r;
        do { r = iso_alloc(8192); q[n++] = r; } while((uintptr_t) r >= b0 && (uintptr_t) r < e && n < 600);
        iso_free_size(r, 8192); iso_free_size(q[3], 8192);
        iso_free_size(b[2], 70000);
    }
    if(v == 3) { /* the zone of 8192 byte chunks is replaced once both threads freed theirs */
        env.on_event = retired;
        nret = 0;
        for(int i = 0; i < 3000 && !nret; i++) iso_free_size(iso_alloc(8192), 8192);
        if(!nret) mc_fail("harness: no retirement");
        env.on_event = NULL;
        for(int i = 0; i < 512; i++) iso_free_size(iso_alloc(8192), 8192);
        for(int t = 0; t < 2; t++) pre(t, 8192);
    }
#if ALLOC_SANITY || HEAP_PROFILER || UAF_PTR_PAGE
    /* every draw selects the event (odds are "% N == 1"), or every second one */
    env.rmode = v == 0 || v == 3 ? RM_HIT : RM_HITALT;
#endif
}
static void fin(void) {
    for(int t = 0; t < SCH_MAXT; t++) privz[t] = NULL;
    m_outcome();
    m_check_all();
    iso_verify_zones();
    for(int i = 0; i < nlive; i++) { size_t u = iso_chunksz(live[i].p); if(u < live[i].use) mc_fail("usable size %zu of an allocation of %zu bytes", u, live[i].use); }
    while(nlive) { blk_t b = m_take(nlive & 1 ? nlive - 1 : 0); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free(b.p); }
    iso_flush_caches();
    iso_verify_zones();
    static const size_t sz[] = {64, 1500, 8192, 70000};
    for(int r = 0; r < 2; r++) for(unsigned i = 0; i < 4; i++) m_add(iso_alloc(sz[i]), sz[i], -1);
    while(nlive) iso_free(m_take(0).p);
    iso_flush_caches();
    iso_verify_zones();
}
static int bnd(int q, int th) { const char *e = getenv("MC_BOUND"); return e ? atoi(e) : mc_thorough ? th : q; }
static void put(int t, const sop_t *o) { sch_prog[t].op[sch_prog[t].n++] = o; }

/* one operation against one operation, in every start state */
static long count11(int v) { (void) v; return NA * (NA + 1) / 2; }
static void unpair(long k, int n, int *a, int *b) { int i = 0; while(k >= n - i) { k -= n - i; i++; } *a = i; *b = i + k; }
static void item11(long k) {
    int a, b; unpair(k, NA, &a, &b);
    sch_nt = 2; put(0, &A[a]); put(1, &A[b]);
    sch_explore(bnd(4, 6), fin);
}
/* sequences of two, over the operations that interact */
static const struct { const char *n; int arg; } K[] = {
    {"alloc", 64}, {"alloc", 8192}, {"alloc", 70000}, {"free", 0}, {"freesize", 1}, {"realloc", 100000},
    {"flush", 0}, {"zalloc", 0}, {"znew", 8192}, {"zdel", 0},
#if LEAK_DETECTOR || HEAP_PROFILER || MEM_USAGE
    {"leaks", 0}, {"usage", 1},
#endif
#if MEMORY_TAGGING
    {"ztag", 0},
#endif
};
enum { NK = sizeof K / sizeof *K };
static const sop_t *K_(int i) { return A_(K[i].n, K[i].arg); }
static long count22(int v) { (void) v; long n = NK * NK; return n * (n + 1) / 2; }
static void item22(long k) {
    int a, b; unpair(k, NK * NK, &a, &b);
    sch_nt = 2;
    put(0, K_(a / NK)); put(0, K_(a % NK)); put(1, K_(b / NK)); put(1, K_(b % NK));
    sch_explore(bnd(1, 2), fin);
}
static long count111(int v) { (void) v; return (long) NA * (NA + 1) * (NA + 2) / 6; }
static void item111(long k) {
    for(int a = 0; a < NA; a++) for(int b = a; b < NA; b++) for(int c = b; c < NA; c++) if(k-- == 0) {
        sch_nt = 3; put(0, &A[a]); put(1, &A[b]); put(2, &A[c]);
        sch_explore(bnd(1, 2), fin);
        return;
    }
}
/* longer programs with ownership passed between threads */
static const char *const X[] = {"alloc64", "alloc8192", "alloc70000", "alloc1500"};
static long countx(int v) { (void) v; return 4 * 3 * NA; }
static void itemx(long k) {
    static const int sz[] = {64, 8192, 70000, 1500};
    int s = k % 4, how = k / 4 % 3, o = k / 12;
    sch_nt = 2;
    put(0, A_("alloc", sz[s])); put(0, &POST); put(0, A_("alloc", sz[s])); put(0, &A[o]);
    put(1, &WAIT); put(1, &A[4 + how]); put(1, A_("alloc", sz[s]));
    sch_explore(bnd(2, 3), fin);
}
/* C28: one thread protects the root for a while; the other's calls wait, or end the process */
static bool window; static int nwindow;
static void wseg(int sig) {
    if(window) _exit(0);
    signal(sig, SIG_DFL); raise(sig);
}
static void o_protect(int t, int a) {
    extern void *_root;
    (void) t; (void) a;
    const seg_t sg = *env_seg((uintptr_t) _root);
    signal(SIGSEGV, wseg);
    iso_alloc_protect_root();
    if(!env_all(sg.s, sg.e - sg.s, PROT_NONE)) mc_fail("the protected root is accessible");
    window = true; nwindow++;
    sch_point();
    window = false;
    iso_alloc_unprotect_root();
    if(!env_all(sg.s, sg.e - sg.s, RW)) mc_fail("the root stays protected");
    mc_eval(1);
}
static const sop_t *gop;
static void o_during(int t, int a) {
    (void) a;
    bool w = window; int n = nwindow, had = nown[t];
    if(gop->fn == o_zdel && !privz[t]) { o_znew(t, 8192); w = window; }
    if(gop->fn == o_znew && privz[t]) return;
    if((gop->fn == o_free || gop->fn == o_size) && !had) return;
    gop->fn(t, gop->arg);
    if(w && window && n == nwindow) mc_fail("%s(%d) completed while another thread keeps the root protected", gop->name, gop->arg);
}
static const sop_t PROTECT = {"protect+unprotect", o_protect, 0}, DURING = {"during", o_during, 0};
static long countp(int v) { (void) v; return NA * 2; }
static void itemp(long k) {
    gop = &A[k / 2];
    mc_note("during=%s(%d)", gop->name, gop->arg);
    sch_nt = 2;
    put(0, &PROTECT); put(0, A_("alloc", 64));
    put(1, &DURING); put(1, &DURING);
    if(k & 1) put(0, &PROTECT);
    sch_explore(bnd(2, 4), fin);
}
static const dom_t dp = {"protect", init, 4, countp, itemp, 1};
static const dom_t d11 = {"pairs", init, 4, count11, item11, 1};
static const dom_t d22 = {"pairs2", init, 4, count22, item22, 1};
static const dom_t d111 = {"triples", init, 4, count111, item111, 1};
static const dom_t dx = {"handover", init, 4, countx, itemx, 1};
static const scen_t sc[] = {MC_DOM(d11), MC_DOM(d22), MC_DOM(d111), MC_DOM(dx), MC_DOM(dp)};
int main(int c, char **v) {
    sch_report_races = getenv("MC_RACES") != NULL;
    setenv("ISO_ALLOC_PROFILER_FILE_PATH", "/dev/null", 1);
    return mc_main(c, v, sc, 5);
}
