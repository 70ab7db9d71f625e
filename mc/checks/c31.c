/* C31: the heap profiler records every sampled call under its path, and sampling changes nothing else */
#include "../mm.h"
#define NI __attribute__((noinline))
#define END() asm volatile("" ::: "memory")

/* ---- call paths: a fixed chain, one of two intermediate functions, one of many call sites ---- */
typedef void *(*alloc_fn)(size_t);
typedef void (*free_fn)(void *);
static alloc_fn volatile af;
static free_fn volatile ff;
#define S(n) static NI void *sa_##n(size_t z) { void *p = af(z); END(); return p; } static NI void *sf_##n(size_t z) { ff((void *) z); END(); return NULL; }
#define D10(p) S(p##0) S(p##1) S(p##2) S(p##3) S(p##4) S(p##5) S(p##6) S(p##7) S(p##8) S(p##9)
#define ALL D10(0) D10(1) D10(2) D10(3) D10(4) D10(5) D10(6) D10(7) D10(8) D10(9) D10(10) D10(11) D10(12) D10(13)
ALL
#undef S
#define NSITE 140
typedef void *(*site_fn)(size_t);
#define S(n) sa_##n,
static const site_fn asite[NSITE] = {ALL};
#undef S
#define S(n) sf_##n,
static const site_fn fsite[NSITE] = {ALL};
/* 32 KB apart: with fewer than 32 KB of call sites no two paths have the same 16-bit hash */
static NI __attribute__((aligned(32768))) void *mid0(site_fn f, size_t z) { void *p = f(z); END(); return p; }
static NI __attribute__((aligned(32768))) void *mid1(site_fn f, size_t z) { void *p = f(z); END(); return p; }
typedef void *(*mid_fn)(site_fn, size_t);
static const mid_fn mids[2] = {mid0, mid1};
#define C(n, m) static NI void *ch##n(int k, site_fn f, size_t z) { void *p = ch##m(k, f, z); END(); return p; }
static NI void *ch0(int k, site_fn f, size_t z) { void *p = mids[k](f, z); END(); return p; }
C(1, 0) C(2, 1) C(3, 2) C(4, 3) C(5, 4) C(6, 5) C(7, 6) C(8, 7) C(9, 8) C(10, 9) C(11, 10)

/* ---- model ---- */
typedef struct { int site, mid; size_t calls, rlo, ulo, rhi, uhi; } path_t;
typedef struct { path_t p[300]; int n; bool full; } tab_t;
static tab_t ta, tf;
static long nalloc, nsampled, nfree_lo, nfree_hi, nfsampled;
static int form; /* of the recorded calls */
static void *zh; static size_t zsz;
static NI void *f_calloc(size_t n) { void *p = iso_calloc(1, n); END(); return p; }
static NI void *f_zone(size_t n) { (void) n; void *p = iso_alloc_from_zone(zh); END(); return p; }
static NI void *f_strdup(size_t n) {
    static char b[70001]; static bool in;
    if(!in) { memset(b, 'x', 70000); in = true; }
    char c = b[n - 1]; b[n - 1] = 0; void *p = iso_strdup(b); b[n - 1] = c; END(); return p;
}
static void record(tab_t *t, int site, int mid, size_t req, size_t use) {
    path_t *q = NULL;
    for(int i = 0; i < t->n; i++) if(t->p[i].site == site && t->p[i].mid == mid) q = &t->p[i];
    if(q == NULL) {
        if(t->full) return;
        q = &t->p[t->n++]; *q = (path_t){site, mid, 0, req, use, req, use};
        if(t->n == 128) t->full = true;
    } else if(t->full) return; /* a full table is no longer kept up to date */
    q->calls++;
    if(req < q->rlo) q->rlo = req;
    if(use < q->ulo) q->ulo = use;
    if(req > q->rhi) q->rhi = req;
    if(use > q->uhi) q->uhi = use;
}
static void sample(bool on) { env.rmode = on ? RM_HIT : RM_CONST; env.rconst = 0; }
static blk_t *do_alloc(int site, int mid, size_t n, bool on) {
    sample(on);
    if(af == f_zone) n = zsz;
    uint8_t *p = ch11(mid, asite[site], n);
    sample(false);
    nalloc++;
    blk_t *b = m_add_nofill(p, n, af == f_zone ? 0 : -1);
    if(af == f_strdup) for(size_t i = 0; i < n; i++) if(p[i] != (i + 1 < n ? 'x' : 0)) mc_fail("byte %zu of a duplicated string is %#x", i, p[i]);
    if(af == f_calloc && n < 100000) for(size_t i = 0; i < n; i++) if(p[i]) mc_fail("byte %zu of a cleared allocation is %#x", i, p[i]);
    m_fill(b);
    if(on) { nsampled++; record(&ta, site, mid, n, b->use); }
    return b;
}
static void do_free(int site, int mid, int i, bool on) {
    blk_t b = m_take(i);
    sample(on);
    ch11(mid, fsite[site], (size_t) b.p);
    sample(false);
    nfree_lo++; nfree_hi++;
    if(on) { nfsampled++; record(&tf, site, mid, 0, 0); }
}

/* ---- judging ---- */
static bool inside(uintptr_t r, uintptr_t f) { /* f is the nearest of the known functions below r */
    if(r <= f || r > f + 256) return false;
    for(int k = 0; k < NSITE; k++) if(((uintptr_t) asite[k] > f && (uintptr_t) asite[k] < r) || ((uintptr_t) fsite[k] > f && (uintptr_t) fsite[k] < r)) return false;
    for(int k = 0; k < 2; k++) if((uintptr_t) mids[k] > f && (uintptr_t) mids[k] < r) return false;
    return true;
}
static const char *chk_path(const path_t *q, const uint64_t *callers, const site_fn *sites) {
    bool s = false, m = false;
    for(int j = 0; j < BACKTRACE_DEPTH; j++) {
        s |= inside(callers[j], (uintptr_t) sites[q->site]);
        m |= inside(callers[j], (uintptr_t) mids[q->mid]);
    }
    return !s ? "call site" : !m ? "intermediate function" : NULL;
}
/* the callers of the intermediate function follow it without a gap */
static void chk_chain(const path_t *q, const uint64_t *callers) {
    static const void *ch[] = {ch0, ch1, ch2, ch3, ch4, ch5, ch6, ch7, ch8, ch9, ch10, ch11};
    int m = 0;
    while(!inside(callers[m], (uintptr_t) mids[q->mid])) m++;
    for(int j = m + 1; j < BACKTRACE_DEPTH && j - m <= 12; j++) {
        uintptr_t f = (uintptr_t) ch[j - m - 1], r = callers[j];
        bool in = r > f && r <= f + 256;
        for(int k = 0; k < 12; k++) if((uintptr_t) ch[k] > f && (uintptr_t) ch[k] < r) in = false;
        if(!in) mc_fail("caller %d of the trace of path %d.%d is %#lx, not a place in the function that made the call", j, q->site, q->mid, r);
    }
}
static iso_alloc_traces_t ga[256];
static iso_free_traces_t gf[256];
static void node(void) {
    memset(ga, 0xee, sizeof ga); memset(gf, 0xee, sizeof gf);
    size_t na = iso_get_alloc_traces(ga), nf = iso_get_free_traces(gf);
    mc_eval(2);
    if(na != (size_t) ta.n) mc_fail("%zu allocation traces are reported, %d paths were sampled", na, ta.n);
    if(nf != (size_t) tf.n) mc_fail("%zu free traces are reported, %d paths were sampled", nf, tf.n);
    for(int i = 0; i < ta.n; i++) {
        path_t *q = &ta.p[i]; iso_alloc_traces_t *g = NULL;
        for(size_t j = 0; j < na; j++) if(chk_path(q, ga[j].callers, asite) == NULL) { if(g) mc_fail("one path has two allocation traces"); g = &ga[j]; }
        if(g) chk_chain(q, g->callers);
        if(!g) mc_fail("no allocation trace holds call site %d through %d (%s of trace %d)", q->site, q->mid, chk_path(q, ga[i].callers, asite), i);
        if(g->call_count < q->calls || (!ta.full && g->call_count > q->calls)) mc_fail("allocation path %d.%d was sampled %zu times, its trace says %zu", q->site, q->mid, q->calls, g->call_count);
        if(!ta.full || g->call_count == q->calls) {
            if(g->lower_bound_size < q->rlo || g->lower_bound_size > q->ulo) mc_fail("the smallest allocation of path %d.%d is %zu (usable %zu) bytes, its trace says %zu", q->site, q->mid, q->rlo, q->ulo, g->lower_bound_size);
            if(g->upper_bound_size < q->rhi || g->upper_bound_size > q->uhi) mc_fail("the largest allocation of path %d.%d is %zu (usable %zu) bytes, its trace says %zu", q->site, q->mid, q->rhi, q->uhi, g->upper_bound_size);
        }
        for(size_t j = 0; j < na; j++) if(&ga[j] != g && ga[j].backtrace_hash == g->backtrace_hash) mc_fail("two allocation traces carry hash %#x", g->backtrace_hash);
    }
    for(int i = 0; i < tf.n; i++) {
        path_t *q = &tf.p[i]; iso_free_traces_t *g = NULL;
        for(size_t j = 0; j < nf; j++) if(chk_path(q, gf[j].callers, fsite) == NULL) { if(g) mc_fail("one path has two free traces"); g = &gf[j]; }
        if(g) chk_chain(q, g->callers);
        if(!g) mc_fail("no free trace holds call site %d through %d (%s of trace %d)", q->site, q->mid, chk_path(q, gf[i].callers, fsite), i);
        if(g->call_count < q->calls || (!tf.full && g->call_count > q->calls)) mc_fail("free path %d.%d was sampled %zu times, its trace says %zu", q->site, q->mid, q->calls, g->call_count);
        for(size_t j = 0; j < nf; j++) if(&gf[j] != g && gf[j].backtrace_hash == g->backtrace_hash) mc_fail("two free traces carry hash %#x", g->backtrace_hash);
    }
    m_check_all();
}
/* the written profile, after destruction of the heap */
static char *prof; static size_t prof_n;
static void finish(void) {
    static char buf[1 << 20];
    env.capture = buf; env.capture_n = 0; env.capture_max = sizeof buf - 1;
    for(int i = 0; i < nlive; i++) m_check(&live[i]);
    iso_alloc_destroy();
    prof = buf; prof_n = env.capture_n; buf[prof_n] = 0;
    env.capture = NULL;
}
static long field(const char *name) {
    char k[64]; snprintf(k, sizeof k, "%s=", name);
    char *p = prof;
    size_t n = strlen(k);
    for(; p && *p; p = strchr(p, '\n'), p = p ? p + 1 : NULL) if(!strncmp(p, k, n)) return atol(p + n);
    mc_fail("the profile has no line for %s", name);
}
/* size,total,count; false: not listed */
static bool usage(size_t sz, long *total, long *count) {
    for(char *p = prof; p && *p; p = strchr(p, '\n'), p = p ? p + 1 : NULL) {
        long a, b, c; int e = 0;
        if(sscanf(p, "%ld,%ld,%ld%n", &a, &b, &c, &e) == 3 && e && p[e] == '\n' && a == (long) sz) { *total = b; *count = c; return true; }
    }
    return false;
}
static void written(void) {
    static iso_alloc_traces_t a[256]; static iso_free_traces_t f[256];
    size_t na = iso_get_alloc_traces(a), nf = iso_get_free_traces(f);
    finish();
    mc_eval(4);
    if(field("allocated") != nalloc) mc_fail("%ld allocations were made, the profile says %ld", nalloc, field("allocated"));
    if(field("alloc_sampled") != nsampled) mc_fail("%ld allocations were sampled, the profile says %ld", nsampled, field("alloc_sampled"));
    if(field("freed") < nfree_lo || field("freed") > nfree_hi) mc_fail("%ld allocations were freed, the profile says %ld", nfree_lo, field("freed"));
    if(field("free_sampled") != nfsampled) mc_fail("%ld frees were sampled, the profile says %ld", nfsampled, field("free_sampled"));
    size_t sa = 0, sf = 0;
    for(char *p = prof; p && *p; p = strchr(p, '\n'), p = p ? p + 1 : NULL) {
        unsigned long i, h, c, lo, hi;
        int kind = 0;
        if(sscanf(p, "alloc_backtrace=%lu,backtrace_hash=0x%lx,calls=%lu,lower_bound_size=%lu,upper_bound_size=%lu", &i, &h, &c, &lo, &hi) == 5) {
            if(i != sa || i >= na || h != a[i].backtrace_hash || c != a[i].call_count || lo != a[i].lower_bound_size || hi != a[i].upper_bound_size) mc_fail("allocation trace %zu in the profile differs from the one reported", sa);
            sa++; kind = 1;
        } else if(sscanf(p, "free_backtrace=%lu,backtrace_hash=0x%lx,calls=%lu", &i, &h, &c) == 3) {
            if(i != sf || i >= nf || h != f[i].backtrace_hash || c != f[i].call_count) mc_fail("free trace %zu in the profile differs from the one reported", sf);
            sf++; kind = 2;
        }
        if(!kind) continue;
        /* its callers follow */
        char *l = strchr(p, '\n') + 1;
        for(int j = 0; j < BACKTRACE_DEPTH; j++) {
            uint64_t r = kind == 1 ? a[i].callers[j] : f[i].callers[j];
            unsigned long x;
            if(r < 0x1000) continue;
            if(l == NULL || sscanf(l, " 0x%lx ->", &x) != 1 || x != r) mc_fail("caller %d of %s trace %lu in the profile is not %#lx", j, kind == 1 ? "allocation" : "free", i, (unsigned long) r);
            l = strchr(l, '\n'); if(l) l++;
        }
    }
    if(sa != na || sf != nf) mc_fail("the profile holds %zu allocation and %zu free traces of %zu and %zu", sa, sf, na, nf);
    mc_nontrivial(prof_n);
}

/* ---- histories ---- */
static void start(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    static const alloc_fn A[] = {iso_alloc, f_calloc, f_zone, f_strdup};
    static const free_fn F[] = {iso_free, iso_free_permanently};
    setenv("ISO_ALLOC_PROFILER_FILE_PATH", "/dev/null", 1);
    env_reset(pol[(v >> 3) & 3]);
    sample(false);
    iso_alloc_initialize();
    zsz = 1024; zh = iso_alloc_new_zone(zsz);
    zt[0] = (mz_t){zh, zsz, 0, 0, 0, true}; nzt = 1;
    af = A[v & 3]; ff = F[(v >> 2) & 1];
}
/* arg: site | mid << 2 | size << 3 | sampled << 5 */
static const size_t SZ[] = {40, 1500, 70000, 65536};
static void o_alloc(int a) { do_alloc(a & 3, a >> 2 & 1, SZ[a >> 3 & 3], a >> 5); }
static void o_free(int a) { if(nlive) do_free(a & 3, a >> 2 & 1, a & 8 ? 0 : nlive - 1, a >> 5); }
static bool have(int a) { (void) a; return nlive > 0; }
static void o_reset(int k) { (void) k; iso_alloc_reset_traces(); ta = (tab_t){0}; tf = (tab_t){0}; }
static void o_flush(int k) { (void) k; iso_flush_caches(); }
static void o_fsize(int k) { (void) k; blk_t b = m_take(nlive - 1); iso_free_size(b.p, b.zone >= 0 ? b.use : b.req); nfree_hi++; }
static void audit(void *x) { (void) x; env.rmode = RM_HIT; m_audit(); }
static void leaf(void) {
    int r = mc_death(audit, NULL);
    if(r != D_OK) mc_fail("with every call sampled the heap can no longer be used (%d)", r);
    written();
}
#define AL(s, m, z, on) {"alloc", NULL, o_alloc, (s) | (m) << 2 | (z) << 3 | (on) << 5}
#define FR(s, m, old, on) {"free", have, o_free, (s) | (m) << 2 | (old) << 3 | (on) << 5}
static const op_t ops[] = {
    AL(0, 0, 0, 1), AL(0, 0, 1, 1), AL(0, 0, 2, 1), AL(0, 0, 3, 1), AL(1, 0, 1, 1), AL(0, 1, 1, 1), AL(1, 1, 0, 1), AL(0, 0, 1, 0), AL(2, 0, 2, 0),
    FR(0, 0, 0, 1), FR(1, 0, 0, 1), FR(0, 1, 8 >> 3, 1), FR(0, 0, 0, 0),
    {"free_size", have, o_fsize, 0}, {"reset", NULL, o_reset, 0}, {"flush", NULL, o_flush, 0},
};
static const seq_t history = {"history", start, 8, ops, sizeof ops / sizeof *ops, node, leaf, 3, 4};

/* ---- every number of paths around the capacity ---- */
static long pcount(int v) { (void) v; return 2 * 2 * NSITE * 2; }
static void pinit(int v) { start(v); }
static void pitem(long k) {
    int n = k / 4 + 1; bool fr = k & 1, backwards = k & 2;
    if(n > 200) n = 280 - (n - 200) % 80;
    mc_note("%d paths, %s", n, fr ? "frees" : "allocations");
    for(int r = 0; r < 2; r++)
        for(int i = 0; i < n; i++) {
            int j = backwards ? n - 1 - i : i, times = r ? j % 3 : 1;
            for(int t = 0; t < times; t++) {
                if(!fr) do_alloc(j % NSITE, j / NSITE, 40 + (j + 50 * t) % 300, true);
                else do_alloc(0, 0, 64, false);
                do_free(fr ? j % NSITE : 0, fr ? j / NSITE : 0, nlive - 1, fr);
            }
        }
    node();
    written();
    mc_nontrivial(k);
}
static const dom_t paths = {"paths", pinit, 2, pcount, pitem, 1};

/* ---- usage of zones: every class above a threshold, every fill level ---- */
typedef struct { uint32_t sz; uint16_t permille; uint8_t how; } u_t;
static u_t us[40000]; static long nus;
static long ucount(int v) { (void) v; return nus; }
static void uinit(int v) {
    start(v);
    af = iso_alloc; ff = iso_free;
    static const uint16_t pm[] = {0, 250, 500, 690, 740, 770, 800, 990, 1000};
    for(uint32_t s = 32; s <= 65536; s += s < 8192 ? (mc_thorough ? 480 : 2016) : (mc_thorough ? 1024 : 3584))
        for(int i = 0; i < 9; i++) us[nus++] = (u_t){s, pm[i], (s / 32 + i) % 3};
    for(int i = 0; i < 9; i++) for(int h = 0; h < 3; h++) { us[nus++] = (u_t){65536, pm[i], h}; us[nus++] = (u_t){16384, pm[i], h}; us[nus++] = (u_t){8192, pm[i], h}; us[nus++] = (u_t){8224, pm[i], h}; }
}
static void uitem(long k) {
    u_t u = us[k];
    mc_note("zone of %u byte chunks filled to %u/1000, form %u", u.sz, u.permille, u.how);
    static void *q[140000]; long cap = 0;
    void *h0 = iso_alloc_new_zone(u.sz);
    for(;; cap++) if(!iso_alloc_from_zone(h0)) break; /* a full zone of this size */
    void *h = iso_alloc_new_zone(u.sz);
    long want = cap * u.permille / 1000, n = 0;
    if(u.permille == 1000) want = cap;
    for(; n < want; n++) { q[n] = iso_alloc_from_zone(h); memset(q[n], 0x5a, u.sz < 64 ? u.sz : 64); }
    if(u.permille == 1000) iso_alloc_from_zone(h);
    nalloc += cap + n + 1 + (u.permille == 1000);
    /* used and freed chunks count as well */
    if(u.how) for(long i = 0; i < n; i += u.how) { if(i & 1) iso_free_from_zone(q[i], h); else iso_free_size(q[i], u.sz); q[i] = NULL; nfree_hi++; }
    iso_flush_caches();
    bool gone = u.permille == 1000 && u.how;
    for(int i = 0; i < 3; i++) do_alloc(i & 1, 0, 64, true);
    for(long i = 0; i < n; i++) if(q[i]) for(uint32_t j = 0; j < 64 && j < u.sz; j++) if(((uint8_t *) q[i])[j] != 0x5a) mc_fail("sampling changed byte %u of a live chunk of %u bytes", j, u.sz);
    node();
    finish();
    mc_eval(1);
    long total = 0, count = 0;
    if(!usage(u.sz, &total, &count)) mc_fail("the profile does not list the full zone of %u byte chunks", u.sz);
    int slack = u.sz <= 8192 ? 60 : 15; /* chunks set aside for canaries */
    long zones = 2 + (u.sz == 64 || u.sz == 1024 || u.sz == 8192 ? 1 : 0) + (u.sz == zsz ? 1 : 0);
    if(u.sz != zsz && u.sz != 64 && u.sz != 8192 && total != zones) mc_fail("the profile counts %ld zones of %u byte chunks, there are %ld", total, u.sz, zones);
    if(total < 2) mc_fail("the profile counts %ld zones of %u byte chunks, there are at least 2", total, u.sz);
    if(!gone && u.permille > 750 + slack && count != 6) mc_fail("a full zone of %u byte chunks and one filled to %u/1000 were seen by 3 samples, the profile counts %ld", u.sz, u.permille, count);
    if(u.permille < 750 - slack && count != 3) mc_fail("only the full one of two zones of %u byte chunks was above the threshold in 3 samples (the other at %u/1000), the profile counts %ld", u.sz, u.permille, count);
    if(count < 3 || count > 6) mc_fail("3 samples of two zones of %u byte chunks, one full: %ld counted", u.sz, count);
    mc_nontrivial(k);
}
static const dom_t zusage = {"usage", uinit, 1, ucount, uitem, 1};
/* ---- paths shorter than a trace: they begin at the foot of a stack ---- */
void *foot(void *(*f)(long), long a); extern char foot_end[];
__asm__(".globl foot\nfoot:\n pushq %rbp\n movq %rsp, %rbp\n pushq %rbp\n pushq $0\n pushq $0\n subq $8, %rsp\n movq %rdi, %rax\n movq %rsi, %rdi\n leaq 8(%rsp), %rbp\n callq *%rax\n addq $24, %rsp\n popq %rbp\n popq %rbp\n retq\n.globl foot_end\nfoot_end:\n");
static void *short_p;
static NI void *rec(long n) {
    void *r;
    if(n >> 1 > 0) r = rec(n - 2);
    else if(n & 1) { ff(short_p); r = NULL; }
    else r = af(64);
    END();
    return r;
}
static long scount(int v) { (void) v; return 7 * 2 * 5; }
static void sitem(long k) {
    int d = k / 10, before = k % 5; bool fr = k / 5 & 1;
    mc_note("a %s %d calls from the foot of the stack, form %d ", fr ? "free" : "allocation", d, before);
    /* what the tables hold when they are reset */
    for(int i = 0; i < before; i++) { do_alloc(i, i & 1, 64, true); do_free(i, i & 1, nlive - 1, true); }
    if(before) iso_alloc_reset_traces();
    if(fr) { sample(false); short_p = iso_alloc(64); }
    sample(true);
    void *p = foot(rec, d * 2 + fr);
    sample(false);
    memset(ga, 0xee, sizeof ga); memset(gf, 0xee, sizeof gf);
    size_t na = iso_get_alloc_traces(ga), nf = iso_get_free_traces(gf);
    mc_eval(1);
    if(na != (size_t) !fr || nf != (size_t) fr) mc_fail("%zu allocation and %zu free traces after one %s", na, nf, fr ? "free" : "allocation");
    uint64_t *c = fr ? gf[0].callers : ga[0].callers;
    int j = 0, recs = 0;
    while(j < BACKTRACE_DEPTH && !(c[j] > (uintptr_t) foot && c[j] < (uintptr_t) foot_end)) { recs += c[j] > (uintptr_t) rec && c[j] < (uintptr_t) rec + 256; j++; }
    if(recs > d + 1 || (j < BACKTRACE_DEPTH && recs != d + 1)) mc_fail("the trace has %d calls between the foot of the stack and the %s, there were %d", recs, fr ? "free" : "allocation", d + 1);
    if(d < 3 && j == BACKTRACE_DEPTH) mc_fail("the trace of a path of %d calls does not show its start", d + 1);
    for(j++; j < BACKTRACE_DEPTH; j++) if(c[j]) mc_fail("caller %d of a path that is shorter is %#lx", j, (unsigned long) c[j]);
    if(!fr) iso_free(p);
    mc_nontrivial(k);
}
static const dom_t shortp = {"short", start, 8, scount, sitem, 1};
static const scen_t sc[] = {MC_SEQ(history), MC_DOM(paths), MC_DOM(zusage), MC_DOM(shortp)};
int main(int c, char **v) { return mc_main(c, v, sc, 4); }
