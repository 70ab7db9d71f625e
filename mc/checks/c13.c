/* C13: kernel failures. Every request of every pair of operations to the kernel fails
 * once, or from then on; the process ends by the allocator's own abort, or the call
 * reports NULL or gives sound memory and the heap stays fully usable. */
#include "../gd.h"

static long *shared; /* faults delivered in the child */
static bool faults_on;
static void alloc(int sz) { in_big = sz > 65536; void *p = iso_alloc(sz); in_big = false; if(p) m_add(p, sz, -1); else if(!faults_on) mc_fail("iso_alloc(%d) returned NULL without a failure", sz); }
static void calloc_(int sz) {
    in_big = sz > 65536; uint8_t *p = iso_calloc(1, sz); in_big = false;
    if(!p) return;
    blk_t *b = m_add_nofill(p, sz, -1);
    for(int i = 0; i < sz; i++) if(p[i]) mc_fail("calloc memory is not zero at %d", i);
    m_fill(b);
}
static void dup_(int n) { char s[200]; memset(s, 'x', n); s[n] = 0; char *p = iso_strdup(s); if(!p) return; if(strcmp(p, s)) mc_fail("iso_strdup copied wrongly"); m_add(p, n + 1, -1); }
static void realloc_(int sz) {
    if(nlive == 0 || live[nlive - 1].zone >= 0) { alloc(sz); return; }
    blk_t o = live[nlive - 1];
    m_check(&o);
    in_big = sz > 65536; uint8_t *r = iso_realloc(o.p, sz); in_big = false;
    if(!r) { m_check(&o); return; } /* the old chunk is still there */
    nlive--;
    size_t n = o.use < (size_t) sz ? o.use : (size_t) sz;
    blk_t *b = m_add_nofill(r, sz, -1);
    for(size_t i = 0; i < HEAD && i < n; i++) if(r[i] != m_byte(o.pat, i)) mc_fail("realloc lost the content at %zu", i);
    m_fill(b);
}
static void pre_drop(int zone) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == zone) m_take(i); }
static void newz(int sz) {
    void *h = iso_alloc_new_zone(sz);
    if(!h) { if(!faults_on) mc_fail("no zone"); return; }
    zt[nzt] = (mz_t){h, sz, 0, 0, 0, true};
    void *p = iso_alloc_from_zone(h);
    if(p) m_add(p, sz, nzt);
    nzt++;
}
static void zalloc(int a) { (void) a; if(!nzt) { newz(512); return; } int z = nzt - 1; if(!zt[z].live) return; void *p = iso_alloc_from_zone(zt[z].h); if(p) m_add(p, zt[z].csz, z); }
static void zdestroy(int a) { (void) a; for(int z = nzt - 1; z >= 0; z--) if(zt[z].live) { pre_drop(z); zt[z].live = false; iso_alloc_destroy_zone(zt[z].h); return; } }
static int pick(bool big) { for(int i = nlive - 1; i >= 0; i--) if(live[i].zone < 0 && (live[i].req > 65536) == big) return i; return -1; }
static void free_(int k) {
    int i = pick(k & 1);
    if(i < 0) return;
    blk_t b = m_take(i);
    switch(k >> 1) { case 0: iso_free(b.p); break; case 1: iso_free_size(b.p, b.req); break; case 2: iso_free_permanently(b.p); }
}
static void flush(int a) { (void) a; iso_flush_caches(); }
static void freebigs(int a) { (void) a; int i; while((i = pick(true)) >= 0) { blk_t b = m_take(i); iso_free_size(b.p, b.req); } }
static void churn(int sz) { for(int i = 0; i < 4194304 / sz + 4; i++) { void *p = iso_alloc(sz); if(!p) return; iso_free_size(p, sz); } }
static void verify(int a) { (void) a; iso_verify_zones(); }
static const op_t ops[] = {
    {"alloc", NULL, alloc, 24}, {"alloc", NULL, alloc, 1300}, {"alloc", NULL, alloc, 65536}, {"alloc", NULL, alloc, 65537}, {"alloc", NULL, alloc, 300000},
    {"calloc", NULL, calloc_, 8192}, {"calloc", NULL, calloc_, 70000}, {"strdup", NULL, dup_, 90}, {"realloc", NULL, realloc_, 3000}, {"realloc", NULL, realloc_, 90000},
    {"new_zone", NULL, newz, 64}, {"new_zone", NULL, newz, 40000}, {"zone_alloc", NULL, zalloc, 0}, {"zone_destroy", NULL, zdestroy, 0},
    {"free", NULL, free_, 0}, {"free", NULL, free_, 1}, {"free_size", NULL, free_, 3}, {"free_perm", NULL, free_, 4}, {"free_perm", NULL, free_, 5},
    {"flush", NULL, flush, 0}, {"free_bigs", NULL, freebigs, 0}, {"churn", NULL, churn, 8192}, {"verify", NULL, verify, 0},
};
#define NOPS (int) (sizeof ops / sizeof *ops)
static const struct { int mask; const char *name; } kinds[] = {
    {FK_MMAP, "mmap"}, {FK_MPROTECT, "mprotect"}, {FK_GETRANDOM, "getrandom"}, {FK_MMAP | FK_MPROTECT | FK_GETRANDOM, "mmap/mprotect/getrandom"},
    {FK_MUNMAP, "munmap"}, {FK_MADVISE | FK_MLOCK | FK_PRCTL, "madvise/mlock/prctl"},
};
static bool uninit;
static void init(int v) {
    if(!shared) shared = real_mmap(NULL, PAGE, RW, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uninit = v >= 8;
    nmaps = nlast = 0;
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    env.on_event = guard_event;
    if(uninit) return;
    /* m_start resets the environment: the guards are followed from here */
    env.madv_drop = (v & 3) == 2;
    iso_alloc_initialize();
    static const size_t sz[] = {24, 64, 1024, 4000, 8192, 65536, 65537, 150000, 300000, 40000};
    if(v & 4) {
        for(int r = 0; r < 2; r++) for(int i = 0; i < 10; i++) { in_big = sz[i] > 65536; m_add(iso_alloc(sz[i]), sz[i], -1); in_big = false; }
        newz(512); newz(2000);
        for(int i = nlive - 1; i >= 0; i -= 3) if(live[i].zone < 0) { blk_t b = m_take(i); if(i & 2) iso_free(b.p); else iso_free_size(b.p, b.req); }
    } else { in_big = true; m_add(iso_alloc(100000), 100000, -1); in_big = false; m_add(iso_alloc(64), 64, -1); }
}
typedef struct { int o1, o2, kind, sticky; long at; } att_t;
static void attempt(void *vp) {
    att_t *a = vp;
    env.fail_mask = kinds[a->kind].mask; env.fail_at = a->at; env.fail_sticky = a->sticky; env.fail_calls = env.fails = 0;
    faults_on = true;
    /* what the process leaves behind when it is ended is of no interest */
    shared[0] = 0;
    env.rnd_state = 77;
    if(uninit) { iso_alloc_initialize(); shared[0] = env.fails; }
    ops[a->o1].run(ops[a->o1].arg); shared[0] = env.fails;
    ops[a->o2].run(ops[a->o2].arg); shared[0] = env.fails;
    env.fail_mask = 0; faults_on = false;
    /* it went on: everything has to be in order */
    if(!(kinds[a->kind].mask & FK_MUNMAP)) check_guards();
    m_check_all();
    for(int i = 0; i < NOPS; i += 3) ops[(i + a->o1) % NOPS].run(ops[(i + a->o1) % NOPS].arg);
    if(!(kinds[a->kind].mask & FK_MUNMAP)) check_guards();
    m_audit();
}
static long count(int v) { return (long) NOPS * (v >= 8 ? 1 : NOPS) * 6 * 2; }
static void item(long i) {
    att_t a = {0};
    a.sticky = i % 2; i /= 2; a.kind = i % 6; i /= 6;
    a.o1 = i % NOPS; a.o2 = i / NOPS;
    mc_note("%s fails%s; %s(%d) ", kinds[a.kind].name, a.sticky ? " from then on" : "", ops[a.o1].name, ops[a.o1].arg);
    mc_note("%s(%d)", ops[a.o2].name, ops[a.o2].arg);
    for(a.at = 1;; a.at++) {
        shared[0] = -1;
        char t[64]; snprintf(t, sizeof t, " [request %ld]", a.at);
        size_t l = strlen(mc_trace); strncat(mc_trace, t, sizeof mc_trace - l - 1);
        int r = mc_death(attempt, &a);
        if(r == D_OK) {
            mc_eval(1);
            if(shared[0] == 0) break; /* past the last request */
            mc_nontrivial((uint64_t) a.kind * 1000003 + a.o1 * 31 + a.o2);
        } else if(r == D_ABORT) {
            mc_eval(1);
            mc_nontrivial((uint64_t) a.kind * 1000003 + a.o1 * 31 + a.o2 + 500);
        } else mc_fail("the process crashed (wait status %#x) instead of ending with the allocator's abort", mc_death_status);
        mc_trace[l] = 0;
        if(a.at > 400) mc_fail("harness: more than 400 requests");
    }
}
static const dom_t faults = {"faults", init, 9, count, item, 1};
static const scen_t sc[] = {MC_DOM(faults)};
int main(int c, char **v) { return mc_main(c, v, sc, 1); }
