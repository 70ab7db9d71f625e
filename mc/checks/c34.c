/* C34: with CPU pinning a zone serves the core that created it, and only that one */
#include "../mm.h"
/* The core the thread runs on is a choice of the explorer, between calls and at every question */
static int cpu, mig_to; static long mig_at, asked;
static int seen[16], nseen; /* cores of the running call */
static void see(int c) { for(int i = 0; i < nseen; i++) if(seen[i] == c) return; if(nseen < 16) seen[nseen++] = c; }
int __wrap_sched_getcpu(void) {
    asked++;
    if(mig_at && --mig_at == 0) { cpu = mig_to; see(cpu); }
    return cpu;
}
/* every mapping and the cores its creator ran on */
typedef struct { uintptr_t s, e; int c[16], n; bool open; } reg_t;
static reg_t G[4096]; static int nG;
static void event(int kind, uintptr_t a, size_t n, int prot) {
    (void) prot;
    if(kind == FK_MUNMAP) for(int i = 0; i < nG; i++) if(G[i].s < a + n && a < G[i].e) {
        if(G[i].s < a && a + n < G[i].e) { G[i].e = a; continue; }
        if(G[i].s >= a && G[i].e <= a + n) G[i--] = G[--nG]; else if(G[i].s < a) G[i].e = a; else G[i].s = a + n;
    }
    if(kind == FK_MMAP && n >= 4194304 && nG < 4096) G[nG++] = (reg_t){a, a + n, {0}, 0, true};
}
static void begin(void) { nseen = 0; see(cpu); asked = 0; }
static void end(void) { for(int i = 0; i < nG; i++) if(G[i].open) { memcpy(G[i].c, seen, sizeof seen); G[i].n = nseen; G[i].open = false; } }
#define CALL(x) ({ begin(); __auto_type r_ = (x); end(); r_; })
#define VCALL(x) ({ begin(); x; end(); })
static bool common(const int *a, int n) { for(int i = 0; i < n; i++) for(int j = 0; j < nseen; j++) if(a[i] == seen[j]) return true; return false; }
static void place(const uint8_t *p, size_t n, const char *what) { /* right after the call */
    if(iso_chunksz((void *) p) > 65536) return;
    mc_eval(1);
    for(int i = nG - 1; i >= 0; i--)
        if((uintptr_t) p >= G[i].s && (uintptr_t) p < G[i].e) {
            if(!common(G[i].c, G[i].n)) mc_fail("%s of %zu bytes on core %d came from a zone created on core %d", what, n, seen[0], G[i].c[0]);
            return;
        }
    mc_fail("harness: a chunk outside every region");
}
static void galloc(void *p, size_t n, const char *what) { m_add(p, n, -1); place(p, n, what); }
static const int cores[] = {0, 1, 257, 3, 259};
static int zcore[4][16], nzcore[4];
static bool other(int c) { return cpu != cores[c]; }
static void o_cpu(int c) { cpu = cores[c]; }
static bool nomig(int k) { (void) k; return !mig_at; }
static void o_mig(int k) { mig_at = k; mig_to = cpu == 0 ? 257 : cpu == 257 ? 1 : 0; }
static void o_alloc(int n) { galloc(CALL(iso_alloc(n)), n, "an allocation"); }
static void o_calloc(int n) { galloc(CALL(iso_calloc(1, n)), n, "a calloc"); }
static bool has(int k) { return nlive > k; }
static void o_free(int k) {
    blk_t b = m_take(k ? 0 : nlive - 1);
    if(b.zone >= 0) VCALL(iso_free_from_zone(b.p, zt[b.zone].h)); else VCALL(iso_free(b.p));
}
static void o_frees(int k) { blk_t b = m_take(k ? 0 : nlive - 1); VCALL(iso_free_size(b.p, b.req)); VCALL(iso_flush_caches()); }
static void o_realloc(int n) { blk_t b = m_take(nlive - 1); if(b.zone >= 0) { live[nlive++] = b; return; } galloc(CALL(iso_realloc(b.p, n)), n, "a realloc"); }
static void o_flush(int k) { (void) k; VCALL(iso_flush_caches()); }
static void o_age(int n) { /* enough to retire the zone that serves this size */
    for(int i = 0; i < 4194304 / n + 40; i++) { uint8_t *p = CALL(iso_alloc(n)); if(!p) mc_fail("NULL"); place(p, n, "an allocation"); VCALL(iso_free_size(p, n)); }
}
static void o_hold(int n) { /* fill the zone */
    for(int i = 0; i < 4194304 / n + 2; i++) { uint8_t *p = CALL(iso_alloc(n)); place(p, n, "an allocation"); if(i % 8 == 0) m_add(p, n, -1); }
}
static bool nozone(int k) { (void) k; return nzt < 2; }
static void o_zone(int n) { zt[nzt] = (mz_t){.h = CALL(iso_alloc_new_zone(n)), .csz = n}; if(!zt[nzt].h) mc_fail("no zone"); memcpy(zcore[nzt], seen, sizeof seen); nzcore[nzt] = nseen; nzt++; }
static bool zone(int k) { return nzt > k; }
static void o_zalloc(int k) {
    void *p = CALL(iso_alloc_from_zone(zt[k].h));
    mc_eval(1);
    if(p == NULL) {
        if(nseen == 1 && nzcore[k] == 1 && seen[0] == zcore[k][0]) mc_fail("a private zone created on core %d has nothing for that core", seen[0]);
        return;
    }
    if(!common(zcore[k], nzcore[k])) mc_fail("a private zone created on core %d served core %d", zcore[k][0], seen[0]);
    m_add(p, zt[k].csz, k); place(p, zt[k].csz, "a private allocation");
}
static void o_zstr(int k) {
    if(zt[k].csz < 64) return;
    void *p = CALL(iso_strdup_from_zone(zt[k].h, "0123456789012345678901234567890123456789"));
    mc_eval(1);
    if(p == NULL) { if(nseen == 1 && nzcore[k] == 1 && seen[0] == zcore[k][0]) mc_fail("a private zone created on core %d has nothing for that core", seen[0]); return; }
    if(!common(zcore[k], nzcore[k])) mc_fail("a private zone created on core %d served core %d", zcore[k][0], seen[0]);
    m_add(p, 41, k); place(p, 41, "a private copy");
}
static void init(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    env.on_event = event;
    nG = 0; nzt = 0; mig_at = 0;
    cpu = v & 1 ? 257 : 0;
    VCALL(iso_alloc_initialize());
    if(v & 2) { /* every core has its zones */
        static const int n[] = {40, 300, 1500, 9000};
        for(int c = 0; c < 3; c++) { cpu = cores[c]; for(int i = 0; i < 4; i++) { o_alloc(n[i]); o_alloc(n[i]); } }
        for(int i = nlive - 1; i >= 0; i -= 2) { cpu = cores[i % 3]; blk_t b = m_take(i); VCALL(iso_free(b.p)); }
        cpu = v & 1 ? 257 : 0;
    }
}
static void leaf(void) {
    mig_at = 0;
    for(int k = 0; k < 5; k++) {
        cpu = cores[k];
        for(int n = 16; n <= 65536; n *= 4) { o_alloc(n); o_calloc(n); }
        for(int z = 0; z < nzt; z++) o_zalloc(z);
    }
    m_check_all();
    while(nlive) { cpu = cores[nlive % 5]; o_free(nlive & 1); }
    VCALL(iso_flush_caches());
    iso_verify_zones();
    mc_nontrivial(nG * 31 + asked);
}
static const op_t ops[] = {
    {"core", other, o_cpu, 0}, {"core", other, o_cpu, 1}, {"core", other, o_cpu, 2}, {"migrate_at", nomig, o_mig, 1}, {"migrate_at", nomig, o_mig, 2}, {"migrate_at", nomig, o_mig, 3},
    {"alloc", NULL, o_alloc, 40}, {"alloc", NULL, o_alloc, 1500}, {"alloc", NULL, o_alloc, 9000}, {"alloc", NULL, o_alloc, 70000}, {"calloc", NULL, o_calloc, 40},
    {"free", has, o_free, 0}, {"free_old", has, o_free, 1}, {"free_size", has, o_frees, 0}, {"realloc", has, o_realloc, 300}, {"flush", NULL, o_flush, 0}, {"age", NULL, o_age, 8192}, {"hold", NULL, o_hold, 9000},
    {"zone", nozone, o_zone, 64}, {"zalloc", zone, o_zalloc, 0}, {"zalloc", zone, o_zalloc, 1}, {"zstrdup", zone, o_zstr, 0},
};
static const seq_t seq = {"history", init, 4, ops, sizeof ops / sizeof *ops, NULL, leaf, 3, 4};

/* every core a machine may report: its zones serve it, and no other, for as long as it likes */
static int all[64], nall;
static void cinit(int v) {
    init(v);
    nall = 0;
    static const int b[] = {0, 1, 2, 7, 8, 63, 64, 126, 127, 128, 129, 191, 254, 255, 256, 257, 258, 383, 511, 512, 767, 1023, 1024, 4095, 8191, 32767, 32768, 65535, 65536, -1};
    for(unsigned i = 0; i < sizeof b / sizeof *b; i++) all[nall++] = b[i];
}
static long ccount(int v) { (void) v; return (long) nall * nall; }
static void citem(long k) {
    int a = all[k / nall], b = all[k % nall];
    mc_note("cores %d %d", a, b);
    for(int n = 24; n <= 65536; n *= 3) {
        cpu = a; o_alloc(n); o_zone(n);
        o_zalloc(nzt - 1);
        cpu = b; o_alloc(n); o_zalloc(nzt - 1);
        cpu = a; o_alloc(n); o_zalloc(nzt - 1);
        cpu = b; while(nlive) o_free(0);
        o_flush(0);
        nzt--; VCALL(iso_alloc_destroy_zone(zt[nzt].h));
    }
    /* a core that stays, or two that take turns, are served for ever */
    for(int i = 0; i < 600; i++) {
        cpu = i & 1 ? a : b;
        for(int n = 200; n <= 65536; n *= 17) { uint8_t *p = CALL(iso_alloc(n)); if(!p) mc_fail("NULL"); place(p, n, "an allocation"); VCALL(iso_free_size(p, n)); }
    }
    iso_verify_zones();
    mc_nontrivial(k);
}
static const dom_t pairs = {"cores", cinit, 4, ccount, citem, 1};
static const scen_t sc[] = {MC_SEQ(seq), MC_DOM(pairs)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
