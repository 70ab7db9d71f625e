/* C17: leak and usage reports agree with the live allocations at every moment */
#include "../mm.h"
#define MB 1048576UL
static size_t csz[2] = {64, 8192};
/* delayed frees: may or may not have been processed */
static struct { int zone; size_t use; uint8_t *p; } pend[256]; static int npend;
static size_t base_seg[4096]; static int nbase;
#if defined DEBUG && DEBUG
/* what the report says in builds that log */
static char *out; static size_t outn;
static ssize_t on_write(int fd, const void *b, size_t n) { (void) fd; if(!out) out = malloc(4 << 20); if(outn + n < (4 << 20)) { memcpy(out + outn, b, n); outn += n; out[outn] = 0; } return n; }
static void log_on(void) { outn = 0; env.on_write = on_write; }
static uint8_t *zfreed[4096]; static int nzfreed; /* slots of the private zones freed at least once and not permanently, sorted by nothing */
static void zfree_log(blk_t b, bool perm) { if(b.zone < 0) return; for(int i = 0; i < nzfreed; i++) if(zfreed[i] == b.p) { if(perm) zfreed[i] = zfreed[--nzfreed]; return; } if(!perm && nzfreed < 4096) zfreed[nzfreed++] = b.p; }
static int zwas(int z) { int r = 0; const seg_t *s; for(int i = 0; i < nzfreed; i++) { if(m_find(zfreed[i]) >= 0) continue; s = env_seg((uintptr_t) zfreed[i]); if(s && zt[z].lo && zt[z].lo >= s->s && zt[z].lo < s->e) r++; } return r; }
static const char *num(const char *l, const char *after, long *v) { const char *q = strstr(l, after); if(!q) return NULL; q += strlen(after); *v = strtol(q, (char **) &q, 10); return q; }
static void log_judge(int z, uint64_t small_lo, uint64_t small_hi, int pendz) {
    env.on_write = NULL;
    if(!outn) mc_fail("nothing was logged");
    uint64_t lines = 0, bigs = 0; size_t bigsum = 0;
    static char seen[MAXLIVE]; memset(seen, 0, nlive);
    for(char *l = out; *l;) {
        char *e = strchr(l, '\n'); if(!e) mc_fail("a line of the log is cut"); *e = 0;
        char *q = strstr(l, "Leaked chunk");
        if(q) {
            lines++;
            char *x = strstr(q, "0x"); if(!x) mc_fail("a leaked chunk without its address: %s", l);
            while(x[0] == '0' && x[1] == 'x') x += 2;
            uintptr_t a = strtoul(x, NULL, 16);
            int i = m_find((void *) a);
            if(i >= 0) { if(seen[i]++) mc_fail("the live chunk %p is reported twice", (void *) a); if(z >= 0 && live[i].zone != z) mc_fail("the report of one zone names the chunk %p of another", (void *) a); }
            else { int d = 0; for(int k = 0; k < npend; k++) d |= pend[k].p == (uint8_t *) a; if(!d) mc_fail("%p is reported as leaked and is not a live chunk", (void *) a); }
            long sz; if(num(q, "] of ", &sz) && i >= 0 && (size_t) sz != live[i].use) mc_fail("the leaked chunk %p of %zu bytes is reported with %ld bytes", (void *) a, live[i].use, sz);
        }
        long v;
        if(num(l, "Big zone leaked ", &v)) { bigs++; bigsum += v; }
        if(z >= 0 && strstr(l, "Total number of")) {
            long sz = -1, cnt = 0, was = 0, pc = 0, use = 0;
            num(l, "number of ", &sz); num(l, "chunks(", &cnt); char *r = strstr(l, "free'd ("); if(r) { was = strtol(r + 8, NULL, 10); num(r + 8, "(", &pc); } num(l, "in use = ", &use);
            if((size_t) sz != csz[z] || cnt <= 0 || cnt > 4194304 / sz) mc_fail("a zone of %zu byte chunks is reported as %ld chunks of %ld bytes", csz[z], cnt, sz);
            if(use < (long) small_lo || use > (long) small_hi) mc_fail("%ld chunks are reported in use, %lu are live", use, small_lo);
            int w = zwas(z); /* those that are pending may be either */
            if(was > w || was < w - pendz) mc_fail("%ld chunks are reported as used and freed, %d are", was, w);
            long t = was * 100 / cnt; if(pc < t - 1 || pc > t + 1) mc_fail("%ld of %ld chunks are reported as %ld percent", was, cnt, pc);
        }
        *e = '\n'; l = e + 1;
    }
    if(lines < small_lo || lines > small_hi) mc_fail("%lu leaked chunks are named, %lu are live", lines, small_lo);
    size_t bl = 0, bp = 0; for(int i = 0; i < nlive; i++) if(live[i].use > 65536) bl += live[i].use; for(int i = 0; i < npend; i++) if(pend[i].use > 65536) bp += pend[i].use;
    if(z < 0 && (bigsum < bl || bigsum > bl + bp)) mc_fail("big allocations of %zu bytes are named, %zu are live", bigsum, bl);
    mc_eval(1);
}
#else
#define log_on() (void) 0
#define zfree_log(b, p) (void) 0
#define log_judge(z, a, b, c) (void) 0
#endif
static void o_alloc(int k) { static const size_t A[] = {64, 8192, 70000, 300000, 20000, 3000000}; m_add(iso_alloc(A[k]), A[k], -1); }
static void o_zalloc(int k) { void *p = iso_alloc_from_zone(zt[k].h); if(p) { m_add(p, csz[k], k); zt[k].lo = (uintptr_t) p; } }
static int pick(int a) { return a & 8 ? 0 : nlive - 1; }
static bool en(int a) { return nlive > 0 && (!(a & 8) || nlive > 1) && ((a & 7) != 3 || live[pick(a)].zone < 0) && ((a & 7) < 4 || live[pick(a)].zone >= 0); }
static void o_free(int a) {
    blk_t b = m_take(pick(a));
    zfree_log(b, (a & 7) == 2 || (a & 7) == 5);
    switch(a & 7) {
    case 0: iso_free(b.p); pend[npend].zone = b.zone; pend[npend].p = b.p; pend[npend++].use = b.use; break;
    case 1: iso_free_size(b.p, b.zone >= 0 ? b.use : b.req); break;
    case 2: iso_free_permanently(b.p); break;
    case 3: m_add(iso_realloc(b.p, 100), 100, -1); break;
    case 4: iso_free_from_zone(b.p, zt[b.zone].h); break;
    case 5: iso_free_from_zone_permanently(b.p, zt[b.zone].h); break;
    }
}
static void o_flush(int k) { (void) k; iso_flush_caches(); npend = 0; }
/* asking never changes user memory, live or freed: the first 64 KB of every zone and big allocation */
static uint8_t *snap; static size_t snap_n; static seg_t snap_seg[512]; static int nsnap;
static void before_asking(void) {
    if(!snap) snap = malloc(64 << 20);
    snap_n = 0; nsnap = 0;
    for(int i = 0; i < nsegs && nsnap < 512; i++) {
        if(segs[i].prot != RW || segs[i].e - segs[i].s <= 65536) continue;
        bool b = false;
        for(int j = 0; j < nbase; j++) if(base_seg[j] == segs[i].s) b = true;
        if(b) continue;
        size_t n = segs[i].e - segs[i].s < 65536 ? segs[i].e - segs[i].s : 65536;
        if(snap_n + n > 64UL << 20) break;
        snap_seg[nsnap++] = segs[i];
        memcpy(snap + snap_n, (void *) segs[i].s, n); snap_n += n;
    }
}
static void after_asking(void) {
    size_t o = 0;
    for(int i = 0; i < nsnap; i++) {
        size_t n = snap_seg[i].e - snap_seg[i].s < 65536 ? snap_seg[i].e - snap_seg[i].s : 65536;
        if(!env_all(snap_seg[i].s, n, RW)) mc_fail("asking for leaks and usage unmapped or protected memory");
        if(memcmp(snap + o, (void *) snap_seg[i].s, n)) mc_fail("asking for leaks and usage changed the contents of the heap");
        o += n;
    }
    mc_eval(1);
}
static void check(void) {
    before_asking();
    for(int z = -1; z < 2; z++) {
        uint64_t lo = 0, hi, big = 0, bigp = 0;
        for(int i = 0; i < nlive; i++) { if(live[i].use > 65536) big += z < 0 ? live[i].use : 0; else lo += z < 0 || live[i].zone == z; }
        hi = lo;
        for(int i = 0; i < npend; i++) { if(pend[i].use > 65536) bigp += z < 0 ? pend[i].use : 0; else hi += z < 0 || pend[i].zone == z; }
        log_on();
        uint64_t g = z < 0 ? iso_alloc_detect_leaks() : iso_alloc_detect_zone_leaks(zt[z].h);
        log_judge(z, lo, hi, hi - lo);
        if(g < lo + big || g > hi + big + bigp) mc_fail("%s reports %lu; %lu small chunks and %lu bytes of big allocations are live, %lu small chunks and %lu bytes wait in the delayed-free buffer", z < 0 ? "iso_alloc_detect_leaks" : "iso_alloc_detect_zone_leaks", g, lo, big, hi - lo, bigp);
        mc_eval(1);
        if(z >= 0) { uint64_t m = iso_alloc_zone_mem_usage(zt[z].h); if(m != 4) mc_fail("iso_alloc_zone_mem_usage gives %lu for one zone of 4 MB", m); }
    }
    /* zones and big allocations mapped, from the page table */
    uint64_t zones = 0, used = 0, all = 0, nbig = 0;
    for(int i = 0; i < nsegs; i++) {
        size_t n = segs[i].e - segs[i].s;
        if(segs[i].prot != RW || n <= 65536) continue;
        if(n == 4194304) { zones++; continue; }
        bool b = false;
        for(int j = 0; j < nbase; j++) if(base_seg[j] == segs[i].s) b = true;
        if(b) continue;
        all += n; nbig++;
    }
    for(int i = 0; i < nlive; i++) if(live[i].use > 65536) used += live[i].use;
    uint64_t lo = 4 * zones + (all ? all / MB - (nbig > 1) : 0), hi = lo + zones / 32 + 2 + nbig * 24576 / MB, g = iso_alloc_mem_usage();
    if(g < lo || g > hi) mc_fail("iso_alloc_mem_usage gives %lu MB with %lu zones and %lu big allocations of %lu bytes (%lu in use) mapped", g, zones, nbig, all, used);
    after_asking();
    mc_eval(1);
}
static void base(void) {
    nbase = 0;
    for(int i = 0; i < nsegs; i++) if(segs[i].prot == RW && segs[i].e - segs[i].s != 4194304 && nbase < 4096) base_seg[nbase++] = segs[i].s;
}
static void init(int v) {
    static const int pol[] = {PL_SPREAD, PL_SPREAD};
    env_reset(pol[v & 1]);
    iso_alloc_initialize();
    base();
    nzt = 2; npend = 0;
    for(int i = 0; i < 2; i++) zt[i].h = iso_alloc_new_zone(csz[i]);
    if(v == 0) return;
    for(int r = 0; r < 3; r++) { for(int i = 0; i < 5; i++) o_alloc(i); o_zalloc(0); o_zalloc(1); }
    for(int i = nlive - 1; i > 0; i -= 3) { blk_t b = m_take(i); zfree_log(b, false); iso_free_size(b.p, b.use); }
    if(v == 2) for(int i = 0; i < 6; i++) { blk_t b = m_take(0); zfree_log(b, true); iso_free_permanently(b.p); }
    if(v == 3) { /* big allocations past their age and retired zones */
        for(int i = 0; i < 10; i++) { iso_free_size(iso_alloc(70000), 70000); iso_free_size(iso_alloc(300000), 300000); }
        for(int i = 0; i < 1100; i++) iso_free_size(iso_alloc(9000), 9000);
    }
}
static void o_churn(int k) { (void) k; for(int i = 0; i < 600; i++) iso_free_size(iso_alloc(8192), 8192); }
static void o_zone(int k) { (void) k; void *h = iso_alloc_new_zone(500); void *p = iso_alloc_from_zone(h); (void) p; if(iso_alloc_detect_zone_leaks(h) != 1) mc_fail("a zone with one live chunk reports %lu", iso_alloc_detect_zone_leaks(h)); iso_alloc_destroy_zone(h); npend = 0; }
#if defined DEBUG && DEBUG
/* most of a zone used and freed again: the share of it is reported */
static void o_most(int k) { (void) k; while(nlive < 300) { int n = nlive; o_zalloc(1); if(n == nlive) break; } while(nlive && live[nlive - 1].zone == 1) o_free(4); }
#endif
static void leaf(void) { o_flush(0); check(); m_audit(); }
static const op_t ops[] = {
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2}, {"alloc", NULL, o_alloc, 3}, {"alloc", NULL, o_alloc, 4}, {"alloc", NULL, o_alloc, 5}, {"zalloc", NULL, o_zalloc, 0}, {"zalloc", NULL, o_zalloc, 1},
    {"free", en, o_free, 0}, {"free_old", en, o_free, 8}, {"free_size", en, o_free, 1}, {"perm", en, o_free, 2}, {"perm_old", en, o_free, 10}, {"realloc", en, o_free, 3}, {"zfree", en, o_free, 4}, {"zperm", en, o_free, 5},
    {"churn", NULL, o_churn, 0}, {"zone", NULL, o_zone, 0}, {"flush", NULL, o_flush, 0},
#if defined DEBUG && DEBUG
    {"most", NULL, o_most, 0},
#endif
};
static const seq_t seq = {"history", init, 4, ops, sizeof ops / sizeof *ops, check, leaf, 3, 4};

/* every size class at several fill levels, private and general */
static void cinit(int v) { init(v); iso_flush_caches(); npend = 0; }
static long ccount(int v) { (void) v; return 2048; }
static void expect(void *h, uint64_t n, size_t sz, const char *w) {
    uint64_t g = iso_alloc_detect_zone_leaks(h);
    if(g != n) mc_fail("zone of %zu byte chunks with %lu live chunks %s reports %lu leaks", sz, n, w, g);
    mc_eval(1);
}
static void citem(long k) {
    size_t n = (k + 1) * 32;
    mc_note(" class %zu", n);
    static uint8_t *q[140000]; size_t c = 0;
    uint64_t before = iso_alloc_detect_leaks();
    void *h = iso_alloc_new_zone(n);
    expect(h, 0, n, "at first");
    size_t stop = 1 + k % 7;
    for(;;) {
        uint8_t *p = iso_alloc_from_zone(h);
        if(!p) break;
        memset(p, 0xff, n < 64 ? n : 64);
        q[c++] = p;
        if(c == stop) { expect(h, c, n, "while filling"); stop = stop * 5; }
    }
    expect(h, c, n, "when full");
    size_t live_n = c;
    for(size_t i = 0; i < c; i += 3) { if(i % 2) iso_free_from_zone(q[i], h); else iso_free_size(q[i], n); live_n--; }
    expect(h, live_n, n, "after freeing every third");
    for(size_t i = 1; i < c; i += 6) { iso_free_from_zone_permanently(q[i], h); live_n--; }
    expect(h, live_n, n, "after freeing some permanently");
    uint64_t t = iso_alloc_detect_leaks();
    if(t != before + live_n) mc_fail("iso_alloc_detect_leaks went from %lu to %lu with %lu more chunks live", before, t, live_n);
    for(size_t i = 2; i < c; i += 3) { iso_free_from_zone(q[i], h); live_n--; }
    expect(h, live_n, n, "after freeing another third");
    for(size_t i = 1; i < c; i += 3) if(i % 6 != 1) { iso_free(q[i]); }
    iso_flush_caches();
    expect(h, 0, n, "after freeing all");
    if(iso_alloc_detect_leaks() != before) mc_fail("iso_alloc_detect_leaks gives %lu, not %lu, after all was freed", iso_alloc_detect_leaks(), before);
    for(int i = 0; i < 3; i++) q[i] = iso_alloc(n);
    if(iso_alloc_detect_leaks() != before + 3) mc_fail("three general chunks: %lu instead of %lu", iso_alloc_detect_leaks(), before + 3);
    iso_free_size(q[1], n);
    if(iso_alloc_detect_leaks() != before + 2) mc_fail("two general chunks: %lu instead of %lu", iso_alloc_detect_leaks(), before + 2);
    iso_verify_zones();
    mc_nontrivial(n);
}
static const dom_t cls = {"classes", cinit, 4, ccount, citem, 1};
static const scen_t sc[] = {MC_SEQ(seq), MC_DOM(cls)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
