/* C33: when the allocator ends the process it says why first: one complete line on standard
 * output that names the process and the address (and sizes) at fault, whatever becomes of the line */
#include "../mm.h"
#include <ctype.h>
static struct { bool on; uintptr_t a[3]; int na; size_t num[3]; int nn; const char *word, *notword; const char *what; int wmode; } want;
static char line[70000]; static size_t llen; static int nlines, events;
static ssize_t on_write(int fd, const void *b, size_t n) {
    if(!want.on) return n;
    if(fd != 1) mc_fail("%s: the report went to descriptor %d", want.what, fd);
    nlines++;
    if(n < sizeof line - 1) { memcpy(line, b, n); line[n] = 0; llen = n; }
    if(want.wmode == 1) { errno = EBADF; return -1; }
    if(want.wmode == 2) return n / 2;
    return n;
}
static bool token(const char *s, const char *t) { /* t as a number of its own in s */
    size_t n = strlen(t);
    for(const char *q = s; (q = strstr(q, t)); q++) {
        bool l = q == s || !isxdigit(q[-1]), r = !isxdigit(q[n]);
        if(q >= s + 2 && q[-1] == 'x' && q[-2] == '0') l = true;
        if(l && r) return true;
    }
    return false;
}
static bool dtoken(const char *s, const char *t) {
    size_t n = strlen(t);
    for(const char *q = s; (q = strstr(q, t)); q++) if((q == s || !(isdigit(q[-1]) || q[-1] == 'x')) && !isdigit(q[n])) return true;
    return false;
}
static void judge(void) {
    if(!want.on) return;
    if(nlines != 1) mc_fail("%s: %d lines were written before the process ended", want.what, nlines);
    if(llen == 0 || line[llen - 1] != '\n' || memchr(line, '\n', llen) != line + llen - 1 || memchr(line, 0, llen)) mc_fail("%s: the report is not one complete line: %.200s", want.what, line);
    for(size_t i = 0; i + 1 < llen; i++) if(!isprint((unsigned char) line[i])) mc_fail("%s: the report contains the byte %#x", want.what, (unsigned char) line[i]);
    char b[64];
    snprintf(b, sizeof b, "[ABORTING][%d](", getpid());
    if(strncmp(line, b, strlen(b))) mc_fail("%s: the report starts \"%.60s\", not \"%s\"", want.what, line, b);
    const char *body = strstr(line, ") ");
    if(!body) mc_fail("%s: the report does not say where: %.200s", want.what, line);
    body = strstr(line, "()) "); body = body ? body + 3 : line;
    if(strlen(body) < 6) mc_fail("%s: the report is empty: %.200s", want.what, line);
    for(int i = 0; i < want.na; i++) {
        snprintf(b, sizeof b, "%lx", (unsigned long) want.a[i]);
        if(!token(body, b)) mc_fail("%s: the report does not contain the address %s: %.250s", want.what, b, line);
    }
    for(int i = 0; i < want.nn; i++) {
        snprintf(b, sizeof b, "%zu", want.num[i]);
        if(!dtoken(body, b)) mc_fail("%s: the report does not contain the number %s: %.250s", want.what, b, line);
    }
    if(want.word && !strcasestr(body, want.word)) mc_fail("%s: the report does not speak of \"%s\": %.250s", want.what, want.word, line);
    if(want.notword && strcasestr(body, want.notword)) mc_fail("%s: the report speaks of \"%s\": %.250s", want.what, want.notword, line);
}
typedef struct { void (*f)(void *); void *x; int w; } run_t;
static void child(void *a) {
    run_t *r = a;
    env.on_write = on_write; env.on_abort = judge;
    want.on = true; want.wmode = r->w;
    r->f(r->x);
}
/* must end through the allocator with a report */
static void expect(const char *what, void (*f)(void *), void *x) {
    want.what = what;
    for(int w = 0; w < 3; w++) {
        run_t r = {f, x, w};
        int d = mc_death(child, &r);
        if(d != D_ABORT) mc_fail("%s: the process %s instead of ending with a report", what, d == D_OK ? "went on" : d == D_SIGNAL ? "was killed by a signal" : "hung");
        mc_eval(1);
    }
}
static void w_clear(void) { memset(&want, 0, sizeof want); }
#define ADDR(p) (want.a[want.na++] = (uintptr_t) (p))
#define NUM(n) (want.num[want.nn++] = (n))

static uint8_t *P; static size_t N, USE; static void *H, *H2;
static void nop(void) { iso_flush_caches(); }
static void f_dfree(void *x) { (void) x; iso_free(P); nop(); iso_free(P); nop(); }
static void f_dfree2(void *x) { (void) x; iso_free_from_zone(P, H); iso_free_from_zone(P, H); }
static void f_dfree3(void *x) { (void) x; iso_free_size(P, N); iso_free_size(P, N); }
static void f_perm(void *x) { (void) x; iso_free_permanently(P); iso_free_permanently(P); }
static void f_permfree(void *x) { (void) x; iso_free_permanently(P); iso_free(P); nop(); }
static void f_at(void *x) { iso_free(x); nop(); }
static void f_atperm(void *x) { iso_free_permanently(x); nop(); }
static size_t claim;
static void f_size(void *x) { iso_free_size(x, claim); }
static void f_wrongzone(void *x) { (void) x; iso_free_from_zone(P, H2); nop(); }
static void f_realloc(void *x) { (void) x; iso_free_size(P, N); (void) !iso_realloc(P, N + 10); }
static void f_chunksz(void *x) { (void) !iso_chunksz(x); }
static size_t coff;
static void f_canary(void *x) { if(H && !x) iso_free_from_zone(P, H); else iso_free_size(P, N); P[coff] ^= 0x41; iso_verify_zones(); }
static size_t S[200]; static int nS;
static void init(int v) {
    m_start(v);
    nS = 0;
    for(size_t c = 32; c <= 65536; c += mc_thorough ? (c < 4096 ? 32 : 1024) : c < 512 ? 96 : 4096 + 32) S[nS++] = c;
    S[nS++] = 65536;
    size_t q[] = {65537, 70000, 131072, 1000000, 1UL << 31};
    for(int i = 0; i < 5; i++) S[nS++] = q[i];
    H2 = iso_alloc_new_zone(48);
    m_add(iso_alloc_from_zone(H2), 48, -1);
    m_add(iso_alloc(80000), 80000, -1); /* some big allocation exists */
}
static long count(int v) { (void) v; return nS * 2; }
static void item(long i) {
    N = S[i / 2];
    bool priv = i & 1, big = N > 65536;
    if(priv && big) return;
    mc_note(" %zu bytes, %s", N, priv ? "private" : "general");
    H = priv ? iso_alloc_new_zone(N) : NULL;
    int k = mc_thorough ? 9 : 3;
    for(int j = 0; j < k; j++) {
        P = priv ? iso_alloc_from_zone(H) : iso_alloc(N);
        if(!P) break;
        USE = iso_chunksz(P);
        w_clear(); ADDR(P); if(!big) want.word = "free";
        expect("double free", f_dfree, NULL);
        expect("permanent free of a permanently freed chunk", f_perm, NULL);
        expect("free of a permanently freed chunk", f_permfree, NULL);
        expect("double sized free", f_dfree3, NULL);
        if(priv) expect("double free to a private zone", f_dfree2, NULL);
        w_clear(); ADDR(P + 8);
        expect("free of an address inside a chunk", f_at, P + 8);
        expect("permanent free of an address inside a chunk", f_atperm, P + 8);
        for(int o = 1; o < 8; o += mc_thorough ? 1 : 3) {
            w_clear(); ADDR(P + o); want.word = "align";
            expect("free of a misaligned address", f_at, P + o);
        }
        w_clear(); ADDR(P);
        size_t cl[] = {USE + 1, USE + 4096, 65536, USE * 2};
        for(int c = 0; c < 4; c++) {
            claim = cl[c];
            if(claim <= USE || (!big && claim > 65536) || claim > INT32_MAX) continue;
            want.nn = 0; NUM(USE); NUM(claim);
            expect("sized free that claims too much", f_size, P);
        }
        w_clear(); ADDR(P);
        if(!priv) { expect("free to the wrong zone", f_wrongzone, NULL); }
        if(!big) {
            want.word = "free";
            expect("realloc of a free chunk", f_realloc, NULL);
            want.word = "canary";
            size_t cs[] = {0, 1, 7, USE - 8, USE - 1};
            for(int c = 0; c < 5; c++) { coff = cs[c]; expect("corrupted canary", f_canary, NULL); }
        }
        mc_nontrivial(USE * 4 + priv);
    }
    if(i == 0) {
        static const uintptr_t wild[] = {8, 0x1000, 0xfff8, 0x10000, 0x7fffffff0000, 0x800000000000, 0xffffffff, 0x100000000, 0x1234567890abcde8, 0x8000000000000000, 0xfffffffffffffff8};
        for(unsigned w = 0; w < sizeof wild / sizeof *wild; w++) {
            w_clear(); ADDR(wild[w]);
            expect("free of a wild address", f_at, (void *) wild[w]);
            expect("permanent free of a wild address", f_atperm, (void *) wild[w]);
            expect("size of a wild address", f_chunksz, (void *) wild[w]);
            claim = 32; expect("sized free of a wild address", f_size, (void *) wild[w]);
            claim = 70000; expect("big sized free of a wild address", f_size, (void *) wild[w]);
        }
        uint8_t *z = iso_alloc(0);
        w_clear(); ADDR(z); NUM(77); claim = 77;
        if(env_prot((uintptr_t) z) == PROT_NONE) expect("sized free of a zero-size allocation", f_size, z);
    }
}
static const dom_t misuse = {"misuse", init, 8, count, item, 1};

/* a fault the process runs into (SIGNAL_HANDLER) */
static uintptr_t uaf;
static void f_read(void *x) { volatile char c = *(volatile char *) x; (void) c; }
static void f_write(void *x) { *(volatile char *) x = 1; }
static void f_infree(void *x) { iso_verify_zone(x); }
static void f_dead(void *x) { iso_alloc_destroy(); f_read(x); }
static uintptr_t T[4000]; static int nT;
static void s_init(int v) {
    m_start(v);
    uaf = 0;
#if UAF_PTR_PAGE
    env.rmode = RM_HIT;
    uintptr_t *h = iso_alloc(64);
    void *p = iso_alloc(256);
    h[1] = (uintptr_t) p;
    m_add_nofill(h, 64, -1);
    iso_free_size(p, 256); iso_flush_caches();
    env.rmode = RM_PASS;
    if(h[1] != (uintptr_t) p) uaf = h[1];
    if(!uaf || env_prot(uaf) != PROT_NONE) mc_fail("harness: the reference was not poisoned (%#lx)", (unsigned long) uaf);
#endif
    nT = 0;
    for(int i = 0; i < nsegs && nT < 3000; i++) if(segs[i].prot == PROT_NONE) { T[nT++] = segs[i].s; T[nT++] = segs[i].s + 777; T[nT++] = segs[i].e - 1; }
    static const uintptr_t wild[] = {0, 1, 8, 4095, 4096, 0xdead000, 0x7ffffffff000};
    for(int i = 0; i < 7; i++) T[nT++] = wild[i];
    if(uaf) for(long o = 0; o < (long) PAGE; o += mc_thorough ? 8 : 128) T[nT++] = uaf + o;
    for(int i = 0; i < nT; i++) if(env_prot(T[i]) >= PROT_READ) T[i--] = T[--nT];
}
static long s_count(int v) { (void) v; return nT; }
static void s_item(long i) {
    uintptr_t t = T[i];
    mc_note(" access to %#lx", (unsigned long) t);
    w_clear();
    if(t) ADDR(t);
    if(uaf && t >= uaf && t < uaf + PAGE) want.word = "use after free";
    else if(!uaf || t + 3 * PAGE < uaf || t > uaf + 3 * PAGE) want.notword = "use after free";
    expect("read of an inaccessible address", f_read, (void *) t);
    expect("write to an inaccessible address", f_write, (void *) t);
    /* while the allocator holds its lock */
    w_clear();
    if(t > 4096 && i % 16 == 0 && env_prot(t) == PROT_NONE) expect("use of an inaccessible zone", f_infree, (void *) (t & ~7UL));
#if ISO_DTOR_CLEANUP
    w_clear();
    if(i % 8 == 0 && env_prot(t) < 0) { if(t) ADDR(t); expect("read of an inaccessible address after the heap was destroyed", f_dead, (void *) t); }
#endif
    mc_nontrivial(t);
}
static const dom_t fault = {"fault", s_init, 8, s_count, s_item, 1};

/* detections that exist only in some builds */
static size_t X[64]; static int nX;
static void o_init(int v) {
    init(v);
    nX = 0;
    for(size_t c = 32; c <= 65536; c += c < 2048 ? 64 : 6400) X[nX++] = c;
}
static long o_count(int v) { (void) v; return nX; }
#if ABORT_ON_NULL
static void f_alloc(void *x) { (void) !iso_alloc((size_t) x); }
static void f_realloc0(void *x) { (void) !iso_realloc(live[0].p, (size_t) x); }
static void f_fill(void *x) { (void) x; while(iso_alloc_from_zone(H)); }
#endif
#if MEMCPY_SANITY
extern void *hk_memcpy(void *, const void *, size_t);
extern void *hk_memmove(void *, const void *, size_t);
extern void *hk_memset(void *, int, size_t);
static char other[200000]; static size_t hn;
static void f_cpyto(void *x) { hk_memcpy(x, other, hn); }
static void f_cpyfrom(void *x) { hk_memcpy(other, x, hn); }
static void f_moveto(void *x) { hk_memmove(x, other, hn); }
static void f_movefrom(void *x) { hk_memmove(other, x, hn); }
static void f_set(void *x) { hk_memset(x, 0, hn); }
#endif
#if MEMORY_TAGGING
static void f_tag(void *x) { iso_alloc_verify_ptr_tag(x, H); }
#endif
static void o_item(long i) {
    N = X[i];
    mc_note(" %zu bytes", N);
#if ABORT_ON_NULL
    static const size_t inc[] = {1, 2, 4096, 1UL << 20, 1UL << 32, 1UL << 40, 1UL << 62};
    for(int k = 0; k < 7; k++) {
        size_t n = (1UL << 32) + N * inc[k];
        if(n > INT64_MAX || n <= 1UL << 32) continue;
        w_clear();
        expect("request that cannot be met", f_alloc, (void *) n);
        expect("reallocation that cannot be met", f_realloc0, (void *) n);
    }
    if(N >= 512) { w_clear(); H = iso_alloc_new_zone(N); expect("request to a full private zone", f_fill, NULL); }
#endif
#if MEMCPY_SANITY
    uint8_t *p = iso_alloc(N); USE = iso_chunksz(p);
    static const size_t over[] = {1, 7, 8, 100, 4096};
    for(int k = 0; k < 5; k++) {
        hn = USE + over[k];
        w_clear(); ADDR(p); NUM(USE); NUM(hn); want.word = "write";
        expect("memcpy over the end", f_cpyto, p); expect("memmove over the end", f_moveto, p); expect("memset over the end", f_set, p);
        want.word = "read";
        expect("memcpy from beyond the end", f_cpyfrom, p); expect("memmove from beyond the end", f_movefrom, p);
    }
#endif
#if ALLOC_SANITY
    if(i & 1) env.rmode = RM_HIT; else { env.rmode = RM_HITALT; env.rcount |= 1; env.rcount++; }
    if(N <= 4064) {
        P = iso_alloc(N); USE = N; H = NULL;
        env.rmode = RM_CONST; env.rconst = 0;
        size_t u = iso_chunksz(P);
        const seg_t *sg = env_seg((uintptr_t) P);
        bool sampled = sg->e - sg->s == PAGE;
        w_clear(); ADDR(P + 8); if(sampled) ADDR(P); expect("free of an address inside a sample", f_at, P + 8);
        w_clear(); ADDR(P); claim = u + 1; NUM(u); NUM(claim); expect("sized free that claims too much of a sample", f_size, P);
    }
#endif
#if MEMORY_TAGGING
    H = iso_alloc_new_zone(N);
    P = iso_alloc_from_zone_tagged(H);
    for(int b = 56; b < 64; b++) { void *q = (void *) ((uintptr_t) P ^ (1UL << b)); w_clear(); want.word = "tag"; ADDR(q); NUM(0); want.nn = 0; expect("verification of a wrong tag", f_tag, q); }
#endif
    mc_nontrivial(N);
}
static const dom_t options = {"options", o_init, 8, o_count, o_item, 1};

#define EX_OTHER 85
/* a request to the kernel that fails while the heap is set up */
static const int kinds[] = {FK_MMAP, FK_MPROTECT, FK_GETRANDOM};
static void st_init(int v) { static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN}; env_reset(pol[v & 3]); }
static long st_count(int v) { (void) v; return 3 * 2 * 120; }
static void f_start(void *x) {
    long i = (long) x;
    env.fail_mask = kinds[i % 3]; env.fail_sticky = i / 3 % 2; env.fail_at = i / 6 + 1;
    iso_alloc_initialize();
    for(size_t n = 1; n < 200000; n = n * 3 + 1) (void) !iso_alloc(n);
    H = iso_alloc_new_zone(300); if(H) (void) !iso_alloc_from_zone(H);
    iso_flush_caches();
    if(env.fails == 0) _exit(0);
    _exit(EX_OTHER);
}
static void st_item(long i) {
    w_clear();
    want.what = "request to the kernel refused";
    for(int w = 0; w < 3; w++) {
        run_t r = {f_start, (void *) i, w};
        int d = mc_death(child, &r);
        if(d == D_SIGNAL) mc_fail("a request to the kernel refused during start-up: the process was killed by a signal without a report");
        if(d == D_OTHER && !(WIFEXITED(mc_death_status) && WEXITSTATUS(mc_death_status) == EX_OTHER)) mc_fail("a request to the kernel refused during start-up: the process hung");
        mc_eval(d != D_OK);
        if(d == D_ABORT) mc_nontrivial(i);
    }
}
static const dom_t start = {"start", st_init, 4, st_count, st_item, 1};
static const scen_t sc[] = {MC_DOM(misuse), MC_DOM(fault), MC_DOM(options), MC_DOM(start)};
int main(int c, char **v) { return mc_main(c, v, sc, 4); }
