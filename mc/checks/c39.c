/* C39: searching the stack reports every chunk pointer in the searched part with its true state, and nothing else */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "../mm.h"
#include <ucontext.h>
extern char **environ;
#define AREA 512UL
static uint8_t *stk, *area; /* a stack of our own; its oldest part is the area searched */
#define STK (1024 * 1024UL)
static char *out; static size_t outn;
static ssize_t on_write(int fd, const void *b, size_t n) { (void) fd; if(outn + n < (1 << 20)) { memcpy(out + outn, b, n); outn += n; out[outn] = 0; } return n; }
static ucontext_t back, on;
static void *sarg;
static void go(void) { iso_alloc_search_stack(sarg); }
static void search(size_t start, bool whole) {
    char **e = environ;
    uint8_t *base = stk + STK - AREA - 8;
    if(whole) { environ = (char **) (area + start); sarg = NULL; } else sarg = area + start;
    memset(base - 16384, 0, 16384);
    getcontext(&on);
    on.uc_stack.ss_sp = stk; on.uc_stack.ss_size = base - stk; on.uc_link = &back;
    makecontext(&on, go, 0);
    static const int rg[] = {REG_RBX, REG_RBP, REG_R12, REG_R13, REG_R14, REG_R15, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9, REG_R10, REG_R11, REG_RAX};
    for(unsigned i = 0; i < sizeof rg / sizeof *rg; i++) if(rg[i] != REG_RBX) on.uc_mcontext.gregs[rg[i]] = 0; /* RBX holds uc_link */
    outn = 0; out[0] = 0;
    env.on_write = on_write;
    swapcontext(&back, &on);
    env.on_write = NULL;
    environ = e;
}
enum { USED, FREE, EITHER, INSIDE };
static const char *sn[] = {"in use", "free", "delayed", "inside"};
typedef struct { uint8_t *p; int st; } pl_t;
/* what the output says about an address: bit 0 in use, bit 1 free, bit 2 mentioned at all */
static int said(uintptr_t a) {
    char k[2][24]; snprintf(k[0], 24, "%lx", a); snprintf(k[1], 24, "%lX", a);
    int r = 0;
    for(char *l = out; l && *l;) {
        char *e = strchr(l, '\n'); if(e) *e = 0;
        char *q = strstr(l, k[0]); if(!q) q = strstr(l, k[1]);
        if(q) {
            r |= 4;
            char *t = q + strlen(k[0]);
            if(strstr(t, "in-use") || strstr(t, "in use")) r |= 1; else if(strstr(t, "is free")) r |= 2;
        }
        if(e) *e = '\n';
        l = e ? e + 1 : NULL;
    }
    return r;
}
static int states(void) { int r = 0; for(char *q = out; (q = strstr(q, "Chunk at")); q++) { char *e = strchr(q, '\n'), *u = strstr(q, "in-use"), *f = strstr(q, "is free"); if((u && (!e || u < e)) || (f && (!e || f < e))) r++; } return r; }
static void plant1(pl_t *x, int n, size_t off, size_t gap, size_t start, bool whole) {
    memset(area, 0, AREA + 64);
    for(int i = 0; i < n; i++) memcpy(area + off + gap * i, &x[i].p, 8);
    search(start, whole);
    mc_eval(n);
    int chunks = 0, must = 0;
    for(int i = 0; i < n; i++) {
        bool in = off + gap * i <= start;
        int s = said((uintptr_t) x[i].p);
        bool twice = false;
        for(int j = 0; j < n; j++) if(j != i && x[j].p == x[i].p && off + gap * j <= start) twice = true;
        if(twice) in = true;
        if(!in) { if(s & 3) mc_fail("a pointer at offset %zu of the stack was reported, the search was to start at %zu", off + gap * i, start); continue; }
        if(!s && getenv("MC_DBG")) { fprintf(stderr, "%s\n", out); fflush(stderr); }
        if(!s) mc_fail("the pointer %p (%s) at offset %zu of the stack was not reported (search from %zu)", (void *) x[i].p, sn[x[i].st], off + gap * i, start);
        if(x[i].st == USED && (s & 3) != 1) mc_fail("the pointer to the live chunk %p was %s", (void *) x[i].p, s & 2 ? "reported as free" : "not reported as in use");
        if(x[i].st == FREE && (s & 3) != 2) mc_fail("the pointer to the freed chunk %p was %s", (void *) x[i].p, s & 1 ? "reported as in use" : "not reported as free");
        if(x[i].st == EITHER && !(s & 3)) mc_fail("the state of the chunk %p was not reported", (void *) x[i].p);
        if(x[i].st == INSIDE && (s & 3)) mc_fail("%p is inside a chunk and was reported as a chunk", (void *) x[i].p);
        if(x[i].st != INSIDE) chunks++;
        must++;
    }
    if(states() != chunks) mc_fail("%d chunk pointers were on the searched part of the stack, %d were reported", chunks, states());
    mc_nontrivial((uint64_t) x[0].st << 40 | (uintptr_t) x[0].p >> 3);
    m_check_all();
}
static bool skip(uint8_t *p) { return ((uintptr_t) p & 0xffffff) == 0; }
static size_t cls[2100]; static long ncls;
static void init(int v) {
    stk = real_mmap(NULL, STK + PAGE, RW, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); area = stk + STK - AREA;
    out = real_mmap(NULL, (1 << 20) + 1, RW, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    m_start(v);
    ncls = 0;
    for(size_t s = 32; s <= 65536; s += 32) if(mc_thorough || s <= 256 || (s & (s - 1)) == 0 || s % 1504 == 0 || s == 65536 - 32) cls[ncls++] = s;
}
static long count(int v) { (void) v; return ncls; }
static void item(long k) {
    size_t n = cls[k];
    mc_note("chunks of %zu bytes", n);
    static pl_t x[64]; int nx = 0;
    /* general chunks: live, freed, waiting; chunks of a private zone from its first to its last */
    static uint8_t *q[6];
    for(int i = 0; i < 6; i++) q[i] = iso_alloc(n);
    for(int i = 0; i < 2; i++) iso_free_size(q[i], n);
    iso_free(q[2]); iso_flush_caches();
    iso_free(q[3]);
    for(int i = 0; i < 6; i++) x[nx++] = (pl_t){q[i], i < 3 ? FREE : i == 3 ? EITHER : USED};
    void *h = iso_alloc_new_zone(n);
    static uint8_t *z[140000]; long cap = 0;
    while((z[cap] = iso_alloc_from_zone(h))) cap++;
    long lo = 0, hi = 0;
    for(long i = 0; i < cap; i++) { if(z[i] < z[lo]) lo = i; if(z[i] > z[hi]) hi = i; }
    x[nx++] = (pl_t){z[lo], USED}; x[nx++] = (pl_t){z[hi], USED};
    for(int i = 0; i < 2; i++) { long a = i ? cap / 2 : cap / 3; x[nx++] = (pl_t){z[a], USED}; }
    for(int i = 0; i < 4; i++) { /* inside chunks: every multiple of 8 is fine */
        uint8_t *b = i < 2 ? q[4 + i] : z[i == 2 ? lo : hi];
        size_t d = i & 1 ? n - 8 : i ? 8 : (n / 2) & ~7UL;
        x[nx++] = (pl_t){b + d, INSIDE};
    }
    for(int i = 0; i < nx; i++) if(skip(x[i].p)) x[i--] = x[--nx];
    for(int i = 0; i < nx; i++) {
        plant1(x + i, 1, k % 64, 0, k % 64 + (i * 7) % 9, false);
        plant1(x + i, 1, (i * 13 + k) % 200, 0, 400, i & 1);
        plant1(x + i, 1, 200 + i, 0, 199 + i - k % 17, i & 1);
    }
    for(int g = 8; g <= 24; g += g == 8 ? 3 : 13) plant1(x, nx, k % 9, g, AREA, g == 11);
    plant1(x, nx, 3, 16, 3 + 16 * (k % nx), k & 1);
    /* and after half of the private zone has been freed */
    pl_t y[4]; int ny = 0;
    iso_free_from_zone(z[lo], h); iso_free_from_zone(z[cap / 2], h);
    y[ny++] = (pl_t){z[lo], FREE}; if(hi != lo) y[ny++] = (pl_t){z[hi], hi == cap / 2 ? FREE : USED};
    for(int i = 0; i < ny; i++) if(skip(y[i].p)) y[i--] = y[--ny];
    for(int i = 0; i < ny; i++) if(lo != cap / 2) plant1(y + i, 1, 64, 0, 64, false);
    for(int i = 4; i < 6; i++) m_add(q[i], n, -1);
    m_audit();
}
static const dom_t ptrs = {"pointers", init, 4, count, item, 1};

/* every place of one pointer against every start of the search; big allocations and plain numbers are no pointers to chunks */
static long pcount(int v) { (void) v; return 96; }
static void pitem(long k) {
    blk_t *a = m_add(iso_alloc(100), 100, -1), *b = m_add(iso_alloc(70000), 70000, -1), *c = m_add(iso_alloc(4000), 4000, -1);
    pl_t x = {k & 1 ? a->p : c->p, USED};
    mc_note("pointer at offset %ld", k);
    for(size_t s = k > 24 ? k - 24 : 0; s < (size_t) k + 24; s++) plant1(&x, 1, k, 0, s, (s + k) & 1);
    const uint64_t plain[] = {0, 1, 100, 0xffffffff, 0x100000000, ~0UL, 0x800000000000, 0x7fffffffffff, (uintptr_t) b->p, (uintptr_t) b->p + 64, (uintptr_t) &x, (uintptr_t) plain, (uintptr_t) pitem, 0x4141414141414141, 0xdededededededede};
    memset(area, 0, AREA + 64);
    for(unsigned i = 0; i < sizeof plain / 8; i++) memcpy(area + k + i * 24, &plain[i], 8);
    search(AREA, k & 1);
    if(states()) mc_fail("without a chunk pointer on the stack, %d were reported", states());
    mc_eval(1);
    m_check_all();
    m_audit();
}
static const dom_t places = {"places", init, 8, pcount, pitem, 1};
static const scen_t sc[] = {MC_DOM(ptrs), MC_DOM(places)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
