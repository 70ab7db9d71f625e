/* C19: the hooked memcpy, memmove and memset compute what the C standard says, and a copy
 * or fill that starts at a chunk and is longer than the chunk ends the process before
 * anything is written. The hooks are linked under the names hk_*, for the library's own
 * use of these functions too. */
#include "../mm.h"
extern void *hk_memcpy(void *, const void *, size_t);
extern void *hk_memmove(void *, const void *, size_t);
extern void *hk_memset(void *, int, size_t);

#define M 64          /* margin watched on both sides */
#define CAP (1 << 18)
static uint8_t ref[CAP + 4 * M], pool[CAP * 2 + 4 * M];
static uint8_t *big, *edge; /* a big allocation; memory ending at an inaccessible page */
static uint8_t pat(size_t i, int s) { return (uint8_t) ((i * 197 + i / 256 * 31 + s * 59) ^ (i >> 9)); }
static void fillp(uint8_t *p, size_t n, int s) { for(size_t i = 0; i < n; i++) p[i] = pat(i, s); }

static void init(int v) {
    m_start(v);
    big = iso_alloc(2 * CAP + 4 * M);
    uint8_t *e = real_mmap(NULL, CAP + 2 * PAGE, RW, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    real_mprotect(e + CAP + PAGE, PAGE, PROT_NONE);
    edge = e + CAP + PAGE; /* first inaccessible byte */
}
/* lengths: everything small, then every border that could matter */
static size_t lens[700]; static int nlens;
static void mklens(void) {
    nlens = 0;
    for(size_t i = 0; i <= 200; i++) lens[nlens++] = i;
    for(int b = 8; b <= 17; b++) for(int d = -3; d <= 3; d++) { size_t x = (1UL << b) + d; if(x > 200 && x < CAP) lens[nlens++] = x; }
    for(size_t k = 3; k < 40; k += 2) lens[nlens++] = 32 * k + 1 + k % 31;
    lens[nlens++] = 65535; lens[nlens++] = 65537; lens[nlens++] = 100001; lens[nlens++] = CAP - 1;
}
static long scount(int v) { (void) v; mklens(); return nlens; }
/* one call in a window of w bytes: everything outside the destination keeps its value */
static void window(uint8_t *w, size_t wn, size_t d, size_t s, size_t n, int fn, int val) {
    for(size_t i = 0; i < wn; i++) ref[i] = w[i] = pat(i, fn + val);
    void *r;
    const char *name;
    if(fn == 0) { name = "memcpy"; r = hk_memcpy(w + d, w + s, n); for(size_t i = 0; i < n; i++) ref[d + i] = pat(s + i, fn + val); }
    else if(fn == 1) { name = "memmove"; r = hk_memmove(w + d, w + s, n); for(size_t i = 0; i < n; i++) ref[d + i] = pat(s + i, fn + val); }
    else { name = "memset"; r = hk_memset(w + d, val, n); for(size_t i = 0; i < n; i++) ref[d + i] = (uint8_t) val; }
    if(r != w + d) mc_fail("%s returned %p, not its destination %p", name, r, (void *) (w + d));
    if(memcmp(ref, w, wn)) for(size_t i = 0; i < wn; i++) if(ref[i] != w[i]) mc_fail("%s(%zu, %zu, %zu): byte %zu of the window is %#x, not %#x", name, d, s, n, i, w[i], ref[i]);
    mc_eval(1);
}
static void sitem(long k) {
    size_t n = lens[k];
    mc_note(" length %zu", n);
    uint8_t *chunk = n + 2 * M <= 60000 ? iso_alloc(2 * n + 4 * M <= 65536 ? 2 * n + 4 * M : n + 2 * M) : NULL;
    size_t cn = chunk ? iso_chunksz(chunk) : 0;
    /* everywhere in turn: outside the heap, a chunk's start and inside, a big allocation, against an inaccessible page */
    struct { uint8_t *p; size_t n; } place[] = {{pool, sizeof pool}, {chunk, cn}, {chunk ? chunk + 24 : NULL, cn - 24}, {big, 2 * CAP}, {edge - (n + M), n + M}};
    for(int q = 0; q < 5; q++) {
        uint8_t *w = place[q].p; size_t wn = place[q].n;
        if(!w || wn < n) continue;
        if(wn > 2 * n + 4 * M) wn = 2 * n + 4 * M;
        if(wn > sizeof ref) wn = sizeof ref;
        /* memset: every value at short lengths, selected ones otherwise */
        for(int val = 0; val < 256; val += n <= 40 && q < 2 ? 1 : 85) window(w, wn, (wn - n) / 2, 0, n, 2, val);
        for(int al = 0; al < 17 && al + n <= wn; al++) window(w, wn, al, 0, n, 2, -1 - al);
        window(w, wn, wn - n, 0, n, 2, 0x1ff);
        /* memmove: every distance between source and destination that overlaps, for short
         * lengths; the close, middle and far ones otherwise */
        long room = (long) (wn - n);
        for(long s = 0; s <= room; s += room > 200 && s > 70 && s < room - 70 ? 37 : s % 7 && n > 200 && s > 20 ? 7 : 1)
            for(int dir = 0; dir < 2; dir++) {
                long base = dir ? room / 2 : 0, d = s, from = base;
                if(n > 4096 && s > 33 && s % 5) continue;
                if(d > room || from > room) continue;
                window(w, wn, d, from, n, 1, 3); window(w, wn, from, d, n, 1, 4);
                if(d >= from + (long) n || from >= d + (long) n || d == from) window(w, wn, d, from, n, 0, 5);
            }
    }
    /* copies between different kinds of memory */
    uint8_t *a[] = {pool, chunk, big, edge - n}, *o = chunk ? iso_alloc(n ? n : 1) : NULL;
    for(int i = 0; i < 4; i++) for(int j = 0; j < 4; j++) if(a[i] && a[j] && i != j && !(i == 1 && n > cn) && !(j == 1 && n > cn)) {
        fillp(a[j], n, 9);
        if(hk_memcpy(a[i], a[j], n) != a[i] || memcmp(a[i], a[j], n)) mc_fail("memcpy of %zu bytes between kinds of memory", n);
        fillp(a[j], n, 10);
        if(hk_memmove(a[i], a[j], n) != a[i] || memcmp(a[i], a[j], n)) mc_fail("memmove of %zu bytes between kinds of memory", n);
    }
    if(o) {
        size_t on = iso_chunksz(o);
        if(on > cn) on = cn; /* to the last byte of both chunks */
        fillp(chunk, on, 1); hk_memcpy(o, chunk, on);
        for(size_t i = 0; i < on; i++) if(o[i] != pat(i, 1)) mc_fail("memcpy between chunks at %zu", i);
        iso_free(o);
    }
    if(chunk) iso_free(chunk);
    mc_nontrivial(n);
    iso_free(big);
    m_audit();
}
static const dom_t semantics = {"semantics", init, 8, scount, sitem, 1};

/* every class: the whole chunk is fine, one byte more is not */
static uint8_t *vic; static size_t vicn; static int vf; static uint8_t *other; static bool wrote;
static void unchanged(void) {
    for(size_t i = 0; i < vicn; i++) if(vic[i] != pat(i, 7)) { _exit(99); }
}
static const char *fnn[] = {"memcpy to the chunk", "memcpy from the chunk", "memmove to the chunk", "memmove from the chunk", "memset of the chunk"};
static void callv(size_t n) {
    switch(vf) {
    case 0: hk_memcpy(vic, other, n); break;
    case 1: hk_memcpy(other, vic, n); break;
    case 2: hk_memmove(vic, other, n); break;
    case 3: hk_memmove(other, vic, n); break;
    case 4: hk_memset(vic, 0, n); break;
    }
}
static size_t over;
static void attack(void *a) { (void) a; env.on_abort = unchanged; callv(over); }
static long ocount(int v) { (void) v; return 2048; }
static void inito(int v) { env_reset(PL_SPREAD); iso_alloc_initialize(); other = real_mmap(NULL, 1 << 20, RW, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if(v) m_add(iso_alloc(64), 64, -1); }
static void oitem(long k) {
    size_t csz = 32 * (k + 1);
    mc_note(" chunk size %zu", csz);
    void *h = iso_alloc_new_zone(csz);
    /* some chunk, the lowest and the highest of the zone */
    static uint8_t *v[140000]; int n = 0;
    int lim = k % 64 == 0 || csz >= 16384 || mc_thorough ? 140000 : 3;
    while(n < lim && (v[n] = iso_alloc_from_zone(h))) n++;
    uint8_t *lo = v[0], *hi = v[0];
    for(int i = 1; i < n; i++) { if(v[i] < lo) lo = v[i]; if(v[i] > hi) hi = v[i]; }
    uint8_t *t[] = {v[1], lo, hi};
    for(int c = 0; c < 3; c++) {
        vic = t[c]; vicn = csz;
        const seg_t *sg = env_seg((uintptr_t) vic);
        for(vf = 0; vf < 5; vf++) {
            /* up to its last byte */
            callv(csz); callv(csz - 1); callv(1); callv(0);
            mc_eval(4);
            fillp(vic, csz, 7);
            size_t left = sg->e - (uintptr_t) vic;
            size_t ns[] = {csz + 1, csz + 8, csz + 31, csz * 2, left, left + 1, left + 5000, 8UL << 20, 1UL << 33, SIZE_MAX / 2, SIZE_MAX};
            for(int i = 0; i < 11; i++) {
                over = ns[i];
                if(over <= csz || over <= 32) continue;
                if((vf & 1) && over > 1 << 20) { /* reading */ }
                if(c && i > 5 && !mc_thorough) continue;
                int r = mc_death(attack, NULL);
                if(r == D_ABORT) { mc_eval(1); continue; }
                if(r == D_OTHER && WIFEXITED(mc_death_status) && WEXITSTATUS(mc_death_status) == 99) mc_fail("%s of %zu bytes with %zu byte chunks changed the chunk before it was refused", fnn[vf], over, csz);
                mc_fail("%s of %#zx bytes with %zu byte chunks (chunk %zu bytes before the end of the zone) was not refused (outcome %d, status %#x)", fnn[vf], over, csz, left, r, mc_death_status);
            }
        }
    }
    mc_nontrivial(csz);
}
static const dom_t overflow = {"overflow", inito, 2, ocount, oitem, 1};

/* before there is a heap, and in a program that goes on */
static void initn(int v) { static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN}; env_reset(pol[v & 3]); if(v & 4) iso_alloc_initialize(); }
static void touch(uint8_t *p, size_t n) {
    static uint8_t tmp[1 << 19];
    if(n > sizeof tmp) n = sizeof tmp;
    hk_memcpy(tmp, p, n); hk_memset(p, 0x11, n);
    for(size_t i = 0; i < n; i += n > 9000 ? 97 : 1) if(p[i] != 0x11) mc_fail("memset left byte %zu", i);
    hk_memmove(p, tmp, n);
    if(memcmp(p, tmp, n)) mc_fail("memmove did not restore the content");
    mc_eval(3);
}
static uint8_t *app; /* memory of the program's own, where zones used to be */
static void node(void) {
    static uint8_t st[70000];
    for(int i = 0; i < nlive; i++) { m_check(&live[i]); touch(live[i].p, live[i].use); }
    touch(st, 40); touch(st, 70000);
    if(app) touch(app, 4 << 20);
}
static void o_init(int a) { (void) a; iso_alloc_initialize(); }
extern int hk_started; int hk_started;
static bool up(int a) { (void) a; return hk_started; }
static void o_up(int a) { (void) a; if(!hk_started) iso_alloc_initialize(); hk_started = 1; }
static void o_alloc(int n) { m_add(iso_alloc(n), n, -1); }
static void o_zone(int n) { if(nzt > 20) return; zt[nzt] = (mz_t){iso_alloc_new_zone(n), n, 0, 0, 0, true}; m_add(iso_alloc_from_zone(zt[nzt].h), n, nzt); nzt++; }
static bool hz(int a) { (void) a; return hk_started && nzt > 0 && zt[nzt - 1].live; }
static void o_destroy(int a) { (void) a; int z = nzt - 1; for(int i = nlive - 1; i >= 0; i--) if(live[i].zone == z) m_take(i); iso_alloc_destroy_zone(zt[z].h); zt[z].live = false; nzt--; }
static bool hl(int a) { (void) a; return hk_started && nlive > 0; }
static void o_free(int a) { (void) a; blk_t b = m_take(nlive - 1); iso_free(b.p); }
static void o_frees(int a) { (void) a; blk_t b = m_take(0); if(b.zone >= 0) iso_free_from_zone(b.p, zt[b.zone].h); else iso_free_size(b.p, b.req); }
static void o_churn(int n) { for(int i = 0; i < 4194304 / n + 4; i++) { void *p = iso_alloc(n); iso_free_size(p, n); } }
static void o_strdup(int n) { char s[300]; memset(s, 'x', n); s[n] = 0; m_add(iso_strdup(s), n + 1, -1); }
static void o_realloc(int n) { blk_t b = m_take(nlive - 1); m_add(iso_realloc(b.p, n), n, -1); }
static const op_t ops[] = {
    {"initialize", NULL, o_up, 0}, {"alloc", up, o_alloc, 32}, {"alloc", up, o_alloc, 40}, {"alloc", up, o_alloc, 1000}, {"alloc", up, o_alloc, 65536}, {"alloc", up, o_alloc, 65537}, {"new_zone", up, o_zone, 48}, {"new_zone", up, o_zone, 65536}, {"zone_destroy", hz, o_destroy, 0},
    {"free", hl, o_free, 0}, {"free_size first", hl, o_frees, 0}, {"churn", up, o_churn, 8192}, {"strdup", up, o_strdup, 200}, {"realloc", hl, o_realloc, 5000},
};
static void inith(int v) { initn(v & 3); hk_started = 0; node(); if(v & 4) { o_up(0); o_alloc(64); o_alloc(8192); o_zone(96); } }
static void leafh(void) { if(hk_started) m_audit(); else mc_nontrivial(1); }
static const seq_t history = {"history", inith, 8, ops, sizeof ops / sizeof *ops, node, leafh, 3, 4};
static const scen_t sc[] = {MC_DOM(semantics), MC_DOM(overflow), MC_SEQ(history)};
int main(int c, char **v) { return mc_main(c, v, sc, 3); }
