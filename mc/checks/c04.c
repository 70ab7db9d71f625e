/* C04: strdup family, for every length (and limit) in the domain, every form, with the
 * source placed so that one byte read past its end faults */
#include "../mm.h"
static size_t L[3000]; static int nL;
static uint8_t *arena; static size_t alen;
static int nz;
static const size_t zsz[] = {32, 64, 96, 1024, 8192, 65536};
static void init(int v) {
    m_start(v);
    nL = 0;
    for(size_t i = 0; i <= 300; i++) L[nL++] = i;
    for(size_t b = 512; b <= 262144; b <<= 1) for(int d = -3; d <= 3; d++) L[nL++] = b + d;
    for(size_t b = 65536 + 4096; b < 65536 + 5 * 4096; b += 4096) for(int d = -2; d <= 2; d++) L[nL++] = b + d;
    L[nL++] = 1000; L[nL++] = 5000; L[nL++] = 12345; L[nL++] = 99999;
    alen = 1 << 20;
    arena = real_mmap(NULL, alen + PAGE, RW, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    real_mprotect(arena + alen, PAGE, PROT_NONE);
    for(size_t i = 0; i < alen; i++) arena[i] = 1 + i % 251;
    nz = 6;
    for(int i = 0; i < nz; i++) zt[i].h = iso_alloc_new_zone(zsz[i]);
}
static long count(int v) { (void) v; return nL; }
static void verify(char *p, const char *src, size_t want, const char *what, size_t len, size_t n) {
    if(!p) mc_fail("%s of a %zu byte string (limit %zu) returned NULL", what, len, n);
    size_t use = iso_chunksz(p);
    if(!use || !env_all((uintptr_t) p, use, RW)) mc_fail("%s of a %zu byte string (limit %zu): result is not readable and writable", what, len, n);
    for(int i = 0; i < nlive; i++) if((uint8_t *) p < live[i].p + live[i].use && live[i].p < (uint8_t *) p + use) mc_fail("%s: result overlaps a live allocation", what);
    size_t got = strnlen(p, use);
    if(got == use) mc_fail("%s of a %zu byte string (limit %zu) is not terminated inside its %zu byte allocation", what, len, n, use);
    if(got != want) mc_fail("%s of a %zu byte string (limit %zu) has length %zu", what, len, n, got);
    if(memcmp(p, src, got)) mc_fail("%s of a %zu byte string (limit %zu) has different content", what, len, n);
    mc_eval(1);
    mc_nontrivial(use * 31 + got);
}
typedef struct { int form; const char *s; size_t n; int z; size_t len; } req_t;
static void too_big(void *a) { req_t *r = a; char *p = r->form ? iso_strndup_from_zone(zt[r->z].h, r->s, r->n) : iso_strdup_from_zone(zt[r->z].h, r->s); if(p) { size_t u = iso_chunksz(p); if(strnlen(p, u) == u) mc_fail("string of %zu bytes in a private zone of %zu byte chunks is not terminated", r->len, zsz[r->z]); if(u > zsz[r->z]) mc_fail("string placed outside the private zone"); } _exit(0); }
/* a private zone may decline a string it would waste most of a chunk on */
static bool waste(const char *r, size_t n, int z) { return !r && n > 1024 - 31 && zsz[z] >= 8 * n; }
static void rel(void *p, int z) { if(z < 0) { if((uintptr_t) p & 64) iso_free(p); else iso_free_size(p, iso_chunksz(p)); } else iso_free_from_zone(p, zt[z].h); }
static void item(long k) {
    size_t len = L[k];
    mc_note(" length %zu", len);
    char *s = (char *) arena + alen - len - 1; /* terminator is the last readable byte */
    arena[alen - 1] = 0;
    char *r = iso_strdup(s);
    verify(r, s, len, "iso_strdup", len, -2); rel(r, -1);
    for(int z = 0; z < nz; z++) {
        if(len + 1 <= zsz[z]) { r = iso_strdup_from_zone(zt[z].h, s); if(waste(r, len + 1, z)) continue; verify(r, s, len, "iso_strdup_from_zone", len, -2); rel(r, z); }
        else if(len < zsz[z] + 3) { req_t q = {0, s, 0, z, len}; int d = mc_death(too_big, &q); if(d != D_OK && d != D_ABORT) mc_fail("iso_strdup_from_zone of %zu bytes into %zu byte chunks: unexpected end", len, zsz[z]); }
    }
    /* limits */
    size_t N[400]; int nn = 0;
    for(size_t i = 0; i <= 34; i++) N[nn++] = i;
    for(int d = -3; d <= 3; d++) if((long) len + d >= 35) N[nn++] = len + d;
    N[nn++] = 63; N[nn++] = 64; N[nn++] = 65; N[nn++] = 1000; N[nn++] = 4096; N[nn++] = 70000; N[nn++] = 1UL << 20; N[nn++] = 1UL << 33; N[nn++] = SIZE_MAX - 1; N[nn++] = SIZE_MAX;
    for(int i = 0; i < nn; i++) {
        size_t n = N[i], want = n < len ? n : len;
        /* a: terminated source; b: an unterminated source of exactly n readable bytes */
        for(int b = 0; b < 2; b++) {
            if(b && n > len) continue;
            arena[alen - 1] = b ? 7 : 0;
            const char *src = b ? (char *) arena + alen - n : s;
            r = iso_strndup(src, n);
            verify(r, src, b ? n : want, "iso_strndup", b ? n : len, n); rel(r, -1);
            for(int z = 0; z < nz; z++) {
                size_t w = b ? n : want;
                if(w + 1 <= zsz[z] && n <= zsz[z]) { r = iso_strndup_from_zone(zt[z].h, src, n); if(waste(r, n > w + 1 ? n : w + 1, z) || waste(r, w + 1, z)) continue; verify(r, src, w, "iso_strndup_from_zone", b ? n : len, n); rel(r, z); }
            }
        }
        arena[alen - 1] = 0;
    }
    if(iso_strdup(NULL) || iso_strndup(NULL, len) || iso_strdup_from_zone(zt[0].h, NULL) || iso_strndup_from_zone(zt[0].h, NULL, len)) mc_fail("NULL source did not give NULL");
    for(int i = 0; i < nlive; i++) m_check(&live[i]);
    if(k % 64 == 0) m_audit();
}
static const dom_t strs = {"strings", init, 8, count, item, 1};
static const scen_t sc[] = {MC_DOM(strs)};
int main(int c, char **v) { return mc_main(c, v, sc, 1); }
