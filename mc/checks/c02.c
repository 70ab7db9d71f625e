/* C02: size honoured or clean failure, over the whole domain of sizes */
#include "../mm.h"
static size_t big[512], huge[512]; static int nbig, nhuge;
#define NCLS 2048
#ifndef QS
#define QS 1
#endif
static void init(int v) { m_start(v); nbig = m_bigsizes(big); nhuge = m_hugesizes(huge); }
static long count(int v) { (void) v; return NCLS + nbig + nhuge; }

/* every API form that takes a byte count */
enum { F_ALLOC, F_CALLOC1, F_CALLOCN, F_REALLOC0, F_REALLOCP, F_RARRAY, NF };
static const char *fn[] = {"alloc", "calloc(1,n)", "calloc(n,1)", "realloc(NULL,n)", "realloc(p,n)", "reallocarray(NULL,n,1)"};
static void *call(int f, size_t n, void *p) {
    switch(f) {
    case F_ALLOC: return iso_alloc(n);
    case F_CALLOC1: return iso_calloc(1, n);
    case F_CALLOCN: return iso_calloc(n, 1);
    case F_REALLOC0: return iso_realloc(NULL, n);
    case F_REALLOCP: return iso_realloc(p, n);
    default: return iso_reallocarray(NULL, n, 1);
    }
}
static void whole(blk_t *b) { /* really usable, first to last byte */
    if(b->use <= 1 << 20) { memset(b->p, 0xa5, b->use); for(size_t i = 0; i < b->use; i += 1) if(b->p[i] != 0xa5) mc_fail("byte %zu of %p does not hold its value", i, (void *) b->p); }
    m_fill(b);
}
static size_t hn; static int hf; static void *hp;
static void try_huge(void *a) {
    (void) a;
    void *r = call(hf, hn, hp);
    if(r != NULL) mc_fail("%s with n=%#zx returned %p (usable %zu), not NULL", fn[hf], hn, r, iso_chunksz(r));
    m_check_all();
    m_audit();
}
static void item(long i) {
    if(i < NCLS) {
        size_t top = (i + 1) * 32, s[] = {top - 31, top - 16, top - 1, top};
        mc_note(" sizes %zu..%zu", s[0], top);
        for(int f = 0; f < NF; f++)
            for(int k = 0; k < 4; k++) {
                if(f == F_REALLOCP) {
                    void *q = iso_alloc(40);
                    whole(m_add(iso_realloc(q, s[k]), s[k], -1));
                } else {
                    if((f == F_CALLOCN) && s[k] > 4096 && k != 3) continue;
                    whole(m_add(call(f, s[k], NULL), s[k], -1));
                }
                if(live[nlive - 1].use < s[k]) mc_fail("short");
            }
        mc_nontrivial(live[nlive - 1].use * 31 + live[nlive - 2].use);
        m_audit();
    } else if(i < NCLS + nbig) {
        size_t n = big[i - NCLS];
        mc_note(" big size %zu", n);
        for(int f = 0; f < NF; f++) {
            if((f == F_CALLOC1 || f == F_CALLOCN) && n > 1 << 24) continue; /* clearing gigabytes */
            if(f == F_RARRAY && n >= 1UL << 32) continue;
            void *q = f == F_REALLOCP ? iso_alloc(64) : NULL;
            whole(m_add(call(f, n, q), n, -1));
            mc_nontrivial(live[nlive - 1].use);
            if(n > 1 << 26) iso_free(m_take(nlive - 1).p);
        }
        m_audit();
    } else {
        hn = huge[i - NCLS - nbig];
        mc_note(" unrepresentable size %#zx", hn);
        for(hf = 0; hf < NF; hf++) {
            blk_t *b = m_add(iso_alloc(40), 40, -1);
            hp = b->p;
            int d = mc_death(try_huge, NULL);
#ifdef CFG_abortnull
            /* an array size that overflows is reported by NULL in every build */
            bool arr = hf == 1 || hf == 2 || hf == 5;
            if(d != D_ABORT && !(arr && d == D_OK)) mc_fail("%s with n=%#zx returned although built to abort on NULL (%d)", fn[hf], hn, d);
            mc_eval(1);
            continue;
#endif
            if(d != D_OK) mc_fail("%s with n=%#zx ended the process (%d)", fn[hf], hn, d);
            mc_nontrivial(hn ^ hf);
        }
    }
}
static const dom_t sizes = {"sizes", init, 4, count, item, 1};

/* requests of several sizes in every order, so that each is served by whatever zone the
 * earlier ones left in the thread's cache of zones (built with a cache of two) */
static void init2(int v) {
    /* each of these needs a zone of its own, even when the larger zones exist already */
    static const size_t sz[] = {60, 1000, 8190, 30000, 65536};
    m_start(v & 3);
    if(v & 4) for(int r = 0; r < 2; r++) for(int i = 0; i < 5; i++) m_add(iso_alloc(sz[i]), sz[i], -1);
    iso_flush_caches();
}
static void c_alloc(int n) { m_add(iso_alloc(n), n, -1); }
static void c_calloc(int n) { m_add(iso_calloc(1, n), n, -1); }
static bool c_has(int a) { (void) a; return nlive > 0; }
static void c_realloc(int n) { blk_t b = m_take(nlive - 1); m_add(iso_realloc(b.p, n), n, -1); }
static void c_free(int a) { blk_t b = m_take(a & 2 ? 0 : nlive - 1); if(a & 1) iso_free_permanently(b.p); else iso_free_size(b.p, b.req); }
static void c_flush(int a) { (void) a; iso_flush_caches(); }
static const op_t cops[] = {
    {"alloc", NULL, c_alloc, 20}, {"alloc", NULL, c_alloc, 60}, {"alloc", NULL, c_alloc, 120}, {"alloc", NULL, c_alloc, 500}, {"alloc", NULL, c_alloc, 1024}, {"calloc", NULL, c_calloc, 2000}, {"alloc", NULL, c_alloc, 8190}, {"alloc", NULL, c_alloc, 30000},
    {"realloc", c_has, c_realloc, 250}, {"realloc", c_has, c_realloc, 4000}, {"free_size", c_has, c_free, 0}, {"free_size first", c_has, c_free, 2}, {"free_perm", c_has, c_free, 1}, {"flush", NULL, c_flush, 0},
};
static const seq_t cached = {"cached", init2, 8, cops, sizeof cops / sizeof *cops, m_check_all, m_audit, 3, 5};
static const scen_t sc[] = {MC_DOM(sizes), MC_SEQ(cached)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
