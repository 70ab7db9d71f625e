/* C05: after any history, freeing something a second time ends the process by the next
 * flush, whatever happens in between */
#include "../mm.h"
typedef struct { uint8_t *p; size_t use, req; int zone; bool perm, delayed; int form; } dead_t;
static dead_t dead[64]; static int ndead;
static size_t csz[2];
static bool mixed; /* exactly one of the two frees of the chunk is waiting in the delayed buffer */
static int npend;
static void pend(void) { /* one more delayed free: a full buffer is processed first */
    if(npend >= MC_QUARANTINE) { for(int i = 0; i < ndead; i++) dead[i].delayed = false; npend = 0; }
    npend++;
}
/* a chunk handed out again is no longer a freed one */
static void handed(uint8_t *p, size_t n) {
    for(int i = 0; i < ndead; i++)
        if(p < dead[i].p + dead[i].use && dead[i].p < p + n) {
            if(mc_doomed) {
                /* reused while one of the two frees still waits in the delayed buffer: listed
                 * finding; anything else is not */
                if(mixed) { mc_known("reuse-while-delayed", "a chunk freed twice is handed out again while one of the two frees is still delayed; processing that one releases the new allocation"); _exit(0); }
                mc_fail("a chunk freed twice was handed out again");
            }
            if(dead[i].perm) mc_fail("a permanently freed chunk was handed out");
            dead[i--] = dead[--ndead];
        }
}
static void add(void *vp, size_t n, int zone) {
    if(!vp && zone >= 0) return;
    uint8_t *p = vp;
    if(mc_doomed) { /* anything may be wrong with the heap; only the end matters */
        handed(p, n);
        for(int i = 0; i < nlive; i++) if(p < live[i].p + live[i].use && live[i].p < p + n) mc_fail("after a double free, %p was handed to two owners", vp);
        live[nlive++] = (blk_t){p, n, n, 0, zone, 0};
        return;
    }
    blk_t *b = m_add(p, n, zone);
    handed(b->p, b->use);
}
static const size_t A[] = {64, 8192, 70000};
static void o_alloc(int k) { add(iso_alloc(A[k]), A[k], -1); }
static void o_zalloc(int k) { add(iso_alloc_from_zone(zt[k].h), csz[k], k); }
enum { F_FREE, F_SIZE, F_PERM, F_REALLOC, F_ZONE, F_ZPERM, F_REALLOC0 };
static bool can_form(int f, int zone, size_t req) {
    (void) req;
    return !(f == F_ZONE || f == F_ZPERM) || zone >= 0;
}
static void release(int f, uint8_t *p, size_t req, int zone) {
    switch(f) {
    case F_FREE: iso_free(p); break;
    case F_SIZE: iso_free_size(p, req); break;
    case F_PERM: iso_free_permanently(p); break;
    case F_REALLOC: add(iso_realloc(p, 500), 500, -1); break;
    case F_REALLOC0: (void) !iso_realloc(p, 0); break;
    case F_ZONE: iso_free_from_zone(p, zt[zone].h); break;
    case F_ZPERM: iso_free_from_zone_permanently(p, zt[zone].h); break;
    }
}
/* first free: of the newest or the oldest live block */
static bool f_en(int a) { return nlive > 0 && (!(a & 8) || nlive > 1) && can_form(a & 7, live[a & 8 ? 0 : nlive - 1].zone, 0) && live[a & 8 ? 0 : nlive - 1].use >= live[a & 8 ? 0 : nlive - 1].req; }
static void o_free(int a) {
    int i = a & 8 ? 0 : nlive - 1;
    blk_t b = live[i];
    if(!mc_doomed) m_check(&b);
    memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--;
    int f = a & 7;
    bool del = f == F_FREE || f == F_REALLOC0;
    if(del) pend();
    release(f, b.p, b.req, b.zone);
    if(!mc_doomed && ndead < 60) dead[ndead++] = (dead_t){b.p, b.use, b.req, b.zone, f == F_PERM || f == F_ZPERM, del, f};
}
/* second free: of the most or least recently freed one */
static bool d_en(int a) { return !mc_doomed && ndead > 0 && (!(a & 8) || ndead > 1) && can_form(a & 7, dead[a & 8 ? 0 : ndead - 1].zone, 0); }
static void o_again(int a) {
    dead_t d = dead[a & 8 ? 0 : ndead - 1];
    bool direct = (a & 7) != F_FREE && (a & 7) != F_REALLOC0;
    mixed = direct ? d.delayed : !d.delayed;
    if(!direct && npend >= MC_QUARANTINE) mixed = true; /* the full buffer is processed before this free enters it */
    dead[0] = d; ndead = 1;
    mc_doom();
    mc_eval(1);
    mc_nontrivial((a & 7) * 131 + d.perm * 17 + d.zone + (d.use << 8) + ((uint64_t) mc_variant << 40));
    release(a & 7, d.p, d.req, d.zone);
}
static void o_flush(int k) { (void) k; iso_flush_caches(); npend = 0; for(int i = 0; i < ndead; i++) dead[i].delayed = false; if(mc_doomed) mc_fail("a double free survived a flush of the delayed frees"); }
static void leaf(void) { if(mc_doomed) o_flush(0); }
static bool undoomed(int k) { (void) k; return !mc_doomed; }
static void o_verify(int k) { (void) k; iso_verify_zones(); }
static void o_churn(int k) { /* take and hold the whole of what the class has cached */
    for(int i = 0; i < (k == 2 ? 3 : 9); i++) o_alloc(k);
}
static void o_churnfree(int k) { /* heavy use of a class: delayed frees are processed in between */
    size_t n = A[k];
    for(int i = 0; i < 3; i++) { uint8_t *p = iso_alloc(n); if(!mc_doomed) handed(p, n); if(ndead < 60 && mc_doomed) handed(p, n); pend(); iso_free(p); }
    if(mc_doomed) mc_fail("a double free survived the delayed-free buffer filling up");
}
static void o_perm_near(int k) { /* neighbours become permanently free */
    for(int i = 0; i < 2; i++) { uint8_t *p = iso_alloc(A[k]); if(!mc_doomed) handed(p, A[k]); iso_free_permanently(p); }
}
static void init(int v) {
    m_start(v);
    mc_doomed = false; ndead = 0;
    csz[0] = 64; csz[1] = 65536;
    for(int i = 0; i < 2; i++) { zt[i].h = iso_alloc_new_zone(csz[i]); }
    nzt = 2;
    /* something of every kind is already there */
    for(int i = 0; i < 3; i++) { add(iso_alloc(A[i]), A[i], -1); }
    add(iso_alloc_from_zone(zt[0].h), csz[0], 0);
    iso_flush_caches(); npend = 0;
    if(v & 1) { pend(); iso_free(iso_alloc(64)); }
}
static const op_t ops[] = {
    {"free", f_en, o_free, F_FREE}, {"free_size", f_en, o_free, F_SIZE}, {"perm", f_en, o_free, F_PERM}, {"realloc", f_en, o_free, F_REALLOC}, {"zfree", f_en, o_free, F_ZONE}, {"zperm", f_en, o_free, F_ZPERM},
    {"free_old", f_en, o_free, F_FREE | 8}, {"free_size_old", f_en, o_free, F_SIZE | 8}, {"perm_old", f_en, o_free, F_PERM | 8},
    {"again_free", d_en, o_again, F_FREE}, {"again_size", d_en, o_again, F_SIZE}, {"again_perm", d_en, o_again, F_PERM}, {"again_realloc", d_en, o_again, F_REALLOC}, {"again_realloc0", d_en, o_again, F_REALLOC0}, {"again_zone", d_en, o_again, F_ZONE}, {"again_zperm", d_en, o_again, F_ZPERM},
    {"again_old_free", d_en, o_again, F_FREE | 8}, {"again_old_size", d_en, o_again, F_SIZE | 8},
    {"alloc", NULL, o_alloc, 0}, {"alloc", NULL, o_alloc, 1}, {"alloc", NULL, o_alloc, 2}, {"zalloc", NULL, o_zalloc, 0}, {"zalloc", NULL, o_zalloc, 1},
    {"churn", NULL, o_churn, 0}, {"churnfree", NULL, o_churnfree, 0}, {"churnfree", NULL, o_churnfree, 2}, {"perm_near", undoomed, o_perm_near, 0}, {"flush", NULL, o_flush, 0}, {"verify", undoomed, o_verify, 0},
};
static const seq_t seq = {"doublefree", init, 8, ops, sizeof ops / sizeof *ops, NULL, leaf, 4, 5};
static const scen_t sc[] = {MC_SEQ(seq)};
int main(int c, char **v) { return mc_main(c, v, sc, 1); }
