/* Every mapping the allocator makes is followed through the shadow page table:
 * guard_event records them, check_guards judges the current page table. */
#pragma once
#include "mm.h"
#if BIG_ZONE_GUARD && BIG_ZONE_META_DATA_GUARD
#define ALLBIG 1
#else
#define ALLBIG 0
#endif
typedef struct { uintptr_t s, e; bool big; } map_t;
static map_t maps[4096]; static int nmaps;
static bool in_big;
static long ev_seen;
static map_t *mapof(uintptr_t a) { for(int i = nmaps - 1; i >= 0; i--) if(maps[i].s <= a && a < maps[i].e) return &maps[i]; return NULL; }
static void guard_event(int kind, uintptr_t a, size_t n, int prot) {
    ev_seen++;
    if(kind == FK_MMAP) {
        if(nmaps >= 4096) { for(int i = 0, j = 0; i < nmaps; i++) { if(env_prot(maps[i].s) >= 0 || env_prot(maps[i].e - PAGE) >= 0) maps[j++] = maps[i]; if(i == nmaps - 1) nmaps = j; } if(nmaps >= 4000) mc_fail("harness: too many mappings"); }
        maps[nmaps++] = (map_t){a, a + n, in_big};
    }
}
/* a page that has been inaccessible once stays so: compared with the state at the last check */
static seg_t last[MAXSEG]; static int nlast;
static void check_guards(void) {
    for(int i = 0; i < nsegs; i++) {
        if(segs[i].prot == PROT_NONE) continue;
        map_t *m = mapof(segs[i].s);
        if(!m) mc_fail("harness: unknown mapping");
        if(m->big && !ALLBIG) continue;
        uintptr_t q[2] = {segs[i].s - PAGE, segs[i].e};
        for(int k = 0; k < 2; k++) {
            int pr = env_prot(q[k]);
            if(pr == PROT_NONE) continue;
            if(pr > 0 && q[k] >= m->s && q[k] < m->e) continue; /* same mapping, same access: not a border */
            mc_fail("%s of %#lx..%#lx (mapping of %zu bytes) there is %s instead of a guard page", k ? "after the end" : "before the start", segs[i].s, segs[i].e, m->e - m->s, pr < 0 ? "unmapped memory" : "accessible memory");
        }
        mc_eval(1);
    }
    for(int i = 0; i < nlive; i++) {
        if(live[i].use == 0) continue;
        uintptr_t a = (uintptr_t) live[i].p, s, e;
        if(!env_all(a, live[i].use, RW)) mc_fail("user memory reaches into a guard page");
        if(live[i].req > 65536 && !ALLBIG) continue;
        const seg_t *g = env_seg(a); s = g->s; e = g->e;
        while(env_prot(s - PAGE) == RW && mapof(s - PAGE) == mapof(a)) s = env_seg(s - PAGE)->s;
        while(env_prot(e) == RW && mapof(e) == mapof(a)) e = env_seg(e)->e;
        if(live[i].req <= 65536 && e - s != 4194304) mc_fail("the region of a small chunk has %zu accessible bytes between its guards instead of 4 MB", e - s);
    }
    /* guards of regions that still exist have not become accessible */
    for(int i = 0; i < nlast; i++) if(last[i].prot == PROT_NONE)
        for(int j = 0; j < nsegs; j++) if(segs[j].prot != PROT_NONE && segs[j].s < last[i].e && last[i].s < segs[j].e) {
            map_t *m = mapof(segs[j].s);
            bool again = false; /* remapped meanwhile? */
            for(int k = 0; k < nmaps; k++) if(maps[k].s < last[i].e && last[i].s < maps[k].e && &maps[k] != m) again = true;
            if(!again && !m->big) mc_fail("guard page %#lx became accessible", segs[j].s);
        }
    memcpy(last, segs, nsegs * sizeof *segs); nlast = nsegs;
}
