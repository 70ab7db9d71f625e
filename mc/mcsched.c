#define _GNU_SOURCE
#include "mcsched.h"
#include <linux/futex.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>

extern bool mc_child_bad(int st, const char *what);
extern void mc_sched_stat(long schedules, long points, long accesses);

sthread_t sch_prog[SCH_MAXT];
int sch_nt;
bool sch_report_races;

/* ---- per execution state (only ever touched by the one running thread) ---- */
#define MAXPT 4000
typedef struct { uint8_t en, chosen, cur, cost; } pt_t;
typedef struct { int n; int overflow; long accesses; pt_t p[MAXPT]; } tr_t;
static tr_t *tr;
static uint8_t prefix[MAXPT];
static int prefixlen;
static bool active;
static int cur, npt;
static int go[SCH_MAXT], done_w;
static bool fin_t[SCH_MAXT];
static const void *want[SCH_MAXT];    /* mutex waited for */
static volatile uint8_t *spin[SCH_MAXT]; /* flag spun on */
static int spins[SCH_MAXT];
static int chwait[SCH_MAXT];
static bool posted[32];
static int held[SCH_MAXT];
static uint32_t vc[SCH_MAXT][SCH_MAXT];
static uint32_t chvc[32][SCH_MAXT];
typedef struct { const void *a; int owner; uint32_t vc[SCH_MAXT]; } lk_t;
#define MAXLK 64
static lk_t lk[MAXLK]; static int nlk;
static __thread int self = -1;
static char *stacks;
#define STK (256 * 1024UL)

bool sch_active(void) { return active; }
int sch_self(void) { return self; }
static void fwait(int *w) { while(__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); }
static void fwake(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

static lk_t *lock_of(const void *a) {
    for(int i = 0; i < nlk; i++) if(lk[i].a == a) return &lk[i];
    if(nlk == MAXLK) mc_fail("harness: too many locks");
    lk[nlk] = (lk_t){a, -1, {0}};
    return &lk[nlk++];
}
static bool can_run(int t) {
    if(fin_t[t]) return false;
    if(want[t]) return lock_of(want[t])->owner == -1;
    if(spin[t]) return *spin[t] == 0;
    if(chwait[t] >= 0) return posted[chwait[t]];
    return true;
}
/* the running thread gives the scheduler a chance; returns when it runs again */
static void reschedule(void) {
    int me = self, en = 0, ne = 0, first = -1;
    for(int t = 0; t < sch_nt; t++) if(can_run(t)) { en |= 1 << t; ne++; if(first < 0) first = t; }
    if(ne == 0) {
        bool all = true;
        char b[200]; int l = 0; b[0] = 0;
        for(int t = 0; t < sch_nt; t++) if(!fin_t[t]) { all = false; l += snprintf(b + l, sizeof b - l, " thread %d waits for %s %p;", t, want[t] ? "lock" : spin[t] ? "flag" : "message", want[t] ? want[t] : (void *) spin[t]); }
        if(!all) mc_fail("deadlock:%s", b);
        fwake(&done_w);
        return;
    }
    int next = (en >> me) & 1 ? me : first;
    if(ne > 1) {
        if(npt < prefixlen) next = prefix[npt];
        if(!((en >> next) & 1)) mc_fail("harness: replay diverged at point %d", npt);
        if(npt < MAXPT) tr->p[npt] = (pt_t){en, next, me, ((en >> me) & 1) && next != me};
        else tr->overflow = 1;
        npt++;
        tr->n = npt;
    }
    cur = next;
    if(next == me) return;
    bool leave = fin_t[me];
    if(!leave) __atomic_store_n(&go[me], 0, __ATOMIC_RELEASE);
    fwake(&go[next]);
    if(leave) return;
    fwait(&go[me]);
}
void sch_point(void) { if(active && self >= 0) reschedule(); }
static void acquire(uint32_t *v) { if(self >= 0) for(int i = 0; i < sch_nt; i++) if(vc[self][i] < v[i]) vc[self][i] = v[i]; }
static void release(uint32_t *v) { if(self >= 0) { for(int i = 0; i < sch_nt; i++) if(v[i] < vc[self][i]) v[i] = vc[self][i]; vc[self][self]++; } }
void sch_post(int ch) { posted[ch] = true; release(chvc[ch]); }
void sch_wait(int ch) { if(active && !posted[ch]) { chwait[self] = ch; reschedule(); chwait[self] = -1; } acquire(chvc[ch]); }

int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    lk_t *l = lock_of(m);
    (void) *(volatile char *) m; /* as the real call would */
    int me = active ? self : 99;
    if(l->owner == me) mc_fail("deadlock: a thread locks %p, which it holds already", (void *) m);
    if(active) { want[self] = m; reschedule(); want[self] = NULL; held[self]++; }
    if(l->owner != -1) mc_fail("deadlock: lock %p is still held", (void *) m);
    l->owner = me;
    if(active) acquire(l->vc);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    lk_t *l = lock_of(m);
    if(active) reschedule();
    if(l->owner != -1) return EBUSY;
    l->owner = active ? self : 99;
    if(active) { held[self]++; acquire(l->vc); }
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    lk_t *l = lock_of(m);
    int me = active ? self : 99;
    if(l->owner != me) mc_fail("lock %p is released by a thread that does not hold it", (void *) m);
    if(active) { release(l->vc); held[self]--; }
    l->owner = -1;
    return 0;
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a) { (void) a; lk_t *l = lock_of(m); if(l->owner != -1) mc_fail("lock %p is initialised while held", (void *) m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; return 0; }

/* ---- happens-before checker ---- */
typedef struct { uint32_t w[SCH_MAXT], r[SCH_MAXT], wpc[SCH_MAXT], rpc[SCH_MAXT]; uint8_t wm[SCH_MAXT], rm[SCH_MAXT]; } gr_t;
#define NSP 4096
static uintptr_t sp_key[NSP];
static gr_t *sp_val[NSP];
static char *slab, *slab_end;
static gr_t *shadow_page(uintptr_t pg) {
    unsigned h = (pg * 0x9e3779b97f4a7c15UL) >> 52;
    for(;; h = (h + 1) & (NSP - 1)) {
        if(sp_key[h] == pg) return sp_val[h];
        if(sp_key[h] == 0) break;
    }
    if(slab + 512 * sizeof(gr_t) > slab_end) {
        slab = real_mmap(NULL, 64UL << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(slab == MAP_FAILED) mc_fail("harness: no shadow memory");
        slab_end = slab + (64UL << 20);
    }
    static int used;
    if(++used > NSP * 3 / 4) mc_fail("harness: shadow table full");
    sp_key[h] = pg;
    sp_val[h] = (gr_t *) slab;
    slab += 512 * sizeof(gr_t);
    return sp_val[h];
}
static void shadow_forget(uintptr_t s, uintptr_t e) {
    for(int h = 0; h < NSP; h++)
        if(sp_key[h] && sp_key[h] << 12 >= s && sp_key[h] << 12 < e) memset(sp_val[h], 0, 512 * sizeof(gr_t));
}
static void (*user_event)(int, uintptr_t, size_t, int);
static void event(int kind, uintptr_t a, size_t n, int prot) {
    if(active && kind == FK_MMAP) shadow_forget(a, a + n);
    if(user_event) user_event(kind, a, n, prot);
}
/* granules some thread wrote while another could run: learned per program */
#define NWS (1 << 16)
static uintptr_t *wset; /* shared between executions of one program */
static bool learning;
static bool ws_has(uintptr_t g) {
    for(unsigned h = (g * 0x9e3779b97f4a7c15UL) >> 48;; h = (h + 1) & (NWS - 1)) { if(wset[h] == g) return true; if(!wset[h]) return false; }
}
static void ws_add(uintptr_t g) {
    for(unsigned h = (g * 0x9e3779b97f4a7c15UL) >> 48;; h = (h + 1) & (NWS - 1)) {
        if(wset[h] == g) return;
        if(!wset[h]) { if(wset[0] > NWS / 2) return; wset[h] = g; return; }
    }
}
static uintptr_t text_base(void);
extern char __executable_start, __etext;
static uintptr_t text_base(void) { return (uintptr_t) &__executable_start; }
static void symb(uint32_t pc, char *o, size_t n) {
    char exe[400], cmd[600];
    ssize_t l = readlink("/proc/self/exe", exe, sizeof exe - 1);
    snprintf(o, n, "pc %#x", pc);
    if(l <= 0) return;
    exe[l] = 0;
    snprintf(cmd, sizeof cmd, "addr2line -f -i -s -e '%s' %#x 2>/dev/null", exe, pc - 1);
    FILE *f = popen(cmd, "r");
    if(!f) return;
    char a[256], b[256]; size_t p = 0;
    o[0] = 0;
    while(fgets(a, sizeof a, f) && fgets(b, sizeof b, f)) {
        a[strcspn(a, "\n")] = 0; b[strcspn(b, "\n (")] = 0;
        if(p < n) p += snprintf(o + p, n - p, "%s%s (%s)", p ? " in " : "", a, b);
    }
    pclose(f);
}
static void race(uintptr_t a, int me, int ot, bool mw, bool ow, uint32_t pc, uint32_t opc) {
    if(!sch_report_races) return;
    if(getenv("MC_RACE_LOG")) { /* development aid: list them all */
        char b[100];
        int n = snprintf(b, sizeof b, "%s %#x %s %#x\n", mw ? "w" : "r", pc, ow ? "w" : "r", opc), fd = open(getenv("MC_RACE_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0600);
        if(fd >= 0) { real_write(fd, b, n); close(fd); }
        return;
    }
    char s1[300], s2[300];
    active = false;
    symb(pc, s1, sizeof s1); symb(opc, s2, sizeof s2);
    mc_fail("data race: thread %d %s %#lx at %s while thread %d %s it at %s, not ordered by any lock", me, mw ? "writes" : "reads", a, s1, ot, ow ? "wrote" : "read", s2);
}
static void gran(uintptr_t g, uint8_t mask, bool wr, uint32_t pc) {
    gr_t *x = &shadow_page(g >> 9)[g & 511];
    int me = self;
    for(int u = 0; u < sch_nt; u++) {
        if(u == me) continue;
        if((x->wm[u] & mask) && x->w[u] > vc[me][u]) race(g << 3, me, u, wr, true, pc, x->wpc[u]);
        if(wr && (x->rm[u] & mask) && x->r[u] > vc[me][u]) race(g << 3, me, u, wr, false, pc, x->rpc[u]);
    }
    uint32_t c = vc[me][me];
    if(wr) {
        if(x->w[me] == c) x->wm[me] |= mask; else { x->w[me] = c; x->wm[me] = mask; }
        x->wpc[me] = pc;
        if(learning) ws_add(g);
    } else {
        if(x->r[me] == c) x->rm[me] |= mask; else { x->r[me] = c; x->rm[me] = mask; }
        x->rpc[me] = pc;
    }
}
static bool noswitch;
static void access_(const void *p, size_t n, bool wr, void *ra) {
    if(!active || self < 0 || n == 0) return;
    uintptr_t a = (uintptr_t) p, e = a + n;
    if(a >= (uintptr_t) stacks && a < (uintptr_t) stacks + STK * SCH_MAXT) return;
    tr->accesses++;
    uint32_t pc = (uint32_t) ((uintptr_t) ra - text_base());
    if(held[self] == 0 && !learning && !noswitch) {
        /* an unprotected access to something that is written concurrently: others may go first */
        for(uintptr_t g = a >> 3; g <= (e - 1) >> 3 && g < (a >> 3) + 64; g++) if(ws_has(g)) { reschedule(); break; }
    }
    for(uintptr_t g = a >> 3; g <= (e - 1) >> 3; g++) {
        uint8_t m = 0xff;
        if(g == a >> 3) m &= 0xff << (a & 7);
        if(g == (e - 1) >> 3) m &= 0xff >> (7 - ((e - 1) & 7));
        gran(g, m, wr, pc);
    }
}
void sch_write(const void *p, size_t n) { noswitch = true; access_(p, n, true, __builtin_return_address(0)); noswitch = false; }
void sch_read(const void *p, size_t n) { noswitch = true; access_(p, n, false, __builtin_return_address(0)); noswitch = false; }
#define RA __builtin_return_address(0)
#define ACC(n) \
    void __tsan_read##n(void *p) { access_(p, n, false, RA); } \
    void __tsan_write##n(void *p) { access_(p, n, true, RA); } \
    void __tsan_unaligned_read##n(void *p) { access_(p, n, false, RA); } \
    void __tsan_unaligned_write##n(void *p) { access_(p, n, true, RA); } \
    void __tsan_volatile_read##n(void *p) { access_(p, n, false, RA); } \
    void __tsan_volatile_write##n(void *p) { access_(p, n, true, RA); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access_(p, n, false, RA); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access_(p, n, true, RA); } \
    void __tsan_read_write##n(void *p) { access_(p, n, true, RA); } \
    void __tsan_unaligned_read_write##n(void *p) { access_(p, n, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, unsigned long n) { access_(p, n, false, RA); }
void __tsan_write_range(void *p, unsigned long n) { access_(p, n, true, RA); }
void __tsan_vptr_read(void **p) { access_(p, 8, false, RA); }
void __tsan_vptr_update(void **p, void *v) { (void) v; access_(p, 8, true, RA); }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_(s, n, false, RA); access_(d, n, true, RA); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_(s, n, false, RA); access_(d, n, true, RA); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, true, RA); return memset(d, c, n); }
/* calls to the uninstrumented C library */
static void at_sync(const volatile void *a, int mo, bool st) {
    if(!active || self < 0 || mo == __ATOMIC_RELAXED) return;
    lk_t *l = lock_of((const void *) a);
    if(mo != __ATOMIC_RELEASE) acquire(l->vc);
    if(st && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(l->vc);
}
static void flag_clear(const volatile void *a) {
    lk_t *l = lock_of((const void *) a);
    int me = active ? self : 99;
    if(l->owner == me) { l->owner = -1; if(active) held[self]--; }
    else if(l->owner != -1) mc_fail("spin lock %p is released by a thread that does not hold it", (void *) a);
}
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T *a, int mo) { sch_point(); at_sync(a, mo, false); return *a; } \
    void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { at_sync(a, mo, true); if(n == 8) flag_clear(a); *a = v; } \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) { sch_point(); at_sync(a, mo, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) { sch_point(); at_sync(a, mo, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) { sch_point(); at_sync(a, mo, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo) { sch_point(); at_sync(a, mo, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int mo) { sch_point(); at_sync(a, mo, true); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) { (void) f; sch_point(); at_sync(a, mo, true); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, mo, f); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
#define XC(n, T) T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { sch_point(); at_sync(a, mo, true); T o = *a; *a = v; return o; }
XC(16, uint16_t) XC(32, uint32_t) XC(64, uint64_t)
/* test-and-set flags are the spin locks of this library */
uint8_t __tsan_atomic8_exchange(volatile uint8_t *a, uint8_t v, int mo) {
    if(active && self >= 0) {
        if(spins[self] > 0) spin[self] = a;   /* the second failing attempt in a row waits for a change */
        reschedule();
        spin[self] = NULL;
    }
    uint8_t o = *a;
    *a = v;
    if(active && self >= 0) {
        if(o == 0) { at_sync(a, mo, true); spins[self] = 0; if(v) { held[self]++; lock_of((const void *) a)->owner = self; } }
        else {
            if(lock_of((const void *) a)->owner == self) mc_fail("deadlock: a thread spins on %p, which it holds already", (void *) a);
            spins[self]++;
        }
    } else {
        if(o && v) mc_fail("deadlock: a spin lock is taken twice");
        if(v) lock_of((const void *) a)->owner = 99;
    }
    return o;
}
#undef AT
void __tsan_atomic_thread_fence(int mo) { (void) mo; }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }

/* ---- executions ---- */
static void *thread_main(void *v) {
    int t = (int) (intptr_t) v;
    self = t;
    fwait(&go[t]);
    for(int i = 0; i < sch_prog[t].n; i++) {
        const sop_t *o = sch_prog[t].op[i];
        o->fn(t, o->arg);
    }
    fin_t[t] = true;
    reschedule();
    return NULL;
}
static void execution(void (*fin)(void)) {
    user_event = env.on_event;
    env.on_event = event;
    pthread_t th[SCH_MAXT];
    npt = 0; tr->n = 0; tr->overflow = 0;
    memset(vc, 0, sizeof vc);
    for(int t = 0; t < SCH_MAXT; t++) { vc[t][t] = 1; chwait[t] = -1; }
    for(int t = 0; t < sch_nt; t++) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stacks + t * STK, STK);
        if(pthread_create(&th[t], &at, thread_main, (void *) (intptr_t) t)) mc_fail("harness: no thread");
    }
    /* the first thread to run is a choice as well */
    active = true;
    int en = (1 << sch_nt) - 1, first = 0;
    if(npt < prefixlen) first = prefix[npt];
    tr->p[npt++] = (pt_t){en, first, 0, 0};
    tr->n = npt;
    cur = first;
    fwake(&go[first]);
    fwait(&done_w);
    active = false;
    for(int t = 0; t < sch_nt; t++) pthread_join(th[t], NULL);
    for(int i = 0; i < nlk; i++) if(lk[i].owner != -1) mc_fail("lock %p is still held after every call returned", lk[i].a);
    for(int t = 0; t < sch_nt; t++) if(held[t]) { /* spin flags */ if(held[t] > 0) mc_fail("a spin lock is still held after every call returned"); }
    env.on_event = user_event;
    if(fin) fin();
}
typedef struct { int n, cost; uint8_t *c; } work_t;
static void run_one(void (*fin)(void), size_t base) {
    /* the trace of this execution, for messages */
    mc_trace[base] = 0;
    char b[512]; int l = 0;
    for(int i = 0; i < prefixlen && l < 480; i++) l += snprintf(b + l, sizeof b - l, "%d", prefix[i]);
    b[l] = 0;
    mc_note(" schedule %s", l ? b : "-");
    pid_t p = fork();
    if(p == 0) {
        struct itimerval it = {{0, 0}, {20, 0}};
        setitimer(ITIMER_REAL, &it, NULL);
        execution(fin);
        _exit(0);
    }
    if(p < 0) mc_fail("harness: fork failed");
    int st;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR);
    if(mc_child_bad(st, "schedule")) _exit(EX_VIOL);
    if(tr->overflow) mc_fail("harness: execution with more than %d scheduling points", MAXPT);
}
void sch_explore(int bound, void (*fin)(void)) {
    if(!tr) {
        tr = real_mmap(NULL, sizeof *tr, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        wset = real_mmap(NULL, NWS * sizeof *wset, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        stacks = real_mmap(NULL, STK * SCH_MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    size_t base = strlen(mc_trace);
    for(int t = 0; t < sch_nt; t++) {
        mc_note(" T%d:", t);
        for(int i = 0; i < sch_prog[t].n; i++) mc_note("%s%s(%d)", i ? "," : "", sch_prog[t].op[i]->name, sch_prog[t].op[i]->arg);
    }
    base = strlen(mc_trace);
    struct itimerval it = {{0, 0}, {800, 0}};
    setitimer(ITIMER_REAL, &it, NULL);
    const char *fixed = getenv("MC_SCHED");
    if(fixed) {
        for(prefixlen = 0; fixed[prefixlen] >= '0' && fixed[prefixlen] <= '9'; prefixlen++) prefix[prefixlen] = fixed[prefixlen] - '0';
        run_one(fin, base);
        return;
    }
    /* what is written at all: each thread first once */
    learning = true;
    for(int f = 0; f < sch_nt; f++) { prefix[0] = f; prefixlen = 1; run_one(fin, base); }
    learning = false;
    static work_t stk[200000];
    int ns = 0;
    long runs = 0, pts = 0, acc = 0;
    stk[ns++] = (work_t){0, 0, NULL};
    while(ns) {
        work_t w = stk[--ns];
        if(w.n) memcpy(prefix, w.c, w.n);
        prefixlen = w.n;
        free(w.c);
        run_one(fin, base);
        runs++; pts += tr->n; acc += tr->accesses; tr->accesses = 0;
        int cost = 0;
        for(int i = 0; i < w.n; i++) cost += tr->p[i].cost;
        for(int i = w.n; i < tr->n; i++) {
            /* alternatives at point i; everything before it as executed (default choices cost nothing) */
            for(int t = 0; t < sch_nt; t++) {
                if(!((tr->p[i].en >> t) & 1) || t == tr->p[i].chosen) continue;
                int c = cost + (i > 0 && ((tr->p[i].en >> tr->p[i].cur) & 1) && t != tr->p[i].cur);
                if(c > bound) continue;
                if(ns >= 200000) mc_fail("harness: schedule stack full");
                uint8_t *q = malloc(i + 1);
                for(int k = 0; k < i; k++) q[k] = tr->p[k].chosen;
                q[i] = t;
                stk[ns++] = (work_t){i + 1, c, q};
            }
        }
    }
    mc_trace[base] = 0;
    mc_note(": %ld schedules", runs);
    mc_sched_stat(runs, pts, acc);
    mc_eval(acc);
}
