/* C32: reading a sampled allocation before anything was written to it ends the process; nothing else does.
 * The kernel's userfaultfd is modelled: registered pages are inaccessible, an access calls the handler the
 * allocator installed until it waits for the next event, and unregistering a page makes it accessible. */
#define _GNU_SOURCE
#include "../mm.h"
#include <linux/userfaultfd.h>
#include <poll.h>
#include <pthread.h>
#include <setjmp.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <ucontext.h>

#define FD 777
static void *(*handler)(void *);
static uintptr_t reg[64]; static int nreg;
static bool api, pending, in_handler;
static struct uffd_msg msg;
static sigjmp_buf back;
static int faults;

long __real_syscall(long n, long a, long b, long c, long d, long e, long f);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f) {
    if(n == __NR_userfaultfd) return FD;
    return __real_syscall(n, a, b, c, d, e, f);
}
int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    (void) a; (void) x; *t = (pthread_t) 1; handler = f;
    return 0;
}
static bool watched(uintptr_t a) { for(int i = 0; i < nreg; i++) if(reg[i] == (a & ~(PAGE - 1))) return true; return false; }
static void drop(uintptr_t s, size_t n) { for(int i = 0; i < nreg; i++) if(reg[i] >= s && reg[i] < s + n) reg[i--] = reg[--nreg]; }
int __real_ioctl(int fd, unsigned long req, void *arg);
int __wrap_ioctl(int fd, unsigned long req, void *arg) {
    if(fd != FD) return __real_ioctl(fd, req, arg);
    if(req == UFFDIO_API) { struct uffdio_api *u = arg; if(u->api != UFFD_API) { errno = EINVAL; return -1; } u->ioctls = 1UL << _UFFDIO_REGISTER | 1UL << _UFFDIO_UNREGISTER; api = true; return 0; }
    if(!api) { errno = EINVAL; return -1; }
    struct uffdio_range r;
    if(req == UFFDIO_REGISTER) { struct uffdio_register *u = arg; r = u->range; if(!(u->mode & UFFDIO_REGISTER_MODE_MISSING)) { errno = EINVAL; return -1; } }
    else if(req == UFFDIO_UNREGISTER) r = *(struct uffdio_range *) arg;
    else if(req == UFFDIO_WAKE) return 0;
    else if(req == UFFDIO_ZEROPAGE || req == UFFDIO_COPY) mc_fail("harness: request %#lx is not modelled", req);
    else { errno = EINVAL; return -1; }
    if(r.start % PAGE || r.len % PAGE || !r.len || !env_all(r.start, r.len, RW)) { errno = EINVAL; return -1; }
    drop(r.start, r.len);
    for(uintptr_t p = r.start; p < r.start + r.len; p += PAGE) {
        if(req == UFFDIO_REGISTER) { if(nreg >= 64) mc_fail("harness: too many pages"); reg[nreg++] = p; }
        real_mprotect((void *) p, PAGE, req == UFFDIO_REGISTER ? PROT_NONE : RW);
    }
    return 0;
}
int __real_poll(struct pollfd *p, nfds_t n, int t);
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
    if(n != 1 || p->fd != FD) return __real_poll(p, n, t);
    if(pending) { p->revents = POLLIN; return 1; }
    siglongjmp(back, 1); /* it waits */
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if(fd != FD) return __real_read(fd, b, n);
    if(!pending) { if(in_handler) siglongjmp(back, 1); errno = EAGAIN; return -1; }
    memcpy(b, &msg, sizeof msg < n ? sizeof msg : n);
    pending = false;
    return sizeof msg;
}
static void segv(int s, siginfo_t *i, void *uc) {
    uintptr_t a = (uintptr_t) i->si_addr;
    if(!watched(a) || !handler || in_handler) { signal(s, SIG_DFL); return; }
    if(++faults > 4) mc_fail("the page %#lx is still watched after it was written", (unsigned long) a & ~(PAGE - 1));
    memset(&msg, 0, sizeof msg);
    msg.event = UFFD_EVENT_PAGEFAULT;
    msg.arg.pagefault.flags = ((ucontext_t *) uc)->uc_mcontext.gregs[REG_ERR] & 2 ? UFFD_PAGEFAULT_FLAG_WRITE : 0;
    msg.arg.pagefault.address = a & ~(PAGE - 1);
    msg.arg.pagefault.feat.ptid = 1;
    pending = true; in_handler = true;
    if(sigsetjmp(back, 0) == 0) { handler(NULL); mc_fail("the handler of page faults ended"); }
    in_handler = false;
}
static void ev(int k, uintptr_t a, size_t n, int p) { (void) p; if(k == FK_MUNMAP) drop(a, n); }

/* ---- model ---- */
/* tag: 0 untouched, 1 written */
static bool single(const void *p) { const seg_t *s = env_seg((uintptr_t) p); return s && s->e - s->s == PAGE; }
static void start(int v) {
    static const int pol[] = {PL_SPREAD, PL_PACKED, PL_REUSE, PL_DOWN};
    env_reset(pol[v & 3]);
    env.rmode = RM_CONST; env.rconst = 0;
    struct sigaction sa = {0};
    sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    iso_alloc_initialize();
    env.on_event = ev;
    if(!handler) mc_fail("no handler of page faults was installed");
    if(v & 4) for(int i = 0; i < 8; i++) { blk_t *b = m_add(iso_alloc(i & 1 ? 40 : 1000), i & 1 ? 40 : 1000, -1); b->tag = 1; if(i % 3 == 0) { blk_t x = m_take(nlive - 1); iso_free(x.p); } }
}
static void sampling(bool on, bool right) { env.rmode = on ? (right ? RM_HIT : RM_HITALT) : RM_CONST; env.rconst = 0; if(on && !right) env.rcount = env.rcount & ~1UL; }
static const size_t A[] = {40, 1000, 4056, 32};
/* arg: form | size << 3 | sampled << 5 | right << 6 */
static long sampled_live(void) { long n = 0; for(int i = 0; i < nlive; i++) n += single(live[i].p); return n; }
static void o_alloc(int a) {
    size_t n = A[a >> 3 & 3]; int form = a & 7;
    long room = sampled_live();
    bool on = a & 32;
    sampling(on, a & 64);
    static char str[5000]; memset(str, 'q', sizeof str); str[n - 1] = 0;
    uint8_t *p = form == 0 ? iso_alloc(n) : form == 1 ? iso_calloc(1, n) : form == 2 ? (uint8_t *) iso_strdup(str) : iso_realloc(NULL, n);
    sampling(false, false);
    blk_t *b = m_add_nofill(p, n, -1);
    if(on && room < 3 && !single(p)) mc_fail("the chosen allocation was not sampled");
    b->tag = form == 1 || form == 2 || !single(p);
    faults = 0;
    if(form == 1) for(size_t i = 0; i < n; i++) if(p[i]) mc_fail("byte %zu of a cleared allocation is %#x", i, p[i]);
    if(form == 2 && memcmp(p, str, n)) mc_fail("a duplicated string differs");
    if(!single(p) || form == 1 || form == 2) m_fill(b);
    else if(!watched((uintptr_t) p)) mc_fail("the sampled allocation %p is not watched", (void *) p);
    mc_eval(1);
}
static bool have(int a) { return nlive > (a & 1); }
static blk_t *pick(int a) { return &live[nlive - 1 - (a & 1)]; }
static volatile uint8_t sink;
static void rd(void *x) { blk_t *b = x; sink = b->p[b->tag == 2 ? b->use - 1 : 0]; }
static void o_write(int a) { blk_t *b = pick(a); faults = 0; b->p[a & 2 ? b->use - 1 : 0] = 1; if(b->tag == 0) b->tag = 1; for(size_t i = 0; i < b->use; i++) sink = b->p[i]; m_fill(b); }
/* reading what was never written has to end the process, reading the rest has not */
static void check(blk_t *b) {
    faults = 0;
    if(b->tag) { m_check(b); for(size_t i = 0; i < b->use; i++) sink = b->p[i]; return; }
    for(int k = 0; k < 2; k++) {
        b->tag = k ? 2 : 0;
        int r = mc_death(rd, b);
        if(r != D_ABORT) mc_fail("reading the untouched sampled allocation %p of %zu bytes at %s did not end the process (%d)", (void *) b->p, b->use, k ? "its last byte" : "its first byte", r);
        mc_eval(1);
    }
    b->tag = 0;
}
static blk_t take(int i) { blk_t b = live[i]; if(b.tag) m_check(&b); memmove(&live[i], &live[i + 1], (nlive - i - 1) * sizeof(blk_t)); nlive--; return b; }
/* arg: which | how << 1 */
static void o_free(int a) {
    blk_t b = take(nlive - 1 - (a & 1));
    bool s = single(b.p); uintptr_t pg = (uintptr_t) b.p & ~(PAGE - 1);
    faults = 0;
    switch(a >> 1) {
    case 0: iso_free(b.p); break;
    case 1: iso_free_size(b.p, b.req); break;
    case 2: iso_free_permanently(b.p); break;
    }
    if(s && env_prot(pg) != -1) mc_fail("a freed sampled allocation is still mapped");
}
static bool wr(int a) { return have(a) && pick(a)->tag; }
static void o_realloc(int a) {
    blk_t b = take(nlive - 1 - (a & 1));
    size_t n = a & 2 ? 2000 : 24, keep = b.use < n ? b.use : n;
    faults = 0;
    sampling(a & 4, true);
    uint8_t *p = iso_realloc(b.p, n);
    sampling(false, false);
    for(size_t i = 0; i < keep && i < (b.req < n ? b.req : n); i++) if(i < HEAD && p[i] != m_byte(b.pat, i)) mc_fail("byte %zu changed in a reallocation", i);
    blk_t *c = m_add_nofill(p, n, -1);
    c->tag = 1; m_fill(c);
}
static void node(void) { for(int i = 0; i < nlive; i++) check(&live[i]); }
static void o_misc(int k) { if(k == 0) iso_flush_caches(); else iso_verify_zones(); for(int i = 0; i < nlive; i++) (void) iso_chunksz(live[i].p); }
static void leaf(void) {
    while(nlive) { blk_t b = take(nlive & 1 ? nlive - 1 : 0); faults = 0; if(nlive % 3 == 1) iso_free_size(b.p, b.req); else iso_free(b.p); }
    m_audit();
    iso_alloc_destroy();
}
#define AL(f, z, on, r) {"alloc", NULL, o_alloc, (f) | (z) << 3 | (on) << 5 | (r) << 6}
static const op_t ops[] = {
    AL(0, 0, 1, 0), AL(0, 1, 1, 1), AL(0, 2, 1, 1), AL(0, 3, 1, 0), AL(1, 1, 1, 0), AL(1, 0, 1, 1), AL(2, 1, 1, 1), AL(3, 0, 1, 1), AL(0, 1, 0, 0),
    {"write", have, o_write, 0}, {"write", have, o_write, 1}, {"write", have, o_write, 2},
    {"free", have, o_free, 0}, {"free", have, o_free, 1}, {"free", have, o_free, 2}, {"free", have, o_free, 4},
    {"realloc", wr, o_realloc, 0}, {"realloc", wr, o_realloc, 2}, {"realloc", wr, o_realloc, 6}, {"realloc", wr, o_realloc, 4},
    {"flush", NULL, o_misc, 0}, {"verify", NULL, o_misc, 1},
};
static const seq_t history = {"history", start, 8, ops, sizeof ops / sizeof *ops, node, leaf, 3, 4};

/* every offset of many sizes: read first, write first, write then read */
typedef struct { uint16_t sz, off; uint8_t right, kind; } it_t;
static it_t *its; static long nits;
static void oinit(int v) {
    start(v);
    static const uint16_t sz[] = {32, 64, 96, 480, 1024, 2048, 4000, 4064};
    its = malloc(sizeof *its * 200000);
    for(int s = 0; s < 8; s++) for(int o = 0; o < sz[s]; o++) {
        if(!(mc_thorough || o < 40 || o > sz[s] - 40 || o % 64 == 63)) continue;
        for(int k = 0; k < 6; k++) its[nits++] = (it_t){sz[s], o, k & 1, k >> 1};
    }
}
static long ocount(int v) { (void) v; return nits; }
static it_t cur;
static uint8_t *curp;
static void rd_off(void *x) { (void) x; sink = curp[cur.off]; }
static void oitem(long k) {
    cur = its[k];
    mc_note("%u bytes, offset %u, %s aligned, kind %u", cur.sz, cur.off, cur.right ? "right" : "left", cur.kind);
    sampling(true, cur.right);
    curp = iso_alloc(cur.sz);
    sampling(false, false);
    if(!single(curp)) mc_fail("the chosen allocation was not sampled");
    if(cur.kind == 0) { int r = mc_death(rd_off, NULL); if(r != D_ABORT) mc_fail("the read before any write was not noticed (%d)", r); }
    else {
        curp[cur.off] = 7;
        if(cur.kind == 2) for(int i = 0; i < cur.sz; i++) sink = curp[i];
        if(curp[cur.off] != 7) mc_fail("a written byte changed");
    }
    faults = 0;
    if(k & 1) iso_free(curp); else iso_free_size(curp, cur.sz);
    if(env_prot((uintptr_t) curp) != -1) mc_fail("a freed sampled allocation is still mapped");
    mc_eval(1);
    mc_nontrivial(k);
}
static const dom_t offsets = {"offsets", oinit, 2, ocount, oitem, 1};
static const scen_t sc[] = {MC_SEQ(history), MC_DOM(offsets)};
int main(int c, char **v) { return mc_main(c, v, sc, 2); }
