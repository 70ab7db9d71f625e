#define _GNU_SOURCE
#include "env.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

env_t env;
seg_t segs[MAXSEG];
int nsegs;
char env_msg[512];

#define REAL(x) __real_##x
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_mprotect(void *, size_t, int);
int __real_madvise(void *, size_t, int);
ssize_t __real_write(int, const void *, size_t);
void *real_mmap(void *a, size_t l, int p, int f, int fd, off_t o) { return __real_mmap(a, l, p, f, fd, o); }
int real_munmap(void *a, size_t l) { return __real_munmap(a, l); }
int real_mprotect(void *a, size_t l, int p) { return __real_mprotect(a, l, p); }
ssize_t real_write(int fd, const void *b, size_t n) { return __real_write(fd, b, n); }

static uintptr_t up_cur, down_cur, spread_cur;
typedef struct { uintptr_t a; size_t l; } hole_t;
static hole_t holes[4096];
static int nholes;

static void die(const char *m) {
    (void) !__real_write(2, m, strlen(m));
    _exit(99);
}

static int find_seg(uintptr_t a) { /* first segment with e > a */
    int lo = 0, hi = nsegs;
    while(lo < hi) {
        int m = (lo + hi) / 2;
        if(segs[m].e > a) hi = m; else lo = m + 1;
    }
    return lo;
}
static void ins(int i, uintptr_t s, uintptr_t e, int prot) {
    if(nsegs >= MAXSEG) die("env: too many segments\n");
    memmove(&segs[i + 1], &segs[i], (nsegs - i) * sizeof(seg_t));
    segs[i] = (seg_t){s, e, prot};
    nsegs++;
}
static void cut(uintptr_t a) { /* make a a segment boundary */
    int i = find_seg(a);
    if(i < nsegs && segs[i].s < a) {
        uintptr_t e = segs[i].e;
        segs[i].e = a;
        ins(i + 1, a, e, segs[i].prot);
    }
}
static void remove_range(uintptr_t s, uintptr_t e) {
    cut(s); cut(e);
    int i = find_seg(s), j = i;
    while(j < nsegs && segs[j].s < e) { env.mapped_bytes -= segs[j].e - segs[j].s; j++; }
    memmove(&segs[i], &segs[j], (nsegs - j) * sizeof(seg_t));
    nsegs -= j - i;
}
static void prot_range(uintptr_t s, uintptr_t e, int prot) {
    cut(s); cut(e);
    for(int i = find_seg(s); i < nsegs && segs[i].s < e; i++) segs[i].prot = prot;
}
static void add_range(uintptr_t s, uintptr_t e, int prot) {
    remove_range(s, e);
    ins(find_seg(s), s, e, prot);
    env.mapped_bytes += e - s;
}
int env_prot(uintptr_t a) {
    int i = find_seg(a);
    return (i < nsegs && segs[i].s <= a) ? segs[i].prot : -1;
}
const seg_t *env_seg(uintptr_t a) {
    int i = find_seg(a);
    return (i < nsegs && segs[i].s <= a) ? &segs[i] : NULL;
}
bool env_all(uintptr_t a, size_t n, int prot) {
    uintptr_t e = a + n;
    if(n == 0) return true;
    for(int i = find_seg(a); i < nsegs; i++) {
        if(segs[i].s > a || segs[i].prot != prot) return false;
        if(segs[i].e >= e) return true;
        a = segs[i].e;
    }
    return false;
}
bool env_check_maps(char *why, size_t n) {
    FILE *f = fopen("/proc/self/maps", "r");
    if(!f) return true;
    static seg_t k[MAXSEG];
    int nk = 0;
    char line[512];
    while(fgets(line, sizeof line, f)) {
        unsigned long s, e; char pr[8];
        if(sscanf(line, "%lx-%lx %4s", &s, &e, pr) == 3 && nk < MAXSEG)
            k[nk++] = (seg_t){s, e, (pr[0] == 'r' ? PROT_READ : 0) | (pr[1] == 'w' ? PROT_WRITE : 0) | (pr[2] == 'x' ? PROT_EXEC : 0)};
    }
    fclose(f);
    for(int i = 0; i < nsegs; i++) {
        uintptr_t a = segs[i].s;
        while(a < segs[i].e) {
            int j;
            for(j = 0; j < nk && !(k[j].s <= a && k[j].e > a); j++);
            if(j == nk || k[j].prot != segs[i].prot) {
                snprintf(why, n, "shadow page table disagrees with the kernel at %#lx (shadow %d, kernel %d)", a, segs[i].prot, j == nk ? -1 : k[j].prot);
                return false;
            }
            a = k[j].e;
        }
    }
    return true;
}

static struct { uintptr_t s, e; } hugeseg[256];
static int nhuge;
void env_reset(int policy) {
    memset(&env, 0, sizeof env);
    env.policy = policy;
    env.rnd_state = 0x1234567;
    const char *rm = getenv("MC_RMODE");
    if(rm) env.rmode = atoi(rm);
    nsegs = nholes = nhuge = 0;
    up_cur = 0x210000000000UL;
    down_cur = 0x2200f0000000UL;
    spread_cur = 0x100000000000UL;
}

static bool fault(int kind) {
    if(!(env.fail_mask & kind)) return false;
    env.fail_calls++;
    if(env.fail_at > 0 && (env.fail_calls == env.fail_at || (env.fail_sticky && env.fail_calls > env.fail_at))) {
        env.fails++;
        return true;
    }
    return false;
}

/* mappings of huge pages: whole huge pages only, aligned */
#define HUGE_PG (2UL << 20)
static bool huge_cut(uintptr_t a, size_t l) { /* the range cuts a huge page */
    for(int i = 0; i < nhuge; i++) if(a < hugeseg[i].e && hugeseg[i].s < a + l)
        if((a > hugeseg[i].s && a % HUGE_PG) || (a + l < hugeseg[i].e && (a + l) % HUGE_PG)) return true;
    return false;
}
static bool huge_in(uintptr_t a, size_t l) {
    for(int i = 0; i < nhuge; i++) if(a < hugeseg[i].e && hugeseg[i].s < a + l) return true;
    return false;
}
static void huge_gone(uintptr_t a, size_t l) {
    for(int i = 0; i < nhuge; i++) if(a < hugeseg[i].e && hugeseg[i].s < a + l) {
        if(a > hugeseg[i].s) { if(a + l < hugeseg[i].e && nhuge < 256) { hugeseg[nhuge].s = a + l; hugeseg[nhuge++].e = hugeseg[i].e; } hugeseg[i].e = a; }
        else if(a + l < hugeseg[i].e) hugeseg[i].s = a + l;
        else { hugeseg[i--] = hugeseg[--nhuge]; }
    }
}

static uintptr_t place_any(void *hint, size_t len);
static uintptr_t place(void *hint, size_t len, bool huge) {
    if(!huge) return place_any(hint, len);
    return (place_any(hint, len + HUGE_PG) + HUGE_PG - 1) & ~(HUGE_PG - 1);
}
static uintptr_t place_any(void *hint, size_t len) {
    uintptr_t a;
    if(up_cur == 0) { up_cur = 0x210000000000UL; down_cur = 0x2200f0000000UL; spread_cur = 0x100000000000UL; }
    switch(env.policy) {
    case PL_SPREAD:
        a = spread_cur + PAGE * 16;
        spread_cur += (len + PAGE * 32 + 0xffffffffUL) & ~0xffffffffUL;
        return a;
    case PL_REUSE:
        for(int i = nholes - 1; i >= 0; i--)
            if(holes[i].l == len) {
                a = holes[i].a;
                memmove(&holes[i], &holes[i + 1], (nholes - i - 1) * sizeof(hole_t));
                nholes--;
                { int k = find_seg(a); if(k == nsegs || segs[k].s >= a + len) return a; }
            }
        /* fall through */
    case PL_PACKED:
        a = up_cur; up_cur += len;
        return a;
    case PL_DOWN:
        down_cur -= len;
        return down_cur;
    default:
        return (uintptr_t) hint;
    }
}

#define MTE_PROT 0x20 /* memory with tags, which the kernel grants where the hardware has them */
#define TBI(a) (env.mte ? (void *) ((uintptr_t) (a) & ((1UL << 56) - 1)) : (a)) /* calls about memory take tagged addresses there */
void *__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
    const bool tags = (prot & MTE_PROT) && env.mte;
    if((prot & MTE_PROT) && !env.mte) { errno = EINVAL; return MAP_FAILED; }
    prot &= ~MTE_PROT;
    /* few systems have huge pages to give */
    if((flags & MAP_HUGETLB) && !env.huge) { errno = ENOMEM; return MAP_FAILED; }
    env.n_mmap++;
    if(fault(FK_MMAP)) { errno = ENOMEM; return MAP_FAILED; }
    size_t l = (len + PAGE - 1) & ~(PAGE - 1);
    if(len == 0 || l < len) { errno = EINVAL; return MAP_FAILED; }
    if(env.on_hint) env.on_hint((uintptr_t) addr, l);
    void *p;
    if(env.policy == PL_KERNEL || (flags & MAP_FIXED) || l > (1UL << 36)) {
        p = __real_mmap(addr, len, prot, flags | MAP_NORESERVE, fd, off);
    } else {
        bool huge = flags & MAP_HUGETLB;
        if(huge) l = (len + HUGE_PG - 1) & ~(HUGE_PG - 1), len = l;
        uintptr_t a = place(addr, l, huge);
        if(huge && nhuge < 256) { hugeseg[nhuge].s = a; hugeseg[nhuge++].e = a + l; }
        p = __real_mmap((void *) a, len, prot, (flags | MAP_NORESERVE | MAP_FIXED_NOREPLACE) & ~MAP_HUGETLB, fd, off);
        if(p != MAP_FAILED && (uintptr_t) p != a) die("env: placement refused\n");
        if(p == MAP_FAILED) die("env: mmap failed\n");
    }
    if(p != MAP_FAILED) {
        add_range((uintptr_t) p, (uintptr_t) p + l, prot);
        if(env.on_tags) env.on_tags(tags, (uintptr_t) p, l);
        if(env.on_sys) env.on_sys(FK_MMAP, (uintptr_t) p, l, flags, prot, NULL);
        if(env.on_event) env.on_event(FK_MMAP, (uintptr_t) p, l, prot);
    }
    return p;
}
void *__wrap_mmap64(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(addr, len, prot, flags, fd, off); }
int __wrap_munmap(void *addr, size_t len) {
    env.n_munmap++;
    addr = TBI(addr);
    if(fault(FK_MUNMAP)) { errno = ENOMEM; return -1; }
    if(huge_cut((uintptr_t) addr, len)) { errno = EINVAL; env.bad_munmap++; return -1; }
    int r = __real_munmap(addr, len);
    if(r == 0) {
        huge_gone((uintptr_t) addr, len);
        size_t l = (len + PAGE - 1) & ~(PAGE - 1);
        remove_range((uintptr_t) addr, (uintptr_t) addr + l);
        if(env.on_tags) env.on_tags(0, (uintptr_t) addr, l);
        if(nholes < 4096) holes[nholes++] = (hole_t){(uintptr_t) addr, l};
        if(env.on_sys) env.on_sys(FK_MUNMAP, (uintptr_t) addr, l, 0, 0, NULL);
        if(env.on_event) env.on_event(FK_MUNMAP, (uintptr_t) addr, l, 0);
    } else {
        env.bad_munmap++;
    }
    return r;
}
int __wrap_mprotect(void *addr, size_t len, int prot) {
    env.n_mprotect++;
    addr = TBI(addr);
    if((prot & MTE_PROT) && env.mte && env.on_tags) prot &= ~MTE_PROT;
    if(fault(FK_MPROTECT)) { errno = ENOMEM; return -1; }
    if(huge_cut((uintptr_t) addr, len)) { errno = EINVAL; return -1; }
    int r = __real_mprotect(addr, len, prot);
    if(r == 0) {
        size_t l = (len + PAGE - 1) & ~(PAGE - 1);
        prot_range((uintptr_t) addr, (uintptr_t) addr + l, prot);
        if(env.on_sys) env.on_sys(FK_MPROTECT, (uintptr_t) addr, l, 0, prot, NULL);
        if(env.on_event) env.on_event(FK_MPROTECT, (uintptr_t) addr, l, prot);
    }
    return r;
}
int __wrap_madvise(void *addr, size_t len, int adv) {
    env.n_madvise++;
    addr = TBI(addr);
    if(fault(FK_MADVISE)) { errno = EINVAL; return -1; }
    if(env.on_sys) env.on_sys(FK_MADVISE, (uintptr_t) addr, len, adv, 0, NULL);
    if(huge_in((uintptr_t) addr, len) && (adv == MADV_FREE || huge_cut((uintptr_t) addr, len))) { errno = EINVAL; return -1; }
    if(env.on_tags && (adv == MADV_DONTNEED || (adv == MADV_FREE && env.madv_drop))) env.on_tags(2, (uintptr_t) addr, len);
    if(adv == MADV_FREE || adv == MADV_DONTNEED)
        return env.madv_drop || adv == MADV_DONTNEED ? __real_madvise(addr, len, MADV_DONTNEED) : 0;
    return 0;
}
int __wrap_mlock(const void *addr, size_t len) {
    if(fault(FK_MLOCK)) { errno = ENOMEM; return -1; }
    if(env.on_sys) env.on_sys(FK_MLOCK, (uintptr_t) addr, len, 0, 0, NULL);
    return 0;
}
int __wrap_prctl(int op, ...) {
    va_list v;
    va_start(v, op);
    unsigned long opt = va_arg(v, unsigned long), a = va_arg(v, unsigned long), n = va_arg(v, unsigned long), nm = va_arg(v, unsigned long);
    va_end(v);
    if(fault(FK_PRCTL)) { errno = EINVAL; return -1; }
    if(op == 55) { if(!env.mte) { errno = EINVAL; return -1; } env.tagged_ctrl = opt; return 0; } /* PR_SET_TAGGED_ADDR_CTRL */
    if(env.on_sys) env.on_sys(FK_PRCTL, a, n, (long) op << 8 | (long) (opt & 0xff), 0, (const char *) nm);
    return 0;
}
ssize_t __wrap_getrandom(void *buf, size_t len, unsigned flags) {
    (void) flags;
    env.n_getrandom++;
    if(fault(FK_GETRANDOM)) { errno = EAGAIN; return -1; }
    uint8_t *b = buf;
    for(size_t i = 0; i < len; i += 8) {
        uint64_t z;
        if(env.gmode == 1) {
            z = env.gconst;
        } else {
            z = (env.rnd_state += 0x9e3779b97f4a7c15UL);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9UL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebUL;
            z ^= z >> 31;
        }
        if(env.g_flip_at == env.n_getrandom) z ^= env.g_flip;
        memcpy(b + i, &z, len - i < 8 ? len - i : 8);
    }
    return len;
}
uint64_t isoalloc_mc_rand(uint64_t val) {
    env.rcount++;
    switch(env.rmode) {
    case RM_CONST: return env.rconst;
    case RM_ALT: return env.rcount & 1;
    case RM_ALT0: return (env.rcount & 1) ^ 1;
    case RM_COUNT: return env.rcount;
    case RM_HIT: return val - val % 1000000 + 1;      /* every 'one in N' event happens */
    case RM_HITALT: return val - val % 1000000 + (env.rcount & 1); /* every second one */
    default: return val;
    }
}
/* The allocator reports through write() on stdout before it aborts */
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    if(fd == 1 || fd == 2) {
        size_t c = n < sizeof env_msg - 1 ? n : sizeof env_msg - 1;
        memcpy(env_msg, b, c);
        env_msg[c] = 0;
        if(env.on_write) return env.on_write(fd, b, n);
        if(!env.verbose) return n;
    } else if(env.capture) {
        size_t c = n < env.capture_max - env.capture_n ? n : env.capture_max - env.capture_n;
        memcpy(env.capture + env.capture_n, b, c);
        env.capture_n += c;
        return n;
    }
    return __real_write(fd, b, n);
}
