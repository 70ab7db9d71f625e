/* Memory tagging as a model. The allocator's sources are compiled so that each access is reported
 * through the sanitizer's interface, and its tagging instructions are macros that call the functions
 * below. An access whose pointer and memory differ in their tags ends the process, as the
 * hardware does. This machine does not ignore the top byte of addresses, so an access with a
 * tagged pointer traps; it is then repeated with the tag removed. */
#define _GNU_SOURCE
#include "mc.h"
#include "mte.h"
#include <sys/prctl.h>
#include <ucontext.h>
mte_t mte;
#define NPG 65536
#define GP 256 /* granules of a page */
static struct { uintptr_t pg; bool used; } pt[NPG];
static uint8_t tagv[NPG][GP];
static long drawv[NPG][GP];
static long tag_draw[16]; /* the last draw of each tag */
static struct { uintptr_t s, e; } seg[4096];
static int nseg;
static bool tagged_mem(uintptr_t a) { for(int i = 0; i < nseg; i++) if(a >= seg[i].s && a < seg[i].e) return true; return false; }
static int slot(uintptr_t a, bool make) {
    uintptr_t pg = a / PAGE;
    for(unsigned h = (pg * 0x9e3779b97f4a7c15UL) >> 48, n = 0; n < NPG; h = (h + 1) & (NPG - 1), n++) {
        if(pt[h].used && pt[h].pg == pg) return h;
        if(!pt[h].used) { if(!make) return -1; pt[h].used = true; pt[h].pg = pg; return h; }
    }
    mc_fail("harness: too many tagged pages");
}
static void forget(uintptr_t a, size_t n) {
    for(int i = 0; i < NPG && n / PAGE > 512; i++) if(pt[i].used && pt[i].pg >= a / PAGE && pt[i].pg < (a + n) / PAGE) { memset(tagv[i], 0, GP); memset(drawv[i], 0, sizeof drawv[i]); }
    if(n / PAGE <= 512) for(uintptr_t x = a; x < a + n; x += PAGE) { int i = slot(x, false); if(i >= 0) { memset(tagv[i], 0, GP); memset(drawv[i], 0, sizeof drawv[i]); } }
}
static void on_tags(int kind, uintptr_t a, size_t n) { /* 0: memory without tags, or none any more, 1: with tags, 2: content dropped */
    forget(a, n);
    if(kind == 2) return;
    for(int i = nseg - 1; i >= 0; i--) if(seg[i].s < a + n && a < seg[i].e) {
        uintptr_t s = seg[i].s, e = seg[i].e;
        seg[i] = seg[--nseg];
        if(s < a) { seg[nseg].s = s; seg[nseg++].e = a; }
        if(e > a + n) { seg[nseg].s = a + n; seg[nseg++].e = e; }
    }
    if(nseg > 4090) mc_fail("harness: too many tagged mappings");
    if(kind == 1) { seg[nseg].s = a; seg[nseg++].e = a + n; }
}
bool mte_on(void) { return (env.tagged_ctrl & PR_TAGGED_ADDR_ENABLE) && (env.tagged_ctrl & 6); }
int mte_tag(uintptr_t a) { if(!tagged_mem(a)) return -1; int i = slot(a, false); return i < 0 ? 0 : tagv[i][a % PAGE / 16]; }
long mte_drawn(uintptr_t a) { int i = slot(a, false); return i < 0 ? 0 : drawv[i][a % PAGE / 16]; }
static uintptr_t mismatch(const void *p, size_t n) {
    uintptr_t a = (uintptr_t) UNTAG(p), e = a + n;
    if(!mte_on() || !tagged_mem(a)) return 0;
    for(uintptr_t x = a & ~15UL; x < e; x += 16) if(mte_tag(x) >= 0 && mte_tag(x) != (TAGOF(p) & 15)) return x < a ? a : x;
    return 0;
}
bool mte_ok(const void *p, size_t n) { return n == 0 || mismatch(p, n) == 0; }
static void acc(uintptr_t a, size_t n, bool w) {
    mte.accesses++;
    uintptr_t x = n ? mismatch((void *) a, n) : 0;
    if(!x) return;
    snprintf(env_msg, sizeof env_msg, "tag check fault: the allocator itself %s %zu bytes at %p, whose memory has tag %d", w ? "writes" : "reads", n, (void *) a, mte_tag(x));
    abort();
}
/* the instructions */
uintptr_t mte_irg(uintptr_t p, uint64_t excl) {
    if(!mte.present) { snprintf(env_msg, sizeof env_msg, "illegal instruction: tagging on hardware without it"); abort(); }
    static int last; /* the tag drawn before */
    /* with TCF set up the kernel's mask takes part in the exclusion */
    uint64_t inc = mte_on() ? env.tagged_ctrl >> 3 & 0xffff : 0;
    excl |= ~inc;
    int t = 0;
    for(int k = 0; k < 16; k++) {
        int c = mte.policy == 0 ? last + 1 + k : mte.policy == 1 ? (int) (mte.draws * 2654435761u >> 7) + k : mte.policy == 2 ? k : last + k;
        c &= 15;
        if(!(excl >> c & 1)) { t = c; break; }
    }
    last = t;
    tag_draw[t] = ++mte.draws;
    return (p & ~(15UL << 56)) | (uintptr_t) t << 56;
}
void mte_stg(uintptr_t p) {
    uintptr_t a = (uintptr_t) UNTAG(p);
    mte.sets++;
    if(!mte.present || a % 16) { snprintf(env_msg, sizeof env_msg, "fault: tag stored at %p", (void *) p); abort(); }
    if(env_prot(a) < 0 || !(env_prot(a) & PROT_WRITE)) { snprintf(env_msg, sizeof env_msg, "fault: tag stored at %p, which cannot be written", (void *) p); abort(); }
    if(!tagged_mem(a)) return;
    int i = slot(a, true), t = TAGOF(p) & 15;
    tagv[i][a % PAGE / 16] = t;
    drawv[i][a % PAGE / 16] = tag_draw[t];
}
uintptr_t mte_ldg(uintptr_t p) {
    uintptr_t a = (uintptr_t) UNTAG(p);
    if(!mte.present || env_prot(a) < 0) { snprintf(env_msg, sizeof env_msg, "fault: tag loaded from %p", (void *) p); abort(); }
    int t = mte_tag(a & ~15UL);
    return (p & ~(15UL << 56)) | (uintptr_t) (t < 0 ? 0 : t) << 56;
}
#define SAVE " pushq %rax\n pushq %rcx\n pushq %rdx\n pushq %rsi\n pushq %rdi\n pushq %r8\n pushq %r9\n pushq %r10\n pushq %r11\n pushq %rbp\n movq %rsp, %rbp\n subq $512, %rsp\n andq $-64, %rsp\n fxsave (%rsp)\n"
#define REST " fxrstor (%rsp)\n movq %rbp, %rsp\n popq %rbp\n popq %r11\n popq %r10\n popq %r9\n popq %r8\n popq %rdi\n popq %rsi\n popq %rdx\n popq %rcx\n popq %rax\n ret\n"
/* 10 saved registers and the return address are below the arguments */
__asm__(".globl mte_do_irg\nmte_do_irg:\n" SAVE " movq 96(%rbp), %rdi\n movq 88(%rbp), %rsi\n callq mte_irg\n movq %rax, 96(%rbp)\n" REST
        ".globl mte_do_stg\nmte_do_stg:\n" SAVE " movq 88(%rbp), %rdi\n callq mte_stg\n" REST
        ".globl mte_do_ldg\nmte_do_ldg:\n" SAVE " movq 88(%rbp), %rdi\n callq mte_ldg\n movq %rax, 88(%rbp)\n" REST);
/* accesses */
#define A(n) void __asan_load##n##_noabort(uintptr_t a) { acc(a, n, false); } void __asan_store##n##_noabort(uintptr_t a) { acc(a, n, true); }
A(1) A(2) A(4) A(8) A(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { acc(a, n, false); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { acc(a, n, true); }
void *__asan_memcpy(void *d, const void *s, size_t n) { acc((uintptr_t) s, n, false); acc((uintptr_t) d, n, true); memcpy(UNTAG(d), UNTAG(s), n); return d; }
void *__asan_memmove(void *d, const void *s, size_t n) { acc((uintptr_t) s, n, false); acc((uintptr_t) d, n, true); memmove(UNTAG(d), UNTAG(s), n); return d; }
void *__asan_memset(void *d, int c, size_t n) { acc((uintptr_t) d, n, true); memset(UNTAG(d), c, n); return d; }
void __asan_handle_no_return(void) {}
unsigned long __real_getauxval(unsigned long);
unsigned long __wrap_getauxval(unsigned long t) {
    if(t == 26) return mte.present ? 1UL << 18 : 0; /* AT_HWCAP2, HWCAP2_MTE */
    return __real_getauxval(t);
}
/* accesses with tagged pointers */
static const int regs[] = {REG_RAX, REG_RBX, REG_RCX, REG_RDX, REG_RSI, REG_RDI, REG_RBP, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
static long long was[15]; static bool cut[15];
static void on_segv(int s, siginfo_t *si, void *c) {
    greg_t *g = ((ucontext_t *) c)->uc_mcontext.gregs;
    bool any = false;
    for(int i = 0; i < 15 && si->si_code == SI_KERNEL; i++) {
        uint64_t v = g[regs[i]];
        cut[i] = v >> 60 == 0 && (v >> 56) && (v >> 47 & 0x1ff) == 0;
        if(cut[i]) { was[i] = v; g[regs[i]] = (uintptr_t) UNTAG(v); any = true; }
    }
    if(!any) { signal(s, SIG_DFL); return; }
    mte.traps++;
    g[REG_EFL] |= 0x100;
}
static void on_trap(int s, siginfo_t *si, void *c) {
    (void) s; (void) si;
    greg_t *g = ((ucontext_t *) c)->uc_mcontext.gregs;
    for(int i = 0; i < 15; i++) if(cut[i]) { if(g[regs[i]] == (long long) (uintptr_t) UNTAG(was[i])) g[regs[i]] = was[i]; cut[i] = false; }
    g[REG_EFL] &= ~0x100;
}
void mte_start(void) {
    struct sigaction sa = {0};
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sa.sa_sigaction = on_segv; sigaction(SIGSEGV, &sa, NULL);
    sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, NULL);
    env.on_tags = on_tags;
    env.mte = true;
}
