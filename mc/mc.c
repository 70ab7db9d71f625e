#define _GNU_SOURCE
#include "mc.h"
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <stdatomic.h>
#include <time.h>

#define NSAMP 12
typedef struct {
    atomic_long next;
    atomic_long schedules, points, accesses;
    atomic_long states, transitions, leaves, evals, deaths, items, maxdepth;
    atomic_int viol;
    char msg[1024];
    char trace[2048];
    char lastlog[512];
    atomic_int nsamp;
    char samp[NSAMP][400];
    /* small lock-free set of distinct non-trivial outcomes */
    atomic_ulong set[1 << 18];
    atomic_long distinct;
    char livelog[512];
    atomic_int nknown;
    struct { char id[48]; char what[300]; } known[16];
} shared_t;
static shared_t *sh;

bool mc_thorough;
int mc_variant;
char mc_trace[2048];
int mc_death_status;
bool mc_doomed;
static int workers = 8, depth_max;
static const seq_t *S;
static const dom_t *D;
static int path[64], pathlen;
static bool in_death;
static char *msgp;

void __wrap_abort(void) {
    if(env.on_abort) { void (*f)(void) = env.on_abort; env.on_abort = NULL; f(); }
    if(mc_doomed && !in_death) { atomic_fetch_add(&sh->deaths, 1); _exit(0); }
    if(sh && !in_death) memcpy(sh->livelog, env_msg, sizeof sh->livelog);
    _exit(EX_ABORT);
}

static void doom_sig(int s) { (void) s; if(mc_doomed && !in_death) { atomic_fetch_add(&sh->deaths, 1); _exit(0); } signal(s, SIG_DFL); raise(s); }
void mc_doom(void) {
    mc_doomed = true;
    signal(SIGSEGV, doom_sig); signal(SIGBUS, doom_sig);
}

void mc_note(const char *fmt, ...) {
    size_t n = strlen(mc_trace);
    va_list a; va_start(a, fmt);
    if(n < sizeof mc_trace - 8) {
        vsnprintf(mc_trace + n, sizeof mc_trace - n, fmt, a);
    }
    va_end(a);
}
static void set_viol(const char *msg) {
    int z = 0;
    if(atomic_compare_exchange_strong(&sh->viol, &z, 1)) {
        snprintf(sh->msg, sizeof sh->msg, "%s", msg);
        snprintf(sh->trace, sizeof sh->trace, "%s", mc_trace);
    }
}
void mc_fail(const char *fmt, ...) {
    char b[1024];
    va_list a; va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    set_viol(b);
    _exit(EX_VIOL);
}
void mc_eval(long n) { atomic_fetch_add(&sh->evals, n); }
void mc_nontrivial(uint64_t k) {
    k = (k ^ (k >> 31)) * 0x9e3779b97f4a7c15UL; k ^= k >> 29;
    if(k == 0) k = 1;
    unsigned long m = (1 << 18) - 1, i = k & m;
    for(int n = 0; n < 64; n++, i = (i + 1) & m) {
        unsigned long v = atomic_load(&sh->set[i]);
        if(v == k) return;
        if(v == 0) {
            if(atomic_compare_exchange_strong(&sh->set[i], &v, k)) { atomic_fetch_add(&sh->distinct, 1); return; }
            if(v == k) return;
        }
    }
}
void mc_sample(const char *fmt, ...) {
    int i = atomic_fetch_add(&sh->nsamp, 1);
    if(i >= NSAMP) { atomic_fetch_sub(&sh->nsamp, 1); return; }
    va_list a; va_start(a, fmt);
    vsnprintf(sh->samp[i], sizeof sh->samp[i], fmt, a);
    va_end(a);
}
void mc_known(const char *id, const char *fmt, ...) {
    int n = atomic_load(&sh->nknown);
    for(int i = 0; i < n && i < 16; i++) if(!strcmp(sh->known[i].id, id)) return;
    n = atomic_fetch_add(&sh->nknown, 1);
    if(n >= 16) { atomic_fetch_sub(&sh->nknown, 1); return; }
    va_list a; va_start(a, fmt);
    vsnprintf(sh->known[n].what, sizeof sh->known[n].what, fmt, a);
    va_end(a);
    snprintf(sh->known[n].id, sizeof sh->known[n].id, "%s", id);
}
static void limits(int secs) {
    struct itimerval it = {{0, 0}, {secs, 0}};
    setitimer(ITIMER_REAL, &it, NULL);
}
int mc_death(void (*fn)(void *), void *arg) {
    fflush(NULL);
    pid_t p = fork();
    if(p == 0) {
        in_death = true;
        limits(30);
        fn(arg);
        _exit(0);
    }
    int st;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR);
    mc_death_status = st;
    atomic_fetch_add(&sh->deaths, 1);
    if(WIFSIGNALED(st)) {
        if(WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL) return D_OTHER;
        return D_SIGNAL;
    }
    if(WEXITSTATUS(st) == 0) return D_OK;
    if(WEXITSTATUS(st) == EX_ABORT) return D_ABORT;
    if(WEXITSTATUS(st) == EX_VIOL) _exit(EX_VIOL);
    return D_OTHER;
}

static void path_note(void) {
    mc_trace[0] = 0;
    for(int i = 0; i < pathlen; i++) mc_note("%s%s(%d)", i ? " ; " : "", S->ops[path[i]].name, S->ops[path[i]].arg);
}
static bool child_bad(int st, const char *what) {
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if(atomic_load(&sh->viol)) return true;
    char b[900];
    if(WIFSIGNALED(st)) snprintf(b, sizeof b, "%s: killed by signal %d (%s)", what, WTERMSIG(st), strsignal(WTERMSIG(st)));
    else if(WEXITSTATUS(st) == EX_ABORT) snprintf(b, sizeof b, "%s: the allocator aborted: %.400s", what, sh->livelog);
    else snprintf(b, sizeof b, "%s: unexpected exit %d", what, WEXITSTATUS(st));
    set_viol(b);
    return true;
}
bool mc_child_bad(int st, const char *what) { return child_bad(st, what); }
void mc_sched_stat(long a, long b, long c) { atomic_fetch_add(&sh->schedules, a); atomic_fetch_add(&sh->points, b); atomic_fetch_add(&sh->accesses, c); }
static void run_leaf(void) {
    pid_t p = fork();
    if(p == 0) { limits(60); S->leaf(); _exit(0); }
    int st;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR);
    if(child_bad(st, "after history, audit")) _exit(EX_VIOL);
}
static void step(int o, bool count) {
    path[pathlen++] = o;
    path_note();
    S->ops[o].run(S->ops[o].arg);
    if(S->node) S->node();
    if(count) {
        atomic_fetch_add(&sh->states, 1);
        atomic_fetch_add(&sh->transitions, 1);
        if(S->leaf && pathlen < depth_max) run_leaf();
        if(pathlen == depth_max) {
            if(S->leaf) S->leaf();
            long l = atomic_fetch_add(&sh->leaves, 1);
            if(l % 9973 == 17 || l == 0) mc_sample("%s/v%d: %s", S->name, mc_variant, mc_trace);
        }
    }
}
static bool enabled(int o) { return !S->ops[o].enabled || S->ops[o].enabled(S->ops[o].arg); }
static void dfs(void) {
    if(pathlen >= depth_max) return;
    for(int o = 0; o < S->nops; o++) {
        if(atomic_load(&sh->viol)) _exit(EX_VIOL);
        if(!enabled(o)) continue;
        pid_t p = fork();
        if(p == 0) {
            limits(600);
            step(o, true);
            dfs();
            _exit(0);
        }
        if(p < 0) { set_viol("harness: fork failed"); _exit(EX_VIOL); }
        int st;
        while(waitpid(p, &st, 0) < 0 && errno == EINTR);
        path[pathlen] = o; pathlen++; path_note(); pathlen--;
        if(child_bad(st, "operation")) _exit(EX_VIOL);
        path_note();
    }
}
static int worker_seq(int w) {
    (void) w;
    long n = S->nops, total = depth_max >= 2 ? n * n : n;
    for(;;) {
        long k = atomic_fetch_add(&sh->next, 1);
        if(k >= total || atomic_load(&sh->viol)) return 0;
        int a = depth_max >= 2 ? k / n : k, b = k % n;
        pid_t p = fork();
        if(p == 0) {
            pathlen = 0;
            if(!enabled(a)) _exit(0);
            step(a, depth_max < 2 || b == 0);
            if(depth_max >= 2) {
                if(!enabled(b)) _exit(0);
                step(b, true);
                dfs();
            }
            _exit(0);
        }
        int st;
        while(waitpid(p, &st, 0) < 0 && errno == EINTR);
        pathlen = 0; path[pathlen++] = a;
        if(depth_max >= 2) path[pathlen++] = b;
        path_note();
        if(child_bad(st, "operation")) return 1;
    }
}
static int worker_dom(long total) {
    for(;;) {
        long k = atomic_fetch_add(&sh->next, 1);
        if(k >= total || atomic_load(&sh->viol)) return 0;
        pid_t p = fork();
        if(p == 0) {
            limits(120);
            mc_trace[0] = 0;
            mc_note("item %ld", k);
            D->item(k);
            if(k % 997 == 1 || k == 0) mc_sample("%s/v%d: %s", D->name, mc_variant, mc_trace);
            _exit(0);
        }
        int st;
        while(waitpid(p, &st, 0) < 0 && errno == EINTR);
        mc_trace[0] = 0;
        mc_note("item %ld", k);
        if(child_bad(st, "item")) return 1;
        atomic_fetch_add(&sh->items, 1);
    }
}
static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for(; *s; s++) {
        if(*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if((unsigned char) *s < 32 || (unsigned char) *s > 126) fprintf(f, "\\u%04x", (unsigned char) *s);
        else fputc(*s, f);
    }
    fputc('"', f);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

/* usage: bin SCENARIO OUT.json quick|thorough [--replay VARIANT "ops or item"] */
int mc_main(int argc, char **argv, const scen_t *scens, int nscens) {
    if(argc >= 2 && !strcmp(argv[1], "--list")) {
        for(int i = 0; i < nscens; i++) printf("%s\n", *(const char **) scens[i].p);
        return 0;
    }
    if(argc < 4) return 98;
    if(getenv("MC_WORKERS")) workers = atoi(getenv("MC_WORKERS"));
    if(!getenv("MC_NOASLR")) {
        setenv("MC_NOASLR", "1", 1);
        if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    mc_thorough = !strcmp(argv[3], "thorough");
    const scen_t *sc = NULL;
    for(int i = 0; i < nscens; i++) if(!strcmp(*(const char **) scens[i].p, argv[1])) sc = &scens[i];
    if(!sc) { fprintf(stderr, "no scenario %s\n", argv[1]); return 98; }
    sh = real_mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    setvbuf(stdout, NULL, _IONBF, 0);
    double t0 = now();
    bool seq = !strcmp(sc->kind, "seq");
    if(seq) S = sc->p; else D = sc->p;
    int nv = seq ? S->variants : D->variants;
    depth_max = seq ? (mc_thorough ? S->depth_thorough : S->depth_quick) : 0;
    if(getenv("MC_DEPTH")) depth_max = atoi(getenv("MC_DEPTH"));

    if(argc >= 7 && !strcmp(argv[4], "--replay")) {
        mc_variant = atoi(argv[5]);
        (seq ? S->init : D->init)(mc_variant);
        env.verbose = true;
        if(seq) {
            char *s = strdup(argv[6]);
            for(char *t = strtok(s, ";"); t; t = strtok(NULL, ";")) {
                char nm[64]; int arg;
                while(*t == ' ') t++;
                if(sscanf(t, "%63[^(](%d)", nm, &arg) != 2) continue;
                for(int o = 0; o < S->nops; o++)
                    if(!strcmp(S->ops[o].name, nm) && S->ops[o].arg == arg) {
                        dprintf(1, "-> %s(%d)\n", nm, arg);
                        step(o, true);
                        break;
                    }
            }
        } else {
            D->item(atol(argv[6] + (strncmp(argv[6], "item ", 5) ? 0 : 5)));
        }
        if(atomic_load(&sh->viol)) dprintf(1, "violation: %s\n", sh->msg);
        return atomic_load(&sh->viol) ? 1 : 0;
    }

    int v0 = 0;
    if(getenv("MC_V0")) v0 = atoi(getenv("MC_V0"));
    if(getenv("MC_NV") && atoi(getenv("MC_NV")) < nv) nv = atoi(getenv("MC_NV"));
    if(getenv("MC_VARIANT")) { v0 = atoi(getenv("MC_VARIANT")); nv = v0 + 1; }
    int v;
    for(v = v0; v < nv && !atomic_load(&sh->viol); v++) {
        atomic_store(&sh->next, 0);
        pid_t p = fork();
        if(p == 0) {
            mc_variant = v;
            (seq ? S->init : D->init)(v);
            long total = seq ? 0 : D->count(v);
            pid_t ws[64];
            for(int w = 0; w < workers; w++) {
                ws[w] = fork();
                if(ws[w] == 0) _exit(seq ? worker_seq(w) : worker_dom(total));
            }
            int bad = 0;
            for(int w = 0; w < workers; w++) { int st; waitpid(ws[w], &st, 0); if(st) bad = 1; }
            _exit(bad);
        }
        int st;
        waitpid(p, &st, 0);
        if(st && !atomic_load(&sh->viol)) { snprintf(mc_trace, sizeof mc_trace, "init"); child_bad(st, "start state"); if(!atomic_load(&sh->viol)) set_viol("harness: start state failed"); }
        if(atomic_load(&sh->viol)) break;
    }
    FILE *f = fopen(argv[2], "w");
    if(!f) return 98;
    fprintf(f, "{\"scenario\":\"%s\",\"variants\":%d,\"depth\":%d,\"states\":%ld,\"transitions\":%ld,\"leaves\":%ld,\"items\":%ld,\"evals\":%ld,\"deaths\":%ld,\"distinct\":%ld,\"wall\":%.2f,",
            *(const char **) sc->p, nv, depth_max, (long) sh->states, (long) sh->transitions, (long) sh->leaves, (long) sh->items, (long) sh->evals, (long) sh->deaths, (long) sh->distinct, now() - t0);
    if(sh->schedules) fprintf(f, "\"schedules\":%ld,\"points\":%ld,\"accesses\":%ld,", (long) sh->schedules, (long) sh->points, (long) sh->accesses);
    fprintf(f, "\"viol\":%d,\"variant\":%d,\"msg\":", (int) sh->viol, v);
    json_str(f, sh->msg);
    fprintf(f, ",\"trace\":");
    json_str(f, sh->trace);
    fprintf(f, ",\"samples\":[");
    for(int i = 0; i < sh->nsamp && i < NSAMP; i++) { if(i) fputc(',', f); json_str(f, sh->samp[i]); }
    fprintf(f, "],\"known\":[");
    for(int i = 0; i < sh->nknown && i < 16; i++) {
        fprintf(f, "%s{\"id\":", i ? "," : ""); json_str(f, sh->known[i].id);
        fprintf(f, ",\"what\":"); json_str(f, sh->known[i].what); fputc('}', f);
    }
    fprintf(f, "]}\n");
    fclose(f);
    return atomic_load(&sh->viol) ? 1 : 0;
}
