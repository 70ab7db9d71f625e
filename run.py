#!/usr/bin/env python3
"""Builds the allocator from /repo's working tree in the configurations a property
needs, runs the explorers of that property and writes evidence/<id>.json.

usage: run.py C01 [quick|thorough]      run.py --setup      run.py --list
"""
import glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
BUILD = os.environ.get('MC_BUILD', os.path.join(VERIF, '.build'))
MC = os.path.join(VERIF, 'mc')
WRAPS = 'mmap mmap64 munmap mprotect madvise mlock prctl getrandom write abort'.split()

# Makefile defaults of the library (release build), except that nothing is hooked or
# constructed automatically: the harness decides when the heap starts to exist.
DEFAULT = dict(DISABLE_CANARY=0, SANITIZE_CHUNKS=0, FUZZ_MODE=0, PERM_FREE_REALLOC=0, MEMORY_TAGGING=0,
    ABORT_NO_ENTROPY=1, THREAD_SUPPORT=1, USE_SPINLOCK=0, SMALL_MEM_STARTUP=0, PRE_POPULATE_PAGES=0,
    UNIT_TESTING=0, MALLOC_HOOK=0, HUGE_PAGES=1, THP_PAGES=1, CPU_PIN=0, ALLOC_SANITY=0, MEMCPY_SANITY=0,
    MEMSET_SANITY=0, UNINIT_READ_SANITY=0, STRONG_SIZE_ISOLATION=0, UAF_PTR_PAGE=0, VERIFY_FREE_BIT_SLOTS=0,
    RANDOMIZE_FREELIST=1, EXPERIMENTAL=0, NAMED_MAPPINGS=0, ABORT_ON_NULL=0, NO_ZERO_ALLOCATIONS=1, USE_MLOCK=1,
    AUTO_CTOR_DTOR=0, ISO_DTOR_CLEANUP=0, SIGNAL_HANDLER=0, BIG_ZONE_META_DATA_GUARD=0, BIG_ZONE_GUARD=0,
    PROTECT_FREE_BIG_ZONES=0, MASK_PTRS=1, DONT_USE_NEON=1)
SMALL = dict(ISOALLOC_MC_ZONE_FREE_LIST_SZ=8, MC_QUARANTINE=2, MC_RETIRE=1, MC_FEW_ZONES=1, MC_BIG_FREE_LIST=2, MC_BIG_RETIRE=3)
sys.path.insert(0, MC)
from checks_table import CONFIGS, CHECKS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files():
    r = []
    for d in ('src', 'include'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.join(root, f) for f in fs]
    return r


# every access of the allocator is reported to asan.c; there is no runtime of the sanitizer
ASAN = ['-fsanitize=kernel-address'] + [x for o in ('-asan-instrumentation-with-call-threshold=0', '-asan-stack=0', '-asan-globals=0', '-asan-kernel-mem-intrinsic-prefix=1') for x in ('-mllvm', o)]


def flags(cfg):
    d = dict(DEFAULT)
    opt = dict(CONFIGS[cfg])
    cc = opt.pop('_cc', 'clang')
    o = opt.pop('_opt', '-O2')
    extra = opt.pop('_extra', [])
    tsan = opt.pop('_tsan', False)
    if opt.get('ENABLE_ASAN'):
        extra = extra + ASAN
    if opt.get('ARM_MTE'):
        extra = extra + ASAN + ['-mno-red-zone', '-D__has_feature(x)=0', '-DPROT_MTE=0x20', '-include', os.path.join(MC, 'mte_asm.h')]
    d.update(opt)
    fl = ['-D%s=%s' % kv for kv in sorted(d.items()) if kv[1] is not None]
    return cc, o, fl, extra, tsan


class BuildError(Exception):
    pass


def build(cfg, check):
    """Returns the path of the binary of checks/<check>.c linked with the allocator in configuration cfg."""
    cc, opt, fl, extra, tsan = flags(cfg)
    eng = ['env.c', 'mc.c'] + (['mcsched.c'] if tsan else []) + (['asan.c'] if '-DENABLE_ASAN=1' in fl else []) + (['mte.c'] if '-DARM_MTE=1' in fl else [])
    srcs = ['checks/' + check] + ['checks/' + os.path.basename(p) for p in sorted(glob.glob(os.path.join(MC, 'checks', check.split('.')[0] + '_*.c')))]
    deps = repo_files() + glob.glob(MC + '/*.[ch]') + glob.glob(MC + '/checks/' + check[:3] + '*') + [os.path.join(MC, s) for s in srcs]
    key = digest(deps, json.dumps([cc, opt, fl, extra, tsan, check]))
    out = os.path.join(BUILD, cfg + '-' + check.replace('.', '_') + '-' + key)
    exe = os.path.join(out, 'mc')
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, cfg + '-' + check.replace('.', '_') + '-*')):
        shutil.rmtree(old, ignore_errors=True)
    tmp = out + '.tmp%d' % os.getpid()
    os.makedirs(tmp)
    cxx = check.endswith('.cpp')
    base = ['-g', '-w', '-fno-omit-frame-pointer', '-pthread', '-I' + REPO + '/include', '-I' + MC, '-DISOALLOC_MC=1', '-DSCHED_GETCPU'] + fl
    jobs = []
    for s in sorted(glob.glob(REPO + '/src/*.c')):
        c = [cc, opt, '-std=gnu11'] + base + list(extra)
        if tsan:
            c += ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
        jobs.append(c + ['-c', s, '-o', os.path.join(tmp, 'r_' + os.path.basename(s) + '.o')])
    if cxx:
        for s in sorted(glob.glob(REPO + '/src/*.cpp')):
            jobs.append(['clang++', opt, '-std=c++17', '-DCPP_SUPPORT=1'] + base + list(extra) + ['-c', s, '-o', os.path.join(tmp, 'r_' + os.path.basename(s) + '.o')])
    for s in eng + srcs:
        comp = ['clang++', '-std=c++17', '-DCPP_SUPPORT=1', '-fno-builtin', '-fsized-deallocation'] if s.endswith('.cpp') else ['clang', '-std=gnu11']
        src = os.path.join(MC, s)
        jobs.append(comp + ['-O1' if tsan else '-O2'] + base + ['-DCFG_' + cfg, '-c', src, '-o', os.path.join(tmp, 'h_' + os.path.basename(s) + '.o')])
    with ThreadPoolExecutor(8) as ex:
        for c, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode:
                raise BuildError(shlex.join(c) + '\n' + r.stdout[-4000:])
    robj = sorted(glob.glob(tmp + '/r_*.o'))
    hook = CHECK_POST.get(check)
    if hook:
        for o in robj:
            r = sh(hook + [o])
            if r.returncode:
                raise BuildError(r.stdout)
    wraps = list(WRAPS) + CHECK_WRAPS.get(check, [])
    if '-DARM_MTE=1' in fl:
        wraps += ['getauxval']
    if tsan:
        wraps += TSAN_WRAPS
    ld = ['clang++' if cxx else 'clang', '-g', '-pthread'] + robj + sorted(glob.glob(tmp + '/h_*.o')) + ['-Wl,--wrap=' + w for w in wraps] + ['-ldl', '-lm', '-o', os.path.join(tmp, 'mc')]
    r = sh(ld)
    if r.returncode:
        raise BuildError(shlex.join(ld) + '\n' + r.stdout[-4000:])
    os.rename(tmp, out)
    return exe


def build_or_skip(cfg, check):
    """Code for other processors is built with stand-ins for their instructions. When it uses others than those,
    these configurations are left out of a check that has many more."""
    try:
        return build(cfg, check)
    except BuildError as e:
        if cfg in ('o_neon', 'o_mte') and check != 'c30.c':
            print('configuration %s left out, it cannot be built here: %s' % (cfg, str(e)[-600:]))
            return None
        raise


# The malloc replacements are renamed so that the harness keeps its own libc allocator
HOOKED = ('malloc free calloc realloc reallocarray __libc_malloc __libc_free __libc_calloc __libc_realloc __libc_reallocarray '
          '__posix_memalign posix_memalign __libc_memalign aligned_alloc memalign malloc_usable_size '
          '__malloc_hook __realloc_hook __free_hook __memalign_hook').split()
LIBC = 'memcpy memmove memset'.split()
CHECK_POST = {
    'c23.cpp': ['objcopy'] + ['--redefine-sym=%s=hk_%s' % (s, s) for s in HOOKED],
    'c19.c': ['objcopy'] + ['--redefine-sym=%s=hk_%s' % (s, s) for s in LIBC],
    'c33h.c': ['objcopy'] + ['--redefine-sym=%s=hk_%s' % (s, s) for s in LIBC],
}
CHECK_WRAPS = {'c34.c': ['sched_getcpu'], 'c32.c': ['syscall', 'ioctl', 'poll', 'read', 'pthread_create']}
TSAN_WRAPS = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_mutex_init', 'pthread_mutex_destroy']


def known():
    k = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', line.strip())
            if m:
                k[(m.group(1), m.group(2))] = m.group(3)
    return k


def run_check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    runs = [r for r in spec['runs'] if tier == 'thorough' or not r.get('thorough_only')]
    os.makedirs(BUILD, exist_ok=True)
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    binaries = sorted({(r['cfg'], r['src']) for r in runs})
    with ThreadPoolExecutor(4) as ex:
        exes = dict(zip(binaries, ex.map(lambda b: build_or_skip(*b), binaries)))
    skipped = sorted({c for (c, _), e in exes.items() if e is None})
    runs = [r for r in runs if exes[(r['cfg'], r['src'])]]
    tb = time.time() - t0
    results, viol, kf = [], None, {}
    kn = known()
    for n, r in enumerate(runs):
        exe = exes[(r['cfg'], r['src'])]
        out = os.path.join(os.path.dirname(exe), r['scen'] + '.%d.json' % n)
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ)
        for k, v in r.get('env', {}).items():
            env[k] = str(v)
        for k, v in r.get('env_' + tier, {}).items():
            env[k] = str(v)
        cmd = [exe, r['scen'], out, tier]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env)
        if not os.path.exists(out):
            print(p.stdout[-3000:])
            print('harness error: %s exited %d without a result' % (shlex.join(cmd), p.returncode))
            sys.exit(3)
        j = json.load(open(out))
        j['cfg'] = r['cfg']
        results.append(j)
        for k in j.get('known', []):
            kf.setdefault(k['id'], k['what'])
        for k, what in list(kf.items()):
            if (pid, k) not in kn and viol is None:
                viol = (r, j, env, cmd, 'unlisted finding %s: %s' % (k, what))
        if j['viol'] and viol is None:
            viol = (r, j, env, cmd, j['msg'])
        if viol:
            break
    tot = lambda f: sum(int(j.get(f, 0)) for j in results)
    samples = []
    for j in results:
        samples += ['%s/%s: %s' % (j['cfg'], j['scenario'], s) for s in j.get('samples', [])[:3]]
    cov = {
        'states': tot('states') + tot('items'),
        'transitions': tot('transitions') + tot('items'),
        'traces_validated_against_impl': tot('leaves') + tot('items') + tot('schedules'),
        'evaluations': tot('evals') + tot('deaths'),
        'distinct_nontrivial': tot('distinct'),
        'rule': spec['rule'],
        'samples': samples[:24],
        'death_executions': tot('deaths'),
        'per_run': [{k: j.get(k) for k in ('cfg', 'scenario', 'variants', 'depth', 'states', 'transitions', 'leaves', 'items', 'evals', 'deaths', 'distinct', 'schedules', 'points', 'accesses', 'wall') if k in j} for j in results],
        'bounds': spec['bounds'],
        'build_s': round(tb, 1),
        'left_out': skipped,
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': spec.get('level', 'model_checking'), 'coverage': cov, 'wall_s': round(time.time() - t0, 1)}
    if viol:
        ev['coverage']['violation'] = viol[4]
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k, what in kf.items():
        if (pid, k) in kn:
            print('KNOWN-FINDING: property=%s %s: %s' % (pid, k, kn[(pid, k)]))
    if viol:
        r, j, env, cmd, msg = viol
        rp = os.path.join(rdir, pid + '.txt')
        extra = ' '.join('%s=%s' % (k, v) for k, v in {**r.get('env', {}), **r.get('env_' + tier, {})}.items())
        with open(rp, 'w') as f:
            f.write('property: %s\nscenario: %s (configuration %s, start state %s)\n%s\n\nexecution: %s\n\nreplay: %s %s %s /dev/null %s --replay %s %s\n' % (
                pid, j['scenario'], r['cfg'], j.get('variant'), msg, j.get('trace'), extra, cmd[0], r['scen'], tier, j.get('variant'), shlex.quote(j.get('trace', ''))))
        print('%s: %s' % (pid, msg))
        print('execution: %s (start state %s of %s, configuration %s)' % (j.get('trace'), j.get('variant'), j['scenario'], r['cfg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s held: %d states, %d transitions, %d complete executions, %d evaluations, %d distinct outcomes, %.1fs' % (
        pid, cov['states'], cov['transitions'], cov['traces_validated_against_impl'], cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    return 0


def main():
    if sys.argv[1:] == ['--list']:
        print(' '.join(sorted(CHECKS)))
        return 0
    if sys.argv[1:] == ['--setup']:
        for t in ('clang', 'clang++', 'objcopy'):
            if not shutil.which(t):
                print('missing', t)
                return 1
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        print('ready: every check builds from', REPO, 'when it runs')
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        return run_check(sys.argv[1], tier)
    except BuildError as e:
        print('build error:', e)
        return 4


if __name__ == "__main__":
    sys.exit(main())
