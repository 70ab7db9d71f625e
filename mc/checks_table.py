"""Build configurations and, per property, which explorations decide it."""
import os

SMALL = dict(ISOALLOC_MC_ZONE_FREE_LIST_SZ=8, MC_QUARANTINE=2, MC_RETIRE=1, MC_FEW_ZONES=1, MC_BIG_FREE_LIST=2, MC_BIG_RETIRE=3)

CONFIGS = {
    'small': SMALL,                       # lowered limits: boundaries are reached in a few operations
    'stock': {},                          # every limit as shipped
}

def R(cfg, src, scen, **kw):
    return dict(cfg=cfg, src=src, scen=scen, **kw)

CHECKS = {}

# every other option the Makefile offers (and limits at other values)
OPTS = dict(cache2=dict(MC_ZONE_CACHE=2), o_spin=dict(USE_SPINLOCK=1), o_san=dict(SANITIZE_CHUNKS=1), o_nocanary=dict(DISABLE_CANARY=1), o_smallmem=dict(SMALL_MEM_STARTUP=1, MC_FEW_ZONES=None), o_prepop=dict(PRE_POPULATE_PAGES=1),
            o_nomask=dict(MASK_PTRS=0), o_norand=dict(RANDOMIZE_FREELIST=0), o_fuzz=dict(FUZZ_MODE=1), o_protbig=dict(PROTECT_FREE_BIG_ZONES=1), o_slots=dict(VERIFY_FREE_BIT_SLOTS=1), o_zero=dict(NO_ZERO_ALLOCATIONS=0),
            o_exp=dict(EXPERIMENTAL=1), o_uaf=dict(UAF_PTR_PAGE=1), o_prof=dict(HEAP_PROFILER=1, _extra=['-fcommon']), o_named=dict(NAMED_MAPPINGS=1), o_noentropy=dict(ABORT_NO_ENTROPY=0), o_nolock=dict(USE_MLOCK=0, HUGE_PAGES=0, THP_PAGES=0), o_gcc=dict(_cc='gcc'), o_gcc3=dict(_cc='gcc', _opt='-O3'),
            o_guards=dict(BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1), o_tag=dict(MEMORY_TAGGING=1), o_nothread=dict(THREAD_SUPPORT=0), o_strong=dict(STRONG_SIZE_ISOLATION=1), o_hooks=dict(MEMCPY_SANITY=1, MEMSET_SANITY=1), o_perm=dict(PERM_FREE_REALLOC=1), o_leak=dict(LEAK_DETECTOR=1, MEM_USAGE=1), o_sane=dict(ALLOC_SANITY=1), o_debug=dict(DEBUG=1, LEAK_DETECTOR=1, MEM_USAGE=1), o_expdbg=dict(DEBUG=1, EXPERIMENTAL=1), o_asan=dict(ENABLE_ASAN=1), o_mte=dict(ARM_MTE=1))
OPTS.update(o_neon=dict(DONT_USE_NEON=0, _extra=['-D__ARM_NEON=1', '-I' + os.path.dirname(os.path.abspath(__file__)) + '/neon']), o_no128=dict(_extra=['-U__SIZEOF_INT128__']))  # the searches for free slots of other processors
for k, v in OPTS.items():
    CONFIGS[k] = {x: y for x, y in dict(SMALL, **v).items() if y is not None}
CONFIGS['mteg'] = dict(SMALL, ARM_MTE=1, BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1, SANITIZE_CHUNKS=1, MASK_PTRS=0, NO_ZERO_ALLOCATIONS=0)
CONFIGS['mten'] = dict(SMALL, ARM_MTE=1, DISABLE_CANARY=1, PERM_FREE_REALLOC=1, RANDOMIZE_FREELIST=0, PROTECT_FREE_BIG_ZONES=1)
CONFIGS['sane'] = dict(SMALL, ALLOC_SANITY=1, ISOALLOC_MC_MAX_SANE_SAMPLES=3)
def SAMPLED(src, scen, modes=(5, 6), thorough=None, **q): # with every / every second allocation that can be sampled onto pages of its own sampled
    return [R('sane', src, scen, env=dict(MC_RMODE=m), env_quick=q, **(dict(env_thorough=thorough) if thorough else {})) for m in modes]
MATRIX = []
for k in OPTS:
    MATRIX += [R(k, 'c01.c', 'mix', env_quick=dict(MC_DEPTH=2, MC_NV=2), env_thorough=dict(MC_DEPTH=3))]

CHECKS['C01'] = dict(
    title='operation-sequence exploration',
    runs=[R('small', 'c01.c', 'general'), R('small', 'c01.c', 'big'), R('small', 'c01.c', 'age'), R('small', 'c01.c', 'private', env_quick=dict(MC_DEPTH=3)), R('small', 'c01.c', 'private', env_quick=dict(MC_DEPTH=4, MC_V0=3), env_thorough=dict(MC_DEPTH=5)),
          R('small', 'c01.c', 'full', env_quick=dict(MC_DEPTH=2)), R('small', 'c01.c', 'full', env_quick=dict(MC_DEPTH=3, MC_V0=5, MC_NV=6), env_thorough=dict(MC_DEPTH=4, MC_V0=5, MC_NV=6))] + [R(c, 'c01.c', 'full', env_quick=dict(MC_DEPTH=2, MC_NV=2), env_thorough=dict(MC_DEPTH=3, MC_NV=5)) for c in ('o_neon', 'o_no128')] + [R('stock', 'c01.c', 'long', env_quick=dict(MC_NV=1)), R('small', 'c01.c', 'long', thorough_only=True)] + [R('stock', 'c01.c', x, env_quick=dict(MC_DEPTH=3, MC_NV=1)) for x in ('general', 'big', 'age', 'private')] + MATRIX + SAMPLED('c01.c', 'mix', MC_DEPTH=2, MC_NV=2) + SAMPLED('c01.c', 'general', MC_DEPTH=3, MC_NV=1),
    rule='every sequence of operations of the listed alphabets up to the depth, from every start state; distinct = distinct (live set shape, zones mapped) outcomes',
    bounds='alphabets of 13-29 operations, depth 2-4 quick / 3-5 thorough, 4 address placement policies; zones empty, aged, nearly full; 33 option sets at depth 2 quick / 3 thorough; 3264 regular histories of up to 2500 operations at the real limits from 1 (thorough 4) start states',
    note='')

CONFIGS['abortnull'] = dict(SMALL, ABORT_ON_NULL=1)
CHECKS['C02'] = dict(
    title='complete enumeration of the size domain from each start state',
    runs=[R('stock', 'c02.c', 'sizes', env_quick=dict(MC_NV=2)), R('small', 'c02.c', 'sizes', env_quick=dict(MC_V0=2)), R('abortnull', 'c02.c', 'sizes', env_quick=dict(MC_NV=1)),
          R('cache2', 'c02.c', 'cached', env_quick=dict(MC_DEPTH=3)), R('cache2', 'c02.c', 'cached', env_quick=dict(MC_DEPTH=4, MC_V0=4, MC_NV=5), env_thorough=dict(MC_DEPTH=5))]
        + [R(c, 'c02.c', 'sizes', env_quick=dict(MC_NV=2)) for c in ('guards', 'o_tag', 'o_nothread')] + SAMPLED('c02.c', 'sizes', MC_NV=1),
    rule='every chunk size class (2048) at its least, middle, last-but-one and greatest size, boundary big sizes, and unrepresentable sizes, through all six allocating forms; distinct = different usable sizes obtained',
    bounds='all 2048 small size classes, ~230 big and ~370 unrepresentable sizes, 4 start states',
    note='')

CONFIGS['permrealloc'] = dict(SMALL, PERM_FREE_REALLOC=1)
CHECKS['C03'] = dict(
    title='complete enumeration of (old size, new size) and (count, size) pairs, and operation sequences over recycled memory',
    runs=[R('stock', 'c03.c', 'realloc', env_quick=dict(MC_V0=3, MC_NV=5)), R('small', 'c03.c', 'realloc', env_quick=dict(MC_V0=0, MC_NV=1), env_thorough=dict(MC_NV=1)), R('small', 'c03.c', 'realloc', env_quick=dict(MC_V0=6, MC_NV=7)), R('permrealloc', 'c03.c', 'realloc', env_quick=dict(MC_V0=1, MC_NV=2)),
          R('small', 'c03.c', 'calloc', env_quick=dict(MC_V0=4, MC_NV=5)), R('stock', 'c03.c', 'calloc', env_quick=dict(MC_V0=0, MC_NV=1)), R('small', 'c03.c', 'zeroes')] + SAMPLED('c03.c', 'calloc', MC_NV=1, thorough=dict(MC_NV=2)) + SAMPLED('c03.c', 'realloc', MC_NV=1, thorough=dict(MC_NV=2)),
    rule='every pair of 73 boundary sizes through realloc and reallocarray, every pair of 212 boundary values through calloc and reallocarray, every sequence of dirty/free/flush/calloc; distinct = different usable size pairs or reused addresses',
    bounds='73x73 realloc pairs, 212x212 array pairs, sequences of 3 (quick) or 5 (thorough) over 14 operations, 8 start states',
    note='Products between 2^27 and 2^32 are decided through reallocarray only (clearing them is too slow).')

CHECKS['C04'] = dict(
    title='complete enumeration of source lengths and limits',
    runs=[R('small', 'c04.c', 'strings')] + [R('stock', 'c04.c', 'strings', env_quick=dict(MC_NV=1))] + SAMPLED('c04.c', 'strings'),
    rule='every source length and limit through all five forms, source ending at an inaccessible page, destination recycled and dirty; distinct = different usable sizes',
    bounds='lengths and limits 0..300, around powers of two to 256 KB and around big page edges, 8 start states', note='')

CHECKS['C05'] = dict(
    title='exploration of double frees inside operation sequences',
    runs=[R('small', 'c05.c', 'doublefree', env_quick=dict(MC_DEPTH=3), env_thorough=dict(MC_DEPTH=4)),
          R('small', 'c05.c', 'doublefree', env_quick=dict(MC_DEPTH=4, MC_V0=5, MC_NV=6), env_thorough=dict(MC_DEPTH=5, MC_V0=5, MC_NV=6)),
          R('o_asan', 'c05.c', 'doublefree', env_quick=dict(MC_DEPTH=2), env_thorough=dict(MC_DEPTH=3))],
    rule='every operation sequence to the depth in which one chunk is freed twice by every pair of freeing calls; the process must end by the next flush; distinct = detection points',
    bounds='depth 3 from 8 start states and 4 from one (quick), 4 and 5 (thorough), delayed-free buffer of 2',
    note='One recorded finding (known_findings.txt): reuse while an earlier free of the same chunk is still delayed.')

CHECKS['C06'] = dict(
    title='complete enumeration of invalid addresses from explored heap states',
    runs=[R('small', 'c06.c', 'badptr', env_quick=dict(MC_V0=3, MC_NV=5)), R('small', 'c06.c', 'badptr', env_quick=dict(MC_V0=0, MC_NV=1), env_thorough=dict(MC_NV=1)), R('small', 'c06.c', 'wrongzone'), R('o_asan', 'c06.c', 'badptr', env=dict(MC_V0=3, MC_NV=5), env_quick=dict(MC_V0=3, MC_NV=4)), R('o_asan', 'c06.c', 'wrongzone')] + SAMPLED('c06.c', 'badptr', modes=(5,), MC_NV=1, thorough=dict(MC_NV=2)),
    rule='every slot of a zone, every offset of selected chunks, zone and mapping borders, wild addresses, through every freeing call; distinct = (call, outcome) and addresses',
    bounds='2 (quick) or 8 (thorough) start states; all chunks of one zone per class group, every byte offset of selected chunks', note='')

CHECKS['C07'] = dict(
    title='complete enumeration of (allocation size, claimed size) pairs',
    runs=[R('small', 'c07.c', 'sized', env_quick=dict(MC_V0=4, MC_NV=5)), R('stock', 'c07.c', 'sized', env_quick=dict(MC_V0=0, MC_NV=1)), R('o_asan', 'c07.c', 'sized', env_quick=dict(MC_V0=4, MC_NV=5), env_thorough=dict(MC_V0=3, MC_NV=5))],
    rule='for every class every claimed size around class edges and limits, accept and reject side; distinct = (usable, claimed) pairs decided',
    bounds='all 2048 small classes and selected big sizes, 1+1 (quick) or 8+8 start states', note='')

CHECKS['C08'] = dict(
    title='complete enumeration of canary byte corruptions, and operation sequences that keep or corrupt canaries',
    runs=[R('small', 'c08.c', 'canary', env_quick=dict(MC_V0=1, MC_NV=4)), R('small', 'c08.c', 'canary', env_quick=dict(MC_V0=0, MC_NV=1), env_thorough=dict(MC_NV=1)), R('small', 'c08.c', 'history')],
    rule='every byte of both canaries of first, middle, last and word-border chunks of every class x every detection trigger; operation sequences with and without one corruption; distinct = (class, position, trigger)',
    bounds='all classes to 8192 bytes, all 16 canary bytes, 3 (quick) or 8 start states; sequences of depth 3 quick / 4 thorough', note='')

CONFIGS['fewmax'] = dict(SMALL, MC_MAX_ZONES=40)
CHECKS['C09'] = dict(
    title='operation-sequence exploration over private zones and complete enumeration of zone chunk sizes',
    runs=[R('fewmax', 'c09.c', 'classes', env_quick=dict(MC_V0=0, MC_NV=5)), R('fewmax', 'c09.c', 'zones', env_quick=dict(MC_V0=0, MC_NV=4)), R('fewmax', 'c09.c', 'zones', env=dict(MC_V0=4, MC_NV=5), env_quick=dict(MC_DEPTH=2)), R('small', 'c09.c', 'many')],
    rule='every chunk size class as a private zone filled to its end; every sequence over create/allocate/fill/free/destroy with the general heap, from empty and from a nearly full zone table; distinct = live set shapes and capacities',
    bounds='2201 zone sizes, depth 3 quick / 5 thorough over 14 operations, zone table of 40', note='')

CONFIGS['guards'] = dict(SMALL, BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1)
CONFIGS['tagging'] = dict(SMALL, MEMORY_TAGGING=1)
CONFIGS['nothread'] = dict(SMALL, THREAD_SUPPORT=0)
CHECKS['C12'] = dict(
    title='guard pages checked in every state of explored operation sequences',
    runs=[R('small', 'c12.c', 'guards', env_quick=dict(MC_DEPTH=4), env_thorough=dict(MC_DEPTH=5)), R('guards', 'c12.c', 'guards'), R('tagging', 'c12.c', 'guards'), R('nothread', 'c12.c', 'guards'),
          R('small', 'c12.c', 'classes'), R('guards', 'c12.c', 'classes'), R('tagging', 'c12.c', 'classes'), R('stock', 'c12.c', 'classes')],
    rule='every operation sequence to the depth and every zone size class; in every state, both neighbours of every region holding user chunks, bitmaps, root or tables are inaccessible; distinct = page-table shapes',
    bounds='depth 4 quick / 5 thorough in the default configuration, 3 in three others; 4 placement policies; all zone classes', note='')

CONFIGS['entropy0'] = dict(SMALL, ABORT_NO_ENTROPY=0)
CHECKS['C13'] = dict(
    title='fault injection at every kernel request of every pair of operations',
    runs=[R('small', 'c13.c', 'faults', env_quick=dict(MC_V0=4, MC_NV=5)), R('small', 'c13.c', 'faults', env_quick=dict(MC_V0=8, MC_NV=9)), R('guards', 'c13.c', 'faults', env_quick=dict(MC_V0=5, MC_NV=6)),
          R('entropy0', 'c13.c', 'faults', env_quick=dict(MC_V0=3, MC_NV=4)), R('tagging', 'c13.c', 'faults', env_quick=dict(MC_V0=6, MC_NV=7)), R('nothread', 'c13.c', 'faults', env_quick=dict(MC_V0=1, MC_NV=2))],
    rule='every pair of 23 operations x every kernel request they make x six kinds of request, failing once or from then on: the process ends through the abort of the allocator, or every call reports NULL or gives sound memory, guard pages are in place, and the heap passes all checks afterwards; distinct = (kind, first, second operation, ended or not)',
    bounds='pairs of operations (single operations for the uninitialised process), 5 option sets; one start state each (quick) or 9 (thorough)', note='munmap failures leave mappings behind, so the guard check is not made for those.')

CHECKS['C14'] = dict(
    title='operation-sequence exploration of recycling with the page table as oracle, and every short pattern iterated to its fixed point',
    runs=[R('small', 'c14.c', 'big', env_thorough=dict(MC_DEPTH=5)), R('guards', 'c14.c', 'big'), R('small', 'c14.c', 'bigsizes'), R('guards', 'c14.c', 'bigsizes'), R('small', 'c14.c', 'retire', env_quick=dict(MC_V0=3, MC_NV=6)), R('small', 'c14.c', 'retire', env_quick=dict(MC_V0=0, MC_NV=1), env_thorough=dict(MC_NV=1)), R('small', 'c14.c', 'loops'),
          R('small', 'c14.c', 'destroy'), R('tagging', 'c14.c', 'destroy'), R('tagging', 'c14.c', 'retire', env_quick=dict(MC_V0=3, MC_NV=4))],
    rule='every sequence over big allocate/free/realloc/permanent free; every retirable size class driven past its retirement age; every pattern of 3 (quick) or 4 (thorough) operations repeated 24 times; every zone size created and destroyed; distinct = footprints and outcomes',
    bounds='big sequences to depth 4/5, 512 zone classes, 14^3 (14^4) patterns, 2201 private zone sizes, up to 8 start states; free list of 2 and retirement age 3 for big zones, 1x for zones',
    note='One recorded finding (known_findings.txt): destroyed private zones keep their slot.')

TS = dict(SMALL, _tsan=True)
CONFIGS['ts'] = TS
CONFIGS['ts_spin'] = dict(TS, USE_SPINLOCK=1)
CONFIGS['ts_tag'] = dict(TS, MEMORY_TAGGING=1)
CONFIGS['ts_leak'] = dict(TS, LEAK_DETECTOR=1, MEM_USAGE=1)
CONFIGS['ts_prof'] = dict(TS, HEAP_PROFILER=1, _extra=['-fcommon'])
CONFIGS['ts_sane'] = dict(TS, ALLOC_SANITY=1, ISOALLOC_MC_MAX_SANE_SAMPLES=4)
CONFIGS['ts_sanespin'] = dict(TS, ALLOC_SANITY=1, ISOALLOC_MC_MAX_SANE_SAMPLES=4, USE_SPINLOCK=1)

def T(cfg, scen, bq, bt, v0=0, nv=4, **kw):
    e = dict(MC_BOUND=bq)
    if (v0, nv) != (0, 4):
        e.update(MC_V0=v0, MC_NV=nv)
    return R(cfg, 'c10.c', scen, env_quick=e, env_thorough=dict(MC_BOUND=bt), **kw)

RACE = dict(env=dict(MC_RACES=1))
CHECKS['C10'] = dict(
    title='stateless exploration of every schedule, up to a preemption bound, of small multi-threaded programs over the real allocator',
    runs=[T('ts', 'pairs', 2, 4), T('ts', 'handover', 2, 2, 0, 2), T('ts', 'triples', 1, 1, 3, 4), T('ts', 'pairs2', 1, 1, 1, 2),
          T('ts_spin', 'pairs', 2, 3), T('ts_spin', 'handover', 1, 2, 1, 4), T('ts_sane', 'pairs', 1, 3), T('ts_tag', 'pairs', 1, 3)],
    rule='every program pairing each two (three) operations, two-operation sequences and hand-over programs; every schedule of each up to the preemption bound, scheduling points at every lock operation, atomic and unlocked access to concurrently written memory; live allocations stay disjoint, accessible, and keep their contents, no deadlock, and the heap passes its own verification after every schedule; distinct = outcomes',
    bounds='2-3 threads, 1-4 operations each, 4 start states; preemption bounds 1-2 quick, 1-4 thorough; mutex and spinlock builds, ALLOC_SANITY with every draw a hit, MEMORY_TAGGING',
    note='')
CHECKS['C11'] = dict(
    title='happens-before race detection on every explored schedule',
    runs=[T('ts', 'pairs', 2, 4, **RACE), T('ts', 'handover', 1, 2, **RACE), T('ts', 'triples', 1, 1, 1, 2, **RACE),
          T('ts_spin', 'pairs', 1, 3, **RACE), T('ts_spin', 'handover', 1, 2, **RACE), T('ts_tag', 'pairs', 1, 3, **RACE), T('ts_tag', 'handover', 1, 2, **RACE),
          T('ts_leak', 'pairs', 1, 2, **RACE), T('ts_leak', 'handover', 1, 2, 0, 1, **RACE), T('ts_sane', 'pairs', 1, 3, **RACE), T('ts_sane', 'handover', 1, 2, **RACE),
          T('ts_sanespin', 'pairs', 1, 3, **RACE), T('ts_prof', 'pairs', 1, 1, **RACE)],
    rule='programs and schedules as for C10; every memory access the allocator performs is checked by vector clocks against every earlier access of other threads; distinct = outcomes',
    bounds='as C10 with preemption bound 1-2 quick, 1-4 thorough; seven option sets that support threads',
    note='')

CHECKS['C15'] = dict(
    title='operation-sequence exploration with permanent frees, then the zone used up; every size class',
    runs=[R('small', 'c15.c', 'history', env_quick=dict(MC_DEPTH=2)), R('small', 'c15.c', 'history', env_quick=dict(MC_DEPTH=3, MC_V0=5, MC_NV=6), env_thorough=dict(MC_DEPTH=4, MC_V0=5, MC_NV=6)),
          R('permrealloc', 'c15.c', 'history', env_quick=dict(MC_DEPTH=2, MC_NV=4)), R('small', 'c15.c', 'full', env_quick=dict(MC_NV=4)), R('permrealloc', 'c15.c', 'full', env_quick=dict(MC_V0=5, MC_NV=6)), R('small', 'c15.c', 'classes', env_quick=dict(MC_V0=1, MC_NV=4)), R('small', 'c15.c', 'classes', env_quick=dict(MC_V0=0, MC_NV=1), env_thorough=dict(MC_NV=1)), R('permrealloc', 'c15.c', 'classes', env_quick=dict(MC_V0=1, MC_NV=2))],
    rule='every sequence of allocations, frees and permanent frees in each form to the depth, followed by allocation until two new zones were opened: no allocation overlaps a permanently freed chunk, its content is gone at once, big ones are inaccessible; every size class as private zone used to the end; distinct = live set shapes and classes',
    bounds='depth 2 from 8 start states and 3 from one (quick), 3 and 4 (thorough), 16-18 operations; 2048 classes and 40 big sizes', note='')

CONFIGS['quar3'] = dict(SMALL, MC_QUARANTINE=3)
CHECKS['C16'] = dict(
    title='operation-sequence exploration with a model of the delayed-free buffer; every fill level',
    runs=[R('small', 'c16.c', 'history', env_quick=dict(MC_DEPTH=3, MC_V0=1, MC_NV=3)), R('small', 'c16.c', 'history', env_quick=dict(MC_DEPTH=2)), R('quar3', 'c16.c', 'history', env_quick=dict(MC_DEPTH=3, MC_V0=4, MC_NV=5), env_thorough=dict(MC_DEPTH=4, MC_V0=4, MC_NV=6)),
          R('small', 'c16.c', 'levels'), R('stock', 'c16.c', 'levels', env_quick=dict(MC_V0=3, MC_NV=5))],
    rule='every operation sequence to the depth and every number of delayed frees up to three times the capacity for 8 classes; no allocation overlaps a delayed chunk unless the buffer was full, and after a flush a zone can be used up completely, each chunk once; distinct = live set shapes',
    bounds='depth 2-3 quick, 3-4 thorough over 20 operations; buffers of 2, 3 and 64', note='')

CONFIGS['leak'] = dict(SMALL, LEAK_DETECTOR=1, MEM_USAGE=1)
for _k, _v in dict(leak_log=dict(DEBUG=1), leak_nc=dict(DISABLE_CANARY=1), leak_asan=dict(ENABLE_ASAN=1), leak_tag=dict(MEMORY_TAGGING=1), leak_nt=dict(THREAD_SUPPORT=0, SANITIZE_CHUNKS=1)).items():
    CONFIGS[_k] = dict(CONFIGS['leak'], **_v)
CONFIGS['leak_stock'] = dict(LEAK_DETECTOR=1, MEM_USAGE=1)
CHECKS['C17'] = dict(
    title='operation-sequence exploration with the reports compared to the model in every state; every size class at several fill levels',
    runs=[R('leak', 'c17.c', 'history'), R('leak', 'c17.c', 'classes'), R('leak_log', 'c17.c', 'history')] + [R('leak_' + c, 'c17.c', s, env_quick=dict(MC_DEPTH=2, MC_NV=4 if s == 'history' else 1)) for c in ('nc', 'asan', 'tag', 'nt', 'stock') for s in ('history', 'classes')],
    rule='leak counts of each private zone and of the whole heap, and the memory use, are requested in every state of every sequence and compared with the live set and the page table; distinct = live set shapes and classes',
    bounds='depth 3 quick, 4 thorough over 18 operations from 4 start states; 2048 classes', note='Chunks waiting in the delayed-free buffer may count either way.')

CONFIGS['sane0'] = dict(SMALL, ALLOC_SANITY=1)
CHECKS['C21'] = dict(
    title='operation-sequence exploration with zero-size requests',
    runs=[R('small', 'c21.c', 'history', env_quick=dict(MC_V0=2, MC_NV=4)), R('small', 'c21.c', 'history', env_quick=dict(MC_V0=0, MC_NV=1), env_thorough=dict(MC_NV=1)), R('small', 'c21.c', 'history', env_quick=dict(MC_DEPTH=2)), R('small', 'c21.c', 'many'), R('sane0', 'c21.c', 'history', env_quick=dict(MC_DEPTH=2, MC_NV=4), env_thorough=dict(MC_DEPTH=3))],
    rule='every sequence mixing zero-size requests in 7 forms, their release and reallocation in 8 forms and ordinary operations; in every state each placeholder is inaccessible, of size 0 and outside all live allocations; touching it is tried in a throw-away copy; distinct = live set shapes',
    bounds='depth 3 quick from 2 start states and 2 from all, 4 thorough, 26 operations', note='')

CONFIGS['strong'] = dict(SMALL, STRONG_SIZE_ISOLATION=1)
CHECKS['C22'] = dict(
    title='complete enumeration of class pairs and operation-sequence exploration with the zone of every allocation as oracle',
    runs=[R('small', 'c22.c', 'history'), R('small', 'c22.c', 'pairs'), R('small', 'c22.c', 'classes'), R('stock', 'c22.c', 'pairs'), R('strong', 'c22.c', 'history'), R('strong', 'c22.c', 'pairs'), R('strong', 'c22.c', 'classes')],
    rule='every allocation made by every sequence, every pair of 51 sizes in 4 warm-up patterns and every class with full and empty zones is placed in a region of its own kind and chunk size; distinct = (earlier, later) size pairs, live set shapes',
    bounds='depth 3 quick / 4 thorough over 19 operations, 4 start states, default and strong size isolation', note='')

CHECKS['C18'] = dict(
    title='operation-sequence exploration with every tag of every zone followed; complete enumeration of zone classes and tag values',
    runs=[R('tagging', 'c18.c', 'history', env_quick=dict(MC_NV=4)), R('tagging', 'c18.c', 'values', env_quick=dict(MC_V0=5, MC_NV=6)), R('tagging', 'c18.c', 'classes', env_quick=dict(MC_V0=4, MC_NV=5)), R('tagging', 'c18.c', 'classes', env_quick=dict(MC_V0=0, MC_NV=1), env_thorough=dict(MC_NV=1))],
    rule='in every state of every sequence the tags of all slots of all zones are read and compared: only a freed chunk changes its tag (to a different one whenever the random source gives one), all do at the refresh age; every live chunk round-trips and verifies; every one of the 255 other tags and every stale one ends the process; distinct = live set shapes, classes, tag values',
    bounds='depth 3 quick / 4 thorough over 19 operations, 2048 zone classes, 256 tag values x 6 classes, up to 8 start states', note='A pointer carrying tag 0 is an untagged pointer and is accepted by frees.')

HOOKS = dict(SMALL, MEMCPY_SANITY=1, MEMSET_SANITY=1)
CONFIGS['hooks'] = HOOKS
CONFIGS['hooks_gcc'] = dict(HOOKS, _cc='gcc')
CONFIGS['hooks_o0'] = dict(HOOKS, _opt='-O0')
CONFIGS['hooks_o3'] = dict(HOOKS, _opt='-O3')
CHECKS['C19'] = dict(
    title='complete enumeration of lengths, overlaps, classes and overflow lengths; operation sequences',
    runs=[R('hooks', 'c19.c', 'semantics', env_quick=dict(MC_NV=1)), R('hooks_gcc', 'c19.c', 'semantics', env_quick=dict(MC_V0=5, MC_NV=6)), R('hooks_o0', 'c19.c', 'semantics', env_quick=dict(MC_V0=5, MC_NV=6)), R('hooks_o3', 'c19.c', 'semantics', env_quick=dict(MC_NV=1)),
          R('hooks', 'c19.c', 'overflow', env_quick=dict(MC_NV=1)), R('hooks', 'c19.c', 'history'), R('hooks_gcc', 'c19.c', 'history', env_quick=dict(MC_V0=3, MC_NV=5))],
    rule='every length x every distance (all overlaps at short lengths) x alignment x kind of memory against a byte-wise reference; every chunk class x lowest/some/highest chunk x overflow length x hook: full-size use passes, anything longer aborts with the chunk unchanged; every operation sequence with all live memory copied and filled through the hooks in every state, also before initialisation; distinct = lengths, classes, live set shapes',
    bounds='lengths 0-200 and borders to 256 KB, 2048 classes, 11 overflow lengths to SIZE_MAX, depth 3 quick / 4 thorough; clang -O0/-O2/-O3 and gcc', note='Detection is judged with one zone per 4 GB address window, where the lookup table is exact; absence of false alarms under all placement policies.')

CONFIGS['malloc'] = dict(SMALL, MALLOC_HOOK=1)
CONFIGS['malloc_abort'] = dict(SMALL, MALLOC_HOOK=1, ABORT_ON_NULL=1)
CONFIGS['malloc_sane'] = dict(SMALL, MALLOC_HOOK=1, ALLOC_SANITY=1, ISOALLOC_MC_MAX_SANE_SAMPLES=3)

CHECKS['C20'] = dict(
    title='operation-sequence exploration with the sampling decision and alignment as choices; complete enumeration of sizes, slack bytes and wrong frees',
    runs=[R('sane', 'c20.c', 'sizes'), R('sane', 'c20.c', 'wrong'), R('sane', 'c20.c', 'history', env_quick=dict(MC_DEPTH=2)), R('sane', 'c20.c', 'history', env_quick=dict(MC_V0=5, MC_NV=6), env_thorough=dict(MC_DEPTH=4, MC_V0=4, MC_NV=6)),
          R('sane', 'c20.c', 'history', thorough_only=True, env_thorough=dict(MC_DEPTH=3))],
    rule='every allocating call over every size 0..4099 with both alignments: page of its own, fences, position, contents through 5 releasing calls, all three pages unmapped; changed slack bytes (each tried in a throw-away copy that has to abort); every 8-byte offset and claimed size as a wrong free; every sequence with the decision as an operation, limit 3; distinct = sizes and live set shapes',
    bounds='sizes 0..4099 exhaustive; slack bytes exhaustive for two sizes and edges for the rest quick, exhaustive for all multiples of 32 thorough; depth 2 from 8 start states and 3 from one quick, 3 and 4 thorough, 26 operations, sampling limit lowered from 1024 to 3', note='')
CONFIGS['malloc_sane'] = dict(SMALL, MALLOC_HOOK=1, ALLOC_SANITY=1, ISOALLOC_MC_MAX_SANE_SAMPLES=3)
HIT = dict(MC_RMODE=5)
CHECKS['C23'] = dict(
    title='operation-sequence exploration over malloc-family functions, operators and new expressions; complete enumeration of forms, sizes, alignments and releases',
    runs=[R(c, 'c23.cpp', s) for c in ('malloc', 'malloc_abort') for s in ('pairs', 'oversize', 'wrap', 'alignments')] + [R('malloc_sane', 'c23.cpp', 'pairs', env_quick=HIT, env_thorough=HIT), R('malloc_sane', 'c23.cpp', 'history', env_quick=dict(HIT, MC_DEPTH=2), env_thorough=dict(HIT, MC_DEPTH=3)),
          R('malloc', 'c23.cpp', 'history', env_quick=dict(MC_DEPTH=2)), R('malloc', 'c23.cpp', 'history', env_quick=dict(MC_V0=5, MC_NV=6), env_thorough=dict(MC_DEPTH=4, MC_V0=5, MC_NV=6)), R('malloc', 'c23.cpp', 'history', thorough_only=True, env_thorough=dict(MC_DEPTH=3))],
    rule='17 malloc-family and 8 operator new forms x 62 sizes x 13 alignments x every matching release form, with zones of sizes that are no power of two present and cached; every oversize and wrapping request; every alignment 0..8199; every sequence of calls and of new and delete expressions; distinct = (size, alignment) pairs and live set shapes',
    bounds='sizes to 192 KB around each power of two, alignments up to a page; depth 2 from 8 start states and 3 from one quick, 3 and 4 thorough, 29 operations', note='alignments above the page size may fail; the library symbols are renamed by objcopy so that the harness keeps its own malloc')

CONFIGS['masks'] = dict(SMALL, MC_MAX_ZONES=80)
CONFIGS['san_nocanary'] = dict(SMALL, SANITIZE_CHUNKS=1, DISABLE_CANARY=1)
CONFIGS['san_prot'] = dict(SMALL, SANITIZE_CHUNKS=1, PROTECT_FREE_BIG_ZONES=1)
CHECKS['C25'] = dict(
    title='operation-sequence exploration with every word of the metadata mappings inspected in every state; complete enumeration of mask patterns',
    runs=[R('masks', 'c25.c', 'history', env_thorough=dict(MC_DEPTH=4, MC_V0=3, MC_NV=6)), R('masks', 'c25.c', 'history', thorough_only=True, env_thorough=dict(MC_DEPTH=3)), R('masks', 'c25.c', 'masks'), R('stock', 'c25.c', 'masks', env_quick=dict(MC_NV=1))],
    rule='every sequence of calls from 8 start states; in every state each word of every mapping that is neither user memory, the root nor the quarantine is compared with all mapped addresses; 144 mask patterns from the entropy source, the generator or both with a fixed history; distinct = live set shapes, mask patterns',
    bounds='depth 3 quick / 4 thorough over 21 operations, zone table limited to 80 entries', note='the root, the table of delayed frees and the start address in big allocation records hold plain addresses by design and are exempt')
Q3 = dict(MC_V0=5, MC_NV=6)
CHECKS['C26'] = dict(
    title='operation-sequence exploration with the bytes and page protections of all freed memory followed; complete enumeration of size classes and freeing calls',
    runs=[R(c, 'c26.c', 'classes', env_quick=dict(MC_NV=2)) for c in ('o_san', 'small', 'san_prot', 'san_nocanary')] + [R(c, 'c26.c', 'history', env_quick=dict(MC_DEPTH=2)) for c in ('o_san', 'small', 'o_protbig', 'san_nocanary', 'san_prot')] + [R(c, 'c26.c', 'history', env_quick=Q3, env_thorough=dict(Q3, MC_DEPTH=4)) for c in ('o_san', 'o_protbig')],
    rule='every chunk size and 40 big sizes x 5 general and 2 zone releasing calls with live neighbours; every sequence; after the free has been processed every byte of every freed chunk is inspected, every page of every freed big allocation, and reuse gives full access; distinct = sizes, live set shapes',
    bounds='all 2048 chunk sizes; depth 2 from 8 start states and 3 from one quick, 3 and 4 thorough, 17 operations; sanitising with and without canaries, protection of free big allocations, both, neither', note='the kernel may replace discarded pages of a freed big allocation by zeros')

CHECKS['C28'] = dict(
    title='operation sequences with protection pairs at every subset of positions, every call while protected, and every schedule of a call against a protecting thread',
    runs=[R('small', 'c28.c', 'pairs', env_quick=dict(MC_NV=2)), R('o_nothread', 'c28.c', 'pairs', env_quick=dict(MC_V0=2, MC_NV=3)), R('o_spin', 'c28.c', 'pairs', env_quick=dict(MC_V0=3)),
          R('small', 'c28.c', 'calls', env_quick=dict(MC_NV=1)), T('ts', 'protect', 2, 4), T('ts_spin', 'protect', 2, 4)],
    rule='every sequence of 3 (thorough 4) of 13 operations with protect/unprotect pairs before each subset of the operations gives the addresses and kernel calls of the same sequence without them; every page of the root is inaccessible meanwhile and every other page unchanged; no call of another thread completes while the root is protected (it waits or faults), over every schedule up to the preemption bound; distinct = outcomes',
    bounds='2197 sequences (28561 thorough) x 10 (31) placements, 4 start states, mutex, spinlock and single-threaded builds; 38 calls against one or two protection windows, preemption bound 2 (4)',
    note='Without THREAD_SUPPORT there is no second thread, and a call served from the zone cache does not read the root; that build is checked for the pairs only.')

CONFIGS['uaf_tag'] = dict(SMALL, UAF_PTR_PAGE=1, MEMORY_TAGGING=1, THREAD_SUPPORT=0)
CHECKS['C27'] = dict(
    title='operation sequences over stored references with every free selected and with none, and every offset of a reference',
    runs=[R('o_uaf', 'c27.c', 'history'), R('o_uaf', 'c27.c', 'offsets'), R('uaf_tag', 'c27.c', 'history', env_quick=dict(MC_DEPTH=2)), R('uaf_tag', 'c27.c', 'offsets', env_quick=dict(MC_NV=1))],
    rule='every sequence of allocate / store a reference (aligned, unaligned, last word, to itself) / free through each call / flush / destroy over small, private and big holders; every offset (quick: the ends, page borders and all of small chunks) of holders of 12 sizes in the first, some and the last slot of a zone; each selected free replaces exactly one of the references known to exist, by the address of one inaccessible page, unselected ones none, and no other byte of a live allocation changes; distinct = (references, replacements) outcomes and placements',
    bounds='depth 3 (thorough 4) over 21 operations from 8 start states; 850 (thorough ~9000) placements x 4 start states',
    note='The search reads memory of other threads without synchronisation by design; C11 leaves this option out.')

for _k, _v in dict(cl={}, cl_spin=dict(USE_SPINLOCK=1), cl_nothread=dict(THREAD_SUPPORT=0), cl_sane=dict(ALLOC_SANITY=1, ISOALLOC_MC_MAX_SANE_SAMPLES=4), cl_guards=dict(BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1), cl_tag=dict(MEMORY_TAGGING=1), cl_uaf=dict(UAF_PTR_PAGE=1)).items():
    CONFIGS[_k] = dict(SMALL, ISO_DTOR_CLEANUP=1, **_v)
for _k, _v in dict(au={}, au_sane=dict(ALLOC_SANITY=1, ISOALLOC_MC_MAX_SANE_SAMPLES=4), au_uaf=dict(UAF_PTR_PAGE=1), au_nothread=dict(THREAD_SUPPORT=0), au_cl=dict(ISO_DTOR_CLEANUP=1)).items():
    CONFIGS[_k] = dict(SMALL, AUTO_CTOR_DTOR=1, **_v)
CHECKS['C24'] = dict(
    title='operation sequences over initialise / use / destroy, starting without a heap, and damage before destruction',
    runs=[R(c, 'c24.c', 'life', env_quick=dict(MC_DEPTH=4)) for c in ('cl', 'cl_spin', 'cl_nothread', 'cl_sane', 'cl_guards', 'cl_tag')] + [R(c, 'c24.c', 'life', env_quick=dict(MC_DEPTH=3)) for c in ('au', 'au_sane', 'au_nothread', 'au_cl', 'small')]
        + [R(c, 'c24.c', 'life', env_quick=dict(MC_DEPTH=2, MC_NV=2), env_thorough=dict(MC_DEPTH=3)) for c in ('cl_uaf', 'au_uaf')] + [R(c, 'c24.c', 'damage') for c in ('small', 'cl', 'cl_nothread')],
    rule='every sequence of initialise, allocate (small, big, zero, string), free, private zones, zone ageing and destroy from a state without a heap; manual and automatic start-up; after start-up the zero-size placeholder, contents, sizes and (sampling) canary secret are as they must be, in clean-up builds no mapping remains after a destruction and the next start-up works; 8 kinds of damage x 4 sizes x young/old zones are noticed by the destruction; distinct = outcomes',
    bounds='depth 3-4 quick, 5 thorough over 15 operations, 4 placement policies, 14 option sets',
    note='The thread caches of other threads survive a destruction, so re-initialisation is explored with one thread. Without clean-up a heap is destroyed once.')

CONFIGS['prof'] = dict(SMALL, HEAP_PROFILER=1, _extra=['-fcommon'])
CONFIGS['prof_gcc'] = dict(CONFIGS['prof'], _cc='gcc')
CHECKS['C31'] = dict(
    title='operation sequences over call paths with every sampling decision a choice; every number of paths around the capacity; every fill level of every zone class',
    runs=[R('prof', 'c31.c', 'history'), R('prof_gcc', 'c31.c', 'history', env_quick=dict(MC_DEPTH=2)), R('prof', 'c31.c', 'paths'), R('prof', 'c31.c', 'usage'), R('prof', 'c31.c', 'short'), R('prof_gcc', 'c31.c', 'short')],
    rule='every sequence of sampled and unsampled allocations and frees through distinct call paths, resets and flushes; in every state the reported traces are compared with the model, at every leaf the written profile is parsed and compared and the heap used up to its end; distinct = profile sizes, path counts, fill levels',
    bounds='depth 3 (thorough 4) over 16 operations, 4 allocating and 2 freeing calls; 1..280 paths (capacity 128); paths of 1..7 calls from the foot of a stack; fill levels of zones of 32..65536 bytes',
    note='A full table of 128 paths is no longer updated (by design); sizes may be reported as requested or as rounded up.')

CONFIGS['entropy_tag'] = dict(MC_QUARANTINE=2, MC_RETIRE=1, MC_FEW_ZONES=1, MEMORY_TAGGING=1)
CONFIGS['entropy'] = dict(MC_QUARANTINE=2, MC_RETIRE=1, MC_FEW_ZONES=1)
CHECKS['C29'] = dict(
    title='the same program for every single-bit change of every word of entropy it requests, with placement fixed',
    runs=[R('entropy', 'c29.c', 'draws', env_quick=dict(MC_NV=2)), R('entropy_tag', 'c29.c', 'draws', env_quick=dict(MC_V0=1, MC_NV=2)), R('small', 'c29.c', 'draws', thorough_only=True, env_thorough=dict(MC_NV=2))],
    rule='all runs of one program that differ in one bit of one answer of the random source (about 350 words x 64 bits) are compared: every requested address, zone secret, slot order, handle, tag and big record has to follow, with every bit, some word requested at the right time; zones never share a secret; distinct = (word, zone, orders seen) outcomes',
    bounds='one program: start-up, two general zones used up, one of them replaced after its retirement age, three private zones used up, two big allocations; 2 (thorough 4) base streams and placements, with and without memory tagging',
    note='Decides that secrets, orders and requested addresses depend on fresh entropy, not that the dependence is statistically unpredictable. The kernel decides where a mapping finally lies.')

CONFIGS['uninit'] = dict(SMALL, ALLOC_SANITY=1, UNINIT_READ_SANITY=1, ISOALLOC_MC_MAX_SANE_SAMPLES=3)
CHECKS['C32'] = dict(
    title='all sequences of sampled allocations, writes, reallocations and releases, and every first access of many sizes, with the page fault notifications of the kernel modelled',
    runs=[R('uninit', 'c32.c', 'history', env_quick=dict(MC_NV=4)), R('uninit', 'c32.c', 'offsets')],
    rule='every sequence of operations from each start state; in every state each untouched sampled allocation is read in a child, which has to end, and every other one is read whole, which must not; every offset of several sizes is read first, written first, and written then read; distinct = items',
    bounds='depth 3 (thorough 4) over 22 operations with up to 3 samples; 4 (thorough 8) start states; 8 sizes of 32..4064 bytes, both alignments',
    note='The fault notification of the kernel is modelled at the system call: a watched page is inaccessible and an access runs the installed handler until it waits again, so the handler runs while the faulting thread holds what it holds. What realloc of an untouched allocation does is left open.')

CONFIGS['sig'] = dict(SMALL, SIGNAL_HANDLER=1)
CONFIGS['sig_uaf'] = dict(SMALL, SIGNAL_HANDLER=1, UAF_PTR_PAGE=1)
CONFIGS['sig_cl'] = dict(SMALL, SIGNAL_HANDLER=1, UAF_PTR_PAGE=1, ISO_DTOR_CLEANUP=1)
CHECKS['C33'] = dict(
    title='complete enumeration of misuses and faults, each in a throw-away copy in which the report is read',
    runs=[R('small', 'c33.c', 'misuse', env_quick=dict(MC_NV=2)), R('o_nothread', 'c33.c', 'misuse', env_quick=dict(MC_V0=5, MC_NV=6)), R('o_spin', 'c33.c', 'misuse', env_quick=dict(MC_V0=6, MC_NV=7)), R('sig', 'c33.c', 'fault', env_quick=dict(MC_NV=2)), R('sig_uaf', 'c33.c', 'fault', env_quick=dict(MC_V0=2, MC_NV=4)), R('sig_cl', 'c33.c', 'fault', env_quick=dict(MC_NV=2))]
        + [R(c, 'c33.c', 'options', env_quick=dict(MC_NV=3)) for c in ('abortnull', 'sane', 'o_tag')] + [R('hooks', 'c33h.c', 'options', env_quick=dict(MC_NV=1), env_thorough=dict(MC_NV=1)), R('hooks', 'c33h.c', 'options', env=dict(MC_V0=4, MC_NV=5)), R('hooks', 'c33h.c', 'start')] + [R(c, 'c33.c', 'start', env_quick=dict(MC_NV=1)) for c in ('small', 'sig_uaf', 'sane', 'o_tag', 'guards', 'o_nothread')],
    rule='17 kinds of misuse of chunks of each size class in general and private zones, 11 wild addresses, every inaccessible mapping and offsets of the poison page as faults, every refused request to the kernel during start-up, wrong frees of samples, wrong tags, overflowing copies and fills, requests that cannot be met: the throw-away copy has to abort after exactly one line on standard output, of the documented form, containing the address and sizes at fault; each with the line written, refused and cut short; distinct = (size, zone kind), addresses',
    bounds='27 (thorough 190) size classes x 3 (thorough 9) chunks, 2-8 start states, twelve option sets', note='The root is not protected when the fault happens. Addresses of internal records and values of secrets in the text are not judged.')

CONFIGS['pin'] = dict(SMALL, CPU_PIN=1, MC_MAX_ZONES=80)
CONFIGS['pin_nt'] = dict(SMALL, CPU_PIN=1, MC_MAX_ZONES=80, THREAD_SUPPORT=0)
CONFIGS['pin_strong'] = dict(SMALL, CPU_PIN=1, MC_MAX_ZONES=200, STRONG_SIZE_ISOLATION=1)

CONFIGS['fuzzm'] = dict(SMALL, FUZZ_MODE=1)
CONFIGS['slotsv'] = dict(SMALL, VERIFY_FREE_BIT_SLOTS=1)
CONFIGS['slots255'] = dict(MC_MAX_ZONES=80, MC_QUARANTINE=2, MC_FEW_ZONES=1, VERIFY_FREE_BIT_SLOTS=1)
CONFIGS['plain255'] = dict(MC_MAX_ZONES=80, MC_QUARANTINE=2, MC_FEW_ZONES=1)

CHECKS['C34'] = dict(
    title='complete enumeration of operation sequences with core changes between and within calls, and of pairs of core numbers',
    runs=[R(c, 'c34.c', 'history', env_quick=dict(MC_NV=n)) for c, n in (('pin', 4), ('pin_nt', 1), ('pin_strong', 2))] + [R(c, 'c34.c', 'cores') for c in ('pin', 'pin_nt', 'pin_strong')],
    rule='every sequence of operations from each start state, changes of the core and migrations at the k-th question included: each small chunk lies in a region mapped by a call that ran on a core the allocating call ran on; every pair of 30 core numbers takes turns over all sizes and 600 rounds with room for 80 zones; distinct = (regions, questions)',
    bounds='depth 3 (thorough 4) over 22 operations and 5 cores, 4 start states; 900 pairs', note='The core is what sched_getcpu reports. A thread that migrates during a call counts as running on both cores.')
CHECKS['C35'] = dict(
    title='complete enumeration of size classes, kinds of zones and kinds of random answers, all slots of each zone',
    runs=[R('small', 'c35.c', 'zones', env_quick=dict(MC_NV=4)), R('o_nothread', 'c35.c', 'zones', env_quick=dict(MC_V0=8, MC_NV=10)), R('tagging', 'c35.c', 'zones', env_quick=dict(MC_NV=1)), R('small', 'c35.c', 'two'), R('tagging', 'c35.c', 'two'), R('o_san', 'c35.c', 'zones', env_quick=dict(MC_NV=1))],
    rule='each zone is exhausted, its withheld slots counted and compared, then released and all its slots compared; canaries are copied between slots and zones under verification; distinct = (size class, kind, canary chunks)',
    bounds='41 (thorough 375) size classes x 4 kinds of zones x 12 start states', note='Chunks of less than 256 bytes that share the upper 56 bits of their address share a canary.')
CONFIGS['namedtag'] = dict(SMALL, NAMED_MAPPINGS=1, MEMORY_TAGGING=1)
CONFIGS['namedguard'] = dict(SMALL, NAMED_MAPPINGS=1, BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1, UAF_PTR_PAGE=1)
CONFIGS['namedsane'] = dict(SMALL, NAMED_MAPPINGS=1, ALLOC_SANITY=1)
CONFIGS['retire4'] = dict(SMALL, MC_RETIRE=4)
CHECKS['C36'] = dict(
    title='complete enumeration of damaged records under every observer, each in a throw-away copy',
    runs=[R(c, 'c36.c', 'bigs', env_quick=dict(MC_NV=n)) for c, n in (('small', 8), ('guards', 1), ('o_protbig', 2), ('o_nothread', 1), ('sig_cl', 1))] + [R(c, 'c36.c', 'slots') for c in ('small', 'slotsv', 'slots255', 'plain255')] + [R('fuzzm', 'c36.c', 'fuzz')],
    rule='every byte of the canaries of each of three big allocations, each subset released in either order, 8 observers; every entry of a free slot list overwritten with the slot of a chunk in use, which is then released or not; in fuzzing mode 18 victims x 16 bytes x 12 calls; distinct = items',
    bounds='5 big sizes, 8 start states; 6 chunk sizes x 3 chunks, lists of 8 and 255', note='Records are found by comparing memory, not by their layout. Entries of the list of free slots that nothing consults any more are exempt.')
CHECKS['C37'] = dict(
    title='exploration of operation sequences around the last chunk of a zone\'s allotment, and complete enumeration of size classes through two lifetimes',
    runs=[R(c, 'c37.c', 'edge', env_quick=dict(MC_NV=n), env_thorough=dict(MC_NV=max(n, 4))) for c, n in (('small', 16), ('retire4', 4), ('o_nothread', 2), ('tagging', 2), ('guards', 1), ('o_hooks', 1), ('stock', 1))] + [R(c, 'c37.c', 'classes', env_quick=dict(MC_NV=n)) for c, n in (('small', 4), ('retire4', 1), ('o_nothread', 1), ('tagging', 1))],
    rule='every sequence from start states one to four allocations short of the allotment with 0-2 chunks in use, beside a private zone beyond its own: each call that releases the last chunk of a zone replaces it if and only if it is due; every size class served for two allotments in 4 rhythms; distinct = (chunk size, allocations over the allotment) at which zones were replaced',
    bounds='depth 3 (thorough 4) over 17 operations from 16 start states of 4 sizes; 72 (thorough 515) size classes', note='Zones are known by their mappings. Canary chunks and rounding leave up to 31 chunks of a zone undecided as part of the allotment.')
CHECKS['C38'] = dict(
    title='every request to the kernel judged in every state of explored operation sequences',
    runs=[R(c, 'c38.c', 'attrs', env_quick=dict(MC_DEPTH=d, MC_NV=n)) for c, d, n in (('small', 3, 2), ('stock', 2, 16), ('guards', 2, 16), ('o_named', 2, 16), ('namedtag', 3, 2), ('namedguard', 2, 16), ('o_prepop', 2, 16), ('o_nolock', 2, 8), ('o_nothread', 2, 16), ('o_protbig', 2, 16), ('o_tag', 2, 8))] + [R('namedsane', 'c38.c', 'attrs', env=dict(MC_RMODE=m), env_quick=dict(MC_DEPTH=2, MC_NV=8), env_thorough=dict(MC_DEPTH=3)) for m in (5, 6)],
    rule='each mapping, change of protection, lock, advice and name is judged when it is asked for, and the names, locks and flags of everything in use in every state; distinct = (mappings, names, locks, live allocations)',
    bounds='depth 2 or 3 (thorough 4) over 22 operations, 16 start states (4 placements, aged or not, with and without huge pages, requests refused or granted), 12 option sets', note='The kernel is answered by the explorer, which keeps which pages have which name, lock and flags.')

CONFIGS['exp_tag'] = dict(SMALL, DEBUG=1, EXPERIMENTAL=1, MEMORY_TAGGING=1)
CONFIGS['exp_nt'] = dict(SMALL, DEBUG=1, EXPERIMENTAL=1, THREAD_SUPPORT=0, MASK_PTRS=0)
CHECKS['C39'] = dict(
    title='complete enumeration of chunk states and places of pointers on an explored stack',
    runs=[R(c, 'c39.c', s) for c in ('o_expdbg', 'exp_tag', 'exp_nt') for s in ('pointers', 'places')],
    rule='for every size class and 14 chunks in different states the search of a stack of its own is run with pointers to them at every alignment and distance from the start of the search, alone and together; what the log says is compared with what is known of the chunks; distinct = (state, chunk)',
    bounds='60 (thorough 2048) size classes, 4-8 start states, offsets 0-95 against starts up to 24 bytes around', note='Logging is only built in with DEBUG, so these builds have it.')

CONFIGS['asan_tag'] = dict(SMALL, ENABLE_ASAN=1, MEMORY_TAGGING=1)
CONFIGS['asan_nt'] = dict(SMALL, ENABLE_ASAN=1, THREAD_SUPPORT=0, SANITIZE_CHUNKS=1, PROTECT_FREE_BIG_ZONES=1)
CONFIGS['asan_stock'] = dict(ENABLE_ASAN=1)
CONFIGS['asan_all'] = dict(SMALL, ENABLE_ASAN=1, PRE_POPULATE_PAGES=1, SMALL_MEM_STARTUP=1, STRONG_SIZE_ISOLATION=1, VERIFY_FREE_BIT_SLOTS=1, PERM_FREE_REALLOC=1, NAMED_MAPPINGS=1, HEAP_PROFILER=1, _extra=['-fcommon'])
CONFIGS['asan_cl'] = dict(SMALL, ENABLE_ASAN=1, ISO_DTOR_CLEANUP=1)
CONFIGS['asan_guard'] = dict(SMALL, ENABLE_ASAN=1, BIG_ZONE_GUARD=1, BIG_ZONE_META_DATA_GUARD=1, ISO_DTOR_CLEANUP=1)
CHECKS['C30'] = dict(
    title='operation-sequence exploration against a model of the tagging hardware',
    runs=[R('o_mte', 'c30.c', x) for x in ('classes', 'full', 'history')] + [R(c, 'c30.c', 'history', env_quick=dict(MC_DEPTH=2, MC_NV=12 if c == 'mteg' else 4)) for c in ('mteg', 'mten')] + [R(c, 'c30.c', 'full', env_quick=dict(MC_NV=2)) for c in ('mteg', 'mten')],
    rule='in every state of every sequence, and for every size class through every freeing call, each 16 bytes of each live allocation carry the tag of its pointer, which was drawn for it, and freed memory does not carry the tag of the stale pointer; every access and tag store of the allocator itself is checked; distinct = live set shapes, classes',
    bounds='depth 2 (thorough 3) over 23 operations from 16 start states, 8 of them on hardware without tags; 2088 sizes; 48 zones filled and emptied three times; 4 ways to draw tags (in turn, scattered, least allowed, the last again); 3 option sets', note='The allocator is compiled for this machine with its tagging instructions calling mc/mte.c, which keeps a tag per 16 bytes of memory mapped with PROT_MTE, checks every access and removes the tag from a pointer when it is dereferenced. The model is bound to the code by compiling it in unchanged; it is not bound to real hardware, of which only the architecture\'s documented behaviour is used (synchronous checks).')
CHECKS['C40'] = dict(
    title='operation-sequence exploration against a model of the sanitizer that knows which bytes are poisoned',
    runs=[R('o_asan', 'c40.c', 'classes'), R('o_asan', 'c40.c', 'full'), R('o_asan', 'c40.c', 'history')] + [R(c, 'c40.c', 'history', env_quick=dict(MC_DEPTH=2), env_thorough=dict(MC_DEPTH=3)) for c in ('asan_tag', 'asan_nt', 'asan_stock', 'asan_cl', 'asan_guard', 'asan_all')] + [R('asan_stock', 'c40.c', 'full')],
    rule='in every state of every sequence, and for every size class through every freeing call, each byte of a live allocation is accessible to the program and each byte of a zone that belongs to none is not; every access of the allocator itself is checked too; distinct = live set shapes, classes',
    bounds='depth 3 (thorough 4) over 22 operations from 8 start states; 2088 sizes; 48 zones filled and emptied three times; 7 option sets', note='The allocator is compiled with the instrumentation of the sanitizer; its interface is played by mc/asan.c.')
for _k, _v in dict(asan_uaf=dict(UAF_PTR_PAGE=1), asan_sane=dict(ALLOC_SANITY=1)).items():
    CONFIGS[_k] = dict(SMALL, ENABLE_ASAN=1, **_v)
    CHECKS['C40']['runs'] += [R(_k, 'c40.c', 'history', env=dict(MC_RMODE=6), env_quick=dict(MC_DEPTH=2, MC_NV=1 if _k == 'asan_uaf' else 8), env_thorough=dict(MC_DEPTH=2 if _k == 'asan_uaf' else 3))]
