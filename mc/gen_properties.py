#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the text is maintained in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))
A = "src/iso_alloc.c"; I = "src/iso_alloc_interfaces.c"; U = "src/iso_alloc_util.c"; S = "src/iso_alloc_sanity.c"
T = "src/iso_alloc_mem_tags.c"; PR = "src/iso_alloc_profiler.c"; M = "src/malloc_hook.c"; CPP = "src/iso_alloc.cpp"
CONF = "constants of include/conf.h are lowered under ISOALLOC_MC so that wrap-arounds are reached in few operations"

prop("C01", "Valid histories succeed and live allocations are exclusive and stable",
 "For every history of correct API use (allocate, calloc, realloc, free in each of its forms, private zones, cache flushes and zone verification) no call aborts or crashes, and every allocation lies in readable and writable memory that overlaps no other live allocation. The content of a live allocation changes only when its owner writes it, and freeing everything afterwards always succeeds.",
 ["histories", "inputs", "configurations"],
 "All operation sequences up to the stated depth from each start state (fresh, zones full, zones about to retire, neighbouring bitmaps, big-zone lists populated), for each address-placement policy and build option set.",
 "The tests replay a few fixed allocation loops with random sizes in one process; they cannot reach particular combinations of full zones, retirement, slot cache refills, neighbouring bitmaps, big-zone list order and address reuse.",
 [A, I], [("bitmap state and slot cache", A+": _iso_alloc_bitslot_from_zone, fill_free_bit_slots, is_zone_usable"), ("zone lookup", A+": find_suitable_zone, iso_find_zone_range"), ("big zone lists", A+": _iso_big_alloc, iso_find_big_zone")],
 [("zone bitmap", "2 bits per chunk", "include/iso_alloc_ds.h"), ("free slot cache", "slots to hand out next", "include/iso_alloc_ds.h")],
 ["public API return values", "process termination", "bytes of live allocations", "page protections as requested from the kernel"], CONF)
prop("C02", "An allocation holds the requested size or the request fails cleanly",
 "Every successful allocation is 8-byte aligned, is entirely readable and writable for at least the requested number of bytes, and its reported usable size is at least the request and really is usable. A request that cannot be represented (above 4 GB, or so large that rounding would overflow) returns NULL, or aborts when built to abort on NULL; it never returns a smaller chunk.",
 ["inputs", "configurations"],
 "Every request size from 0 to beyond the small/big boundary, every size within 64 bytes of each page multiple, size-class edge and 2^k, and every size within 4200 bytes of SIZE_MAX, through every allocating entry point.",
 "Tests use fixed lists of sizes; none request sizes near SIZE_MAX, and none check that the whole usable size is writable for every size.",
 [A, I, M], [("size rounding and limits", A+": _iso_alloc, _iso_big_alloc, _iso_calloc"), ("usable size", A+": _iso_chunk_size")],
 None, ["return value", "iso_chunksz", "page protections"], None)
prop("C03", "calloc zeroes, realloc preserves, and array sizes never overflow",
 "calloc and reallocarray return NULL whenever the product of their arguments is not representable and otherwise give at least the product in bytes, calloc memory being all zero over the requested extent whatever the chunk held before. realloc returns a new chunk whose first min(old usable size, new size) bytes equal the old content, behaves as allocation for NULL and as free for size 0, and leaves the old chunk untouched and live when it fails.",
 ["inputs", "histories"],
 "All ordered pairs of size-class edges (small and big) for realloc from allocations with dirty recycled memory, all boundary pairs (n, s) for the product, with other big and small allocations live around them.",
 "Tests realloc a few sizes upward and never realloc big allocations with several big allocations live; calloc is tested with a handful of products.",
 [A, I], [("calloc", A+": _iso_calloc"), ("realloc", I+": iso_realloc"), ("reallocarray", I+": iso_reallocarray")], None,
 ["returned memory content", "return values"], CONF)
prop("C04", "Duplicated strings are complete, terminated and in bounds",
 "The string duplication calls return a NUL-terminated copy of the argument, or of its first n bytes when it is longer for the bounded form, stored wholly inside the returned allocation, never reading past the source terminator or limit. This holds for the general and the private-zone forms, for empty strings and a zero limit; a NULL source gives NULL.",
 ["inputs"],
 "Every source length and limit from 0 to above several size-class edges, with the destination chunk recycled and pre-filled with non-zero bytes, and sources ending directly before an inaccessible page.",
 "The interface test duplicates one string and never inspects the terminator in recycled memory.",
 [I], [("strdup family", I+": iso_strdup_from_zone, iso_strndup_from_zone")], None, ["bytes of the returned string", "page faults"], None)
prop("C05", "Every double free is detected and terminates the process",
 "Freeing the same chunk twice without an intervening reallocation of it terminates the process, for small, private-zone and big allocations and for every combination of the freeing calls, no later than the point at which delayed frees are processed. No intervening sequence of other valid operations lets the second free go undetected or makes one chunk available twice.",
 ["histories", "inputs"],
 "All pairs of freeing calls, all sizes classes, and all interleavings of up to the stated number of other valid operations between and after the two frees.",
 "The tests contain one immediate double free of a small and of a big chunk.",
 [A], [("double free checks", A+": iso_free_chunk_from_zone, iso_free_big_zone, iso_find_big_zone"), ("delayed frees", A+": flush_chunk_quarantine")],
 None, ["process termination"], CONF)
prop("C06", "Freeing a pointer that is not a live allocation terminates the process",
 "Passing to any freeing call a pointer that is not the start of a live allocation - an interior or unaligned pointer, a slot that was never handed out, a canary chunk, memory not owned by the allocator, a pointer into a guard page, a chunk of a different private zone, or memory of a destroyed zone - terminates the process by the time delayed frees are processed. It never corrupts or releases another live allocation.",
 ["inputs", "histories"],
 "For each of several heap states: every chunk slot of a zone and every byte offset of selected chunks, zone boundary addresses, neighbours in address space, and wild addresses, through every freeing call.",
 "The tests free one wild, one unaligned and one interior pointer.",
 [A], [("address validation", A+": iso_free_chunk_from_zone, iso_find_zone_range, iso_find_big_zone, _iso_free")], None, ["process termination", "state of the other live chunks"], CONF)
prop("C07", "A sized free that claims more than the chunk holds terminates the process",
 "A sized free succeeds for every size from the requested one up to the usable size of the chunk, small or big, and terminates the process for every size above the usable one. A non-zero sized free of the zero-size placeholder also terminates the process.",
 ["inputs"],
 "For every size class (and big allocations of several page counts): every claimed size around each class edge and boundary value, with neighbours live.",
 "One test frees one chunk with one wrong size.",
 [A], [("size check", A+": _iso_free_size")], None, ["process termination"], None)
prop("C08", "Any corruption of a free chunk's canary is detected at its next use",
 "After any byte of the leading or trailing canary of a free or canary chunk is changed, the next whole-heap or zone verification, the reuse of that chunk, and the release of either neighbour each terminate the process, whatever the chunk size, position and history. On an uncorrupted heap none of them does, and the first byte of each canary in memory is zero.",
 ["inputs", "histories"],
 "Every size class up to the small limit; every byte of both canaries; first, middle and last chunk of a zone and of bitmap words; each detection trigger; chunks freed by each freeing call.",
 "Tests corrupt one chunk's canary at one position and observe one trigger.",
 [A, S], [("canaries", A+": write_canary, check_canary, iso_free_chunk_from_zone, _iso_alloc_bitslot_from_zone"), ("verification", S+": _verify_zone")], None,
 ["process termination", "canary bytes in free chunks"], CONF)
prop("C09", "Private zones are isolated, hold what they promise and can be destroyed",
 "A chunk allocated from a private zone lies in that zone's own region; no general allocation and no other zone's allocation ever does, and a zone yields at least its reported chunk count before returning NULL while freed chunks become available again. Destroying a zone at any time, including at zone-table capacity, makes its memory inaccessible, invalidates nothing else, and requests for zones with unsupported chunk sizes yield no handle.",
 ["histories", "inputs"],
 "All operation sequences to the stated depth over two private zones and the general heap with full/empty zones, every chunk size class for capacity, and destruction at capacity.",
 "The pool and interface tests use a couple of zones of fixed sizes in a fixed order.",
 [A, I], [("private zones", A+": is_zone_usable, find_suitable_zone, _iso_alloc_destroy_zone_unlocked"), ("chunk count", I+": iso_zone_chunk_count")],
 None, ["addresses returned", "return values", "page mappings"], CONF)
prop("C10", "The allocator is correct under every thread interleaving",
 "For every interleaving of threads allocating, freeing (own and each other's chunks), reallocating, flushing and verifying, no chunk is given to two owners, no valid call aborts, crashes, deadlocks or loses an allocation, and the heap verifies and is fully releasable afterwards. This holds with the mutex and with the spinlock build.",
 ["schedules", "programs"],
 "All schedules (up to the stated preemption bound) of each of a family of small multi-threaded programs covering every pair of operations on shared zones, big zone lists, the delayed-free buffer and private zones.",
 "The thread tests run a few random loops under whatever schedules the machine produces.",
 [A, I, S], [("locks", "include/iso_alloc_internal.h: LOCK_ROOT, LOCK_BIG_ZONE_FREE, LOCK_BIG_ZONE_USED"), ("thread cache", A+": populate_zone_cache")], None,
 ["return values", "content of allocations", "termination of each thread"], "lock operations and compiler-inserted memory access callbacks; no source hook")
prop("C11", "The allocator is free of data races",
 "In every interleaving of API calls by several threads, any two conflicting accesses to memory shared through the allocator are ordered by its locks. This covers allocation state, random state, sampling state, statistics and profiling counters, in every build option set that supports threads.",
 ["schedules", "programs", "configurations"],
 "All sync-level schedules (up to the stated preemption bound) of programs that run every pair of API operations concurrently, with a happens-before check of every instrumented access.",
 "No test runs under a race detector and the races need specific overlaps such as verification against big allocation.",
 [A, S, PR], [("lock discipline", A), ("sampling lock", S+": _iso_alloc_sample")], None, ["instrumented memory accesses", "lock operations"], "compiler instrumentation only")
prop("C12", "Guard pages fence every region of user and metadata memory",
 "At every moment each range of small-zone user memory, zone bitmap, allocator root, zone table, lookup table and delayed-free buffer (and big user memory or big metadata when configured) is immediately preceded and followed by an inaccessible page that belongs to the allocator. Guard pages stay inaccessible until their region is released and no user memory is ever inside one.",
 ["histories", "configurations"],
 "Every state reached by all operation sequences to the stated depth, every zone size class, with mappings placed back to back so that nothing else separates them, for each guard-related build option.",
 "No test inspects page protections.",
 [U, A], [("guarded mappings", U+": mmap_guarded_rw_pages, create_guard_page"), ("zone guards", A+": _iso_new_zone")], None, ["the page protections requested from the kernel"], CONF)
prop("C13", "Kernel failures never leave the allocator running in a bad state",
 "If any single or repeated request to the kernel for memory, page protection or entropy fails at any point of any operation, the operation either terminates the process or reports failure with NULL. It never returns unusable, unprotected or overlapping memory, and if it returns, the heap remains fully usable.",
 ["fault_sequences", "histories"],
 "Every kernel request index in every operation of each history (start-up, small and big allocation, zone creation, retirement, destruction, freeing), failing once or from then on.",
 "Tests never make a system call fail.",
 [U, A, "src/iso_alloc_random.c"], [("checked system calls", U+": mmap_pages, mprotect_pages"), ("entropy", "src/iso_alloc_random.c: rand_uint64")], None, ["process termination", "return values", "page protections"], CONF)
prop("C14", "Memory is recycled: freeing makes room and the footprint stays bounded",
 "Freed memory becomes available again, so any allocation pattern that returns to the same live set keeps the number and total size of mappings within a fixed bound, and releasing a big allocation that is not retained for reuse or destroying a zone unmaps all of its pages and metadata. Heavily used zones and big allocations are retired and replaced after their documented lifetime without affecting any live allocation.",
 ["histories"],
 "Cyclic histories to a fixed point for each size class and big size, all operation sequences to the stated depth over big sizes with short reuse lists, and complete retirement cycles for every retirable size class.",
 "Tests run for too short to see growth and never look at the mappings.",
 [A, U], [("retirement", A+": _is_zone_retired, _iso_alloc_destroy_zone_unlocked"), ("big zone free list", A+": iso_free_big_zone, _iso_big_alloc")], None, ["mappings held"], CONF)
prop("C15", "A permanently freed chunk is never handed out again",
 "Once a chunk has been permanently freed, no later allocation ever overlaps it while its zone exists; the former content of a small chunk is erased at once, and the memory of a big allocation is inaccessible from then on. Other chunks keep being allocated and freed normally around it.",
 ["histories"],
 "All operation sequences to the stated depth with permanent frees in each form, followed by exhausting the zone completely, plus retirement pressure and realloc when built to free permanently.",
 "One test permanently frees a chunk and allocates a few times.",
 [A, I], [("permanent free", A+": iso_free_chunk_from_zone, iso_free_big_zone")], None, ["addresses returned", "bytes of the freed chunk", "page protections"], CONF)
prop("C16", "Freed chunks are quarantined before they can be reused",
 "A small chunk released with the ordinary free is not handed out again until the delayed-free buffer has been flushed, which happens only when it is full, on explicit request or when a zone is destroyed, whichever operations run in between. After a flush every delayed chunk is available for reuse exactly once.",
 ["histories"],
 "All operation sequences to the stated depth with a reduced buffer, and every fill level 0..capacity with the shipped capacity.",
 "Tests never check the reuse distance.",
 [A], [("delayed free buffer", A+": _iso_free, flush_chunk_quarantine")], None, ["addresses returned by later allocations"], CONF)
prop("C17", "Leak and usage accounting equals the live allocations",
 "With leak detection built in, the leak count of a zone equals the number of its chunks that are allocated and not yet released, and the whole-heap count equals the sum over zones plus the bytes of live big allocations. Reported memory use equals the megabytes of mapped zones and big allocations, and asking never changes the heap. In builds that log, the report names each live chunk once, at its address and with its size, and no other, each live big allocation's size, and per zone the number in use, the number used and free again, and their share.",
 ["histories"],
 "All operation sequences to the stated depth over private, general and big allocations with each freeing call; each size class.",
 "The leak test checks one fixed pattern.",
 [PR], [("leak detector", PR+": _iso_alloc_zone_leak_detector, _iso_alloc_detect_leaks"), ("usage", PR+": __iso_alloc_mem_usage")], None, ["return values"], CONF)
prop("C18", "Memory tags round-trip, verify and change on free",
 "In tagging builds, tagging and untagging a chunk of a private zone are inverse, verification accepts exactly the chunk's current tag and terminates the process for any other, for every chunk size and slot. Freeing gives the chunk a fresh tag so that a stale tagged pointer is rejected, tags refresh for the whole zone at the documented age, and neither touches any other chunk's tag or memory.",
 ["inputs", "histories"],
 "Every chunk size class, every slot of selected zones, all 256 tag values, and all operation sequences to the stated depth over tagged and untagged frees.",
 "The tagging tests use one power-of-two size and a few pointers.",
 [T, A, I], [("tags", T), ("retag on free", A+": _iso_free_internal_unlocked")], None, ["returned pointers and tags", "process termination"], CONF)
prop("C19", "Hooked memory functions compute the right result and catch chunk overflows",
 "With the libc sanity hooks built in, memcpy, memmove and memset behave exactly as the C standard says for every length and overlap that stays in bounds, and never terminate a correct program. A copy or fill longer than 32 bytes that starts at a chunk of a zone the lookup finds and exceeds that chunk's size terminates the process before writing.",
 ["inputs"],
 "Every length up to several hundred bytes, every relative overlap offset, every chunk size class, source or destination in chunks, in big allocations and outside the heap, and lengths around the chunk size.",
 "One overflow per function is tested.",
 [S, "src/libc_hook.c"], [("checks", S+": _iso_alloc_memcpy, _iso_alloc_memmove, _iso_alloc_memset")], None, ["destination bytes", "process termination"], None)
prop("C20", "Sampled allocations are fenced, verified and unmapped on free",
 "With sampling built in, a sampled allocation is usable for the requested size on its own page between inaccessible pages, any change to the unused bytes of that page is detected when it is freed, and its page is unmapped on free so later access faults. Any number of sampled and ordinary allocations can be mixed, including at the sampling limit, and every API call accepts a sampled pointer; private zones are never sampled.",
 ["histories", "inputs", "configurations"],
 "All operation sequences to the stated depth with the sampling decision and alignment as explored choices and a small sampling limit; every size below a page; every byte of the slack.",
 "Sampling has odds of 1 in 10000, so tests rarely exercise it.",
 [S, A], [("sampling", S+": _iso_alloc_sample, _iso_alloc_free_sane_sample, check_sanity_canary")], None, ["page protections", "process termination", "return values"], "random decisions become explored choices under ISOALLOC_MC")
prop("C21", "Zero-size allocations are never readable, writable or shared with real chunks",
 "A zero-size request through any allocating call yields a pointer to an inaccessible page that is never part of any other allocation; only realloc and reallocarray may yield NULL instead. It can be freed any number of times by any freeing call that accepts its size, has usable size 0, and realloc to and from it works.",
 ["histories", "inputs"],
 "All operation sequences to the stated depth mixing zero-size and ordinary allocations through each entry point, including as the very first call.",
 "One test dereferences one zero-size allocation.",
 [A, I], [("placeholder page", A+": _iso_alloc, _iso_free, _iso_chunk_size")], None, ["return values", "page protections"], CONF)
prop("C22", "Allocations are separated by size as configured",
 "A general request above 1024 bytes is never placed in a chunk 8 or more times its rounded size, and small, big and private allocations never share a region. With strong size isolation every small allocation comes from a zone of exactly its rounded size, so no two live chunks of one zone have different rounded sizes.",
 ["inputs", "histories", "configurations"],
 "Every size class pair and all operation sequences to the stated depth with zones of several sizes present, warm and cold thread caches and full zones.",
 "No test looks at which zone serves a request.",
 [A], [("zone selection", A+": is_zone_usable, find_suitable_zone, _iso_alloc")], None, ["usable size and address of allocations"], CONF)
prop("C23", "The malloc and C++ operator replacements keep their language contracts",
 "Every replaced malloc-family function and every form of operator new and delete allocates at least the requested size from this allocator and releases it correctly with every matching form, aligned requests for power-of-two sizes and alignments included. Throwing forms of new never return a null pointer, non-throwing forms never throw, and posix_memalign rejects invalid alignments with an error code.",
 ["inputs"],
 "All pairings of allocating and releasing forms over all size classes, alignments up to a page and oversize requests.",
 "The C++ test allocates a few objects in fixed patterns and no oversize request.",
 [M, CPP], [("malloc hook", M), ("operators", CPP)], None, ["return values", "exceptions"], None)
prop("C24", "Initialisation and teardown are idempotent, ordered and complete",
 "Initialising any number of times, or allocating before initialisation where start-up is automatic, yields one fully working heap with the same guarantees as normal start-up. Destroying it processes delayed frees and verifies every zone, ending the process on damage, and in clean-up builds releases every mapping the heap made and allows the library to be initialised and used again.",
 ["histories", "configurations"],
 "All sequences up to the stated depth over initialise, allocate, free, zone creation, destroy, in automatic and manual start-up builds.",
 "One test initialises and destroys once.",
 [A], [("start-up", A+": _iso_alloc_initialize, iso_alloc_initialize_global_root"), ("tear-down", A+": _iso_alloc_destroy")], None, ["return values", "mappings held", "process termination"], CONF)
prop("C25", "Zone metadata does not expose the addresses it protects",
 "Between API calls, with pointer masking on, no word of a zone table entry is the plain address of anything in the zone's user pages or bitmap, no list head or record of big allocations holds the plain address of a successor record, and zone handles differ from the zone's address. Masked values still resolve to the right zone or record for every mask value.",
 ["histories", "inputs"],
 "Every state of all operation sequences to the stated depth with varied mask values including all-zero-low-bit and all-ones patterns.",
 "No test scans the metadata.",
 [A, "include/iso_alloc_internal.h"], [("masking", "include/iso_alloc_internal.h: MASK_ZONE_PTRS, UNMASK_BIG_ZONE_NEXT")], None, ["metadata bytes"], "random values become explored choices under ISOALLOC_MC")
prop("C26", "Clearing options leave no old data in freed chunks",
 "With chunk sanitising built in, every byte of a freed chunk outside its canaries holds the poison value once the free has been processed, for small, private and big allocations; without it, permanent frees still do. With protection of free big allocations built in, a freed big allocation is inaccessible until it is reused and fully accessible once it is.",
 ["inputs", "histories", "configurations"],
 "Every size class, each freeing call, all operation sequences to the stated depth over big allocations.",
 "No test inspects freed memory.",
 [A], [("sanitising", A+": iso_free_chunk_from_zone, iso_free_big_zone")], None, ["bytes of freed chunks", "page protections"], CONF)
prop("C27", "Dangling-reference poisoning hits only real references to the freed chunk",
 "With dangling-reference search built in, when the free of a zone chunk is selected for the search one stored word equal to the freed address in zone memory, if there is any, is replaced by the address of an inaccessible page, and no other byte of any live allocation changes. When no reference exists, or the free is not selected, nothing changes.",
 ["inputs", "histories"],
 "All placements of 0, 1 and 2 references at every offset of live chunks across zones, selected and unselected frees.",
 "The search has odds of one in a million, so tests do not execute it.",
 ["src/iso_alloc_search.c", A], [("search", "src/iso_alloc_search.c: _iso_alloc_ptr_search")], None, ["bytes of live allocations"], "random decisions become explored choices under ISOALLOC_MC")
prop("C28", "Protecting the root blocks all use and unprotecting restores it",
 "While the root is protected all its pages and no others are inaccessible and, in builds with threads, concurrent allocator calls either wait or fault; after unprotecting, the heap behaves exactly as if it had not happened. Protect and unprotect pairs can be placed at any point of any history.",
 ["histories", "schedules"],
 "All operation sequences to the stated depth with protect/unprotect pairs inserted, and all schedules with a second thread allocating meanwhile.",
 "One test toggles protection once.",
 [A], [("protection", A+": _iso_alloc_protect_root, _iso_alloc_unprotect_root")], None, ["page protections", "return values"], CONF)
prop("C29", "Secrets, requested addresses and slot orders follow fresh kernel entropy",
 "Every mapping is requested at an address taken from entropy the kernel supplied for it. Every zone, also one that replaces a retired zone, gets a secret, a first slot order and (built in) tags that follow entropy requested while it was made, later slot orders follow entropy requested after that, and handles, check words and links of big allocations follow entropy requested at start-up. No bit of such a secret is constant and no two zones share a secret.",
 ["inputs", "histories"],
 "Every single-bit change of every word of entropy requested by a program that uses zones of every kind; the dependence has to show in some run, and the sharing in none.",
 "Tests cannot control the random source, and a constant or reused secret changes no result they look at.",
 ["src/iso_alloc_random.c", A, U], [("random source", "src/iso_alloc_random.c: us_rand_uint64, rand_uint64"), ("seeds and secrets", A+": _iso_new_zone, fill_free_bit_slots, iso_alloc_initialize_global_root"), ("address hints", U+": mmap_pages")], None, ["requested addresses", "bytes of freed chunks", "order of returned addresses", "zone handles"], "answers of getrandom are chosen by the explorer")
prop("C30", "With hardware memory tagging valid accesses pass and stale pointers do not",
 "Built with ARM_MTE on hardware that has memory tagging, every pointer handed out (default and private zones, big allocations, realloc, calloc, strdup) carries a non-zero tag that was drawn by that call, and all of its usable size carries that tag, until it is freed: whatever happens to other allocations, valid accesses pass. iso_free gives the first 16 bytes another tag at once, also while the free is delayed; when a chunk's free has been carried out all of it has a newly drawn tag. The allocator itself never accesses memory with a wrong tag and never tags memory it has unmapped. Pointers are accepted with their tag wherever a pointer is. On hardware without memory tagging the same build uses no tags and behaves like any other.",
 ["inputs", "histories", "configurations"],
 "Every size class through every freeing call, zones filled to the end and retired, every short history, every way the hardware may choose tags, hardware with and without tagging.",
 "The tests run on hardware without tagging; on such hardware the option's code is not even compiled.",
 ["src/iso_alloc_mte.c", "src/iso_alloc.c", "src/iso_alloc_util.c"], [("tagging instructions", "src/iso_alloc_mte.c: iso_mte_set_tag_range, iso_mte_create_tag, iso_mte_set_tag"), ("their use", "src/iso_alloc.c: _iso_alloc, _iso_big_alloc, _iso_free, iso_free_chunk_from_zone, iso_find_zone_range, iso_find_big_zone")], None, ["returned pointers", "tags of memory", "accesses"], "hardware modelled; UAF_PTR_PAGE, EXPERIMENTAL and ALLOC_SANITY not built in")
prop("C31", "The heap profiler records every sampled call and changes nothing else",
 "With the heap profiler built in, every sampled allocation and free is recorded under its call path with its call count and, for allocations, the smallest and largest size; the trace calls return every recorded path, resetting forgets them all, and the written profile agrees with them and with the usage of the zones. Sampling changes nothing else: it never crashes, whatever the chunk sizes, and leaves the heap and its contents as without it.",
 ["inputs", "histories", "configurations"],
 "All sequences of sampled and unsampled calls through distinct call paths, every number of paths up to and past the capacity, every fill level of every zone class.",
 "Sampling has odds of one in ten thousand and no test reads the traces or the profile.",
 ["src/iso_alloc_profiler.c", "include/iso_alloc_profiler.h", "include/iso_alloc.h"], [("sampling", "src/iso_alloc_profiler.c: _iso_alloc_profile, _iso_free_profile"), ("profile", "src/iso_alloc_profiler.c: _iso_output_profile")], None, ["returned traces", "the written profile"], "random decisions become explored choices under ISOALLOC_MC")
prop("C32", "Uninitialised reads of sampled allocations end the process and nothing else does",
 "With uninitialised-read detection built in, reading a sampled allocation before anything was written to it ends the process, at whatever offset; the first write ends the watching; allocations that come initialised are readable at once. No valid use, including the release of written or untouched allocations by any free call, is ever reported or blocked, and a freed sampled allocation is unmapped.",
 ["inputs", "histories", "configurations"],
 "All sequences of sampled and unsampled allocations, writes, reallocations and releases to the stated depth; every offset of several sizes, read first, written first, and written then read.",
 "Sampling has odds of one in ten thousand, the build option is off in every test, and a test cannot make the process end and go on.",
 [S, A], [("page fault handler", S+": _page_fault_thread_handler"), ("registration", S+": _iso_alloc_sample"), ("release", S+": _iso_alloc_free_sane_sample")], None, ["process termination", "page protections", "contents"], "random decisions become explored choices under ISOALLOC_MC; the kernel's userfaultfd is modelled at the system call")
prop("C33", "Every deliberate termination is reported first, completely and truthfully",
 "When the allocator ends the process because it detected a misuse or damage, it first writes exactly one complete line to standard output that names the process and the place and says what was detected, with the address at fault and, for sized frees and hooked copies, both sizes; then the process aborts, whether or not the line could be written. Built with the signal handler, every access to an inaccessible address ends this way, and accesses through a poisoned dangling reference are called a use after free. Built to abort on NULL, no request that cannot be met returns NULL, except that array sizes which overflow still do.",
 ["inputs", "faults", "configurations"],
 "Every kind of misuse of chunks of every size class in general and private zones from each start state, of sampled, tagged and hooked memory; every inaccessible mapping and offset of the poison page as a fault; the report written, refused, or cut short.",
 "Tests check that some misuse ends the process, by its exit status; none reads the report, and the signal handler and abort-on-NULL builds are not tested.",
 ["src/iso_alloc_printf.c", "src/iso_alloc_signal.c", A, I, S], [("report", "src/iso_alloc_printf.c: _iso_alloc_printf; include/iso_alloc_internal.h: LOG_AND_ABORT"), ("signal handler", "src/iso_alloc_signal.c: handle_signal"), ("abort on NULL", A+": _iso_alloc, _iso_calloc, _iso_big_alloc")], None, ["standard output", "process termination"], None)
prop("C34", "With CPU pinning a zone serves only the core that created it",
 "Built with CPU pinning, every small allocation, general or private, is placed in a zone that was created by a thread running on the core the allocating thread runs on, for every core number the system reports. General requests never fail for lack of such a zone, a core is served from its own zones for ever without the number of zones growing, a private zone yields NULL to other cores, and chunks can be released on any core.",
 ["inputs", "histories", "configurations"],
 "All operation sequences to the stated depth in which the thread changes cores between calls and in the middle of them; every pair of core numbers around every power of two.",
 "The build option is off in every test, and a test runs on the cores it is given, of which there are few.",
 [A, U], [("pinning", A+": is_zone_usable, _iso_new_zone"), ("core", "src/iso_alloc_util.c: _iso_getcpu; include/iso_alloc_ds.h: cpu_core")], None, ["addresses returned", "return values", "mappings made"], "sched_getcpu is answered by the explorer")
prop("C35", "Every zone sets canary chunks aside, and canaries are bound to their chunk and zone",
 "Every zone for chunks of up to 8192 bytes, whichever way it came to be and whatever entropy it was given, keeps between one and 1/128 of its chunks as canary chunks that it never hands out, and zones of larger chunks keep none. The canary words in a free or canary chunk agree, begin with a zero byte so that reading them as a string ends there, and follow the chunk's address and the zone's secret: no two chunks more than 256 bytes apart and no two zones share one, so that a canary copied to another chunk is detected as damage.",
 ["inputs", "configurations"],
 "Every size class and way to make a zone, under each kind of random answers; all chunks of the zone; pairs of chunks and of zones.",
 "Tests overwrite canaries with constants and never count canary chunks or compare canaries.",
 [A], [("canary chunks", A+": create_canary_chunks"), ("canaries", A+": write_canary, check_canary; "+S+": _verify_zone")], None, ["addresses returned until a zone is full", "contents of free chunks", "process termination"], "random draws become explored choices under ISOALLOC_MC")
prop("C36", "Damage to the allocator's own records is detected before it misleads anyone",
 "After any byte of either canary in the record of a big allocation, in use or retained for reuse, is changed, whole-heap verification, its release in every form, its reuse, a look-up that reaches it and heap destruction each end the process. A chunk in use whose slot appears a second time in its zone's list of free slots is never given to a second owner; built to verify free slots its release ends the process. Built in fuzzing mode any damaged canary, anywhere in the heap, ends the process at the next small allocation or processed release, whatever their size and zone. An undamaged heap never triggers any of this.",
 ["inputs", "histories", "configurations"],
 "Every byte (thorough: bit) of the canaries of three big allocations, with every subset released in either order, under each observer; every entry of the list of free slots, short and shipped length; in fuzzing mode every kind of victim with each of 12 calls.",
 "Tests damage one record in one way, and the fuzzing and slot verification builds run only on undamaged heaps.",
 [A, S], [("big records", A+": check_big_canary, iso_find_big_zone, _iso_big_alloc"), ("free slots", A+": insert_free_bit_slot"), ("whole-heap verification", S+": _verify_all_zones")], None, ["process termination", "addresses returned"], None)
prop("C37", "A zone is replaced exactly when its allotment is used up and nothing of it is in use",
 "A general zone of chunks below 16 KB that has handed out more than its allotment (the configured multiple of its number of chunks) is unmapped and replaced by the call that releases the last of its chunks, in whichever form that happens: at once, when delayed frees are processed, or inside a resizing call. It is never replaced while one of its chunks is in use or its release still delayed, nor before its allotment is used up, nor by any call that releases nothing; private zones and zones of larger chunks are never replaced, however long they live.",
 ["inputs", "histories", "configurations"],
 "All operation sequences to the stated depth around the end of the allotment, with delayed and immediate releases mixed and a private zone past its own; every size class through two lifetimes.",
 "Tests live through at most one lifetime of one zone and do not look at mappings.",
 [A], [("retirement", A+": _is_zone_retired, _iso_free_internal_unlocked, _iso_alloc_destroy_zone_unlocked")], None, ["mappings made and removed", "addresses returned"], None)
prop("C38", "What is asked of the kernel fits each kind of memory and is never asked for more",
 "All memory the allocator obtains is private and anonymous, wherever the kernel likes, and never becomes executable. Pages are only ever given up when they were just mapped or belong to a big allocation that was released: never those of a live allocation or of records in use. With memory locking, all tables made at the start (root, zone table, delayed frees, caches, lookup table) are locked completely, without it nothing is, and neither bitmaps nor user memory ever are. With pre-population the root, the caches, the delayed frees, the lookup table and the bitmaps mapped for one zone are populated, and user memory never is. With named mappings the pages of every allocation, guard page, and memory tag bear the name of their kind or the one the program gave their zone, in a form the kernel accepts. Huge pages are only asked for when enabled, and for nothing that has guard pages cut from it. The kernel refusing locks, advice or names changes nothing else.",
 ["inputs", "histories", "faults", "configurations"],
 "All operation sequences to the stated depth under each option; each with those requests granted and refused, with huge pages and without.",
 "Nothing in the tests looks at attributes of mappings, and most of the options are built but their effect is not checked.",
 ["src/iso_alloc_util.c", A], [("mappings", U+": mmap_pages, name_mapping, dont_need_pages"), ("locks", A+": iso_alloc_initialize_global_root"), ("names", I+": iso_alloc_name_zone; include/conf.h")], None, ["requests to the kernel", "return values"], "the kernel's answers are those of the explorer")
prop("C39", "Searching the stack reports exactly the chunk pointers on it, with their true state",
 "With the experimental interface and logging built in, iso_alloc_search_stack reports every pointer to the start of a chunk that lies on the stack between the given place (or the environment when none is given) and the call, whatever its alignment there, and tells truthfully whether that chunk is in use or free. It reports no other value as a chunk, nothing beyond the given place, and changes neither the heap nor its contents. (Chunks at multiples of 16 MB are passed over, and pointers into chunks that are not multiples of 8, or to bitmaps, end the process.)",
 ["inputs", "histories", "configurations"],
 "Every size class; live, freed, delayed, first and last chunks; every offset of the pointer against every start of the search; several pointers at once.",
 "No test calls it.",
 ["src/iso_alloc_search.c", I], [("search", "src/iso_alloc_search.c: _iso_alloc_search_stack")], None, ["the log"], "none")
prop("C40", "With Address Sanitizer support exactly the memory in use is accessible",
 "Built with ENABLE_ASAN, the allocator tells the sanitizer at every moment that the whole usable size of each live allocation is accessible and that everything else in the pages of a zone is not: memory never handed out, freed chunks from the moment their free is processed, permanently freed chunks. Freed big allocations that are kept for reuse are inaccessible until they are handed out again, in full. Nothing else is poisoned: neither the allocator's own records nor memory it returned to the kernel, also after iso_alloc_destroy. The allocator itself never touches poisoned memory in valid use, and double, misaligned and wild frees are still refused.",
 ["inputs", "histories", "configurations"],
 "Every size class through every freeing call, zones filled to the end and emptied, retirement, replacement, big allocations reused at another size, tear-down and restart.",
 "The tests run without the sanitizer, and with it only see reports their own accesses cause.",
 ["include/iso_alloc_internal.h", "src/iso_alloc.c"], [("poisoning macros", "include/iso_alloc_internal.h: POISON_ZONE, UNPOISON_ZONE_CHUNK, POISON_BIG_ZONE"), ("their use", "src/iso_alloc.c: _iso_alloc_bitslot_from_zone, iso_free_chunk_from_zone, iso_free_big_zone, _iso_big_alloc")], None, ["the sanitizer's interface"], "none")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
