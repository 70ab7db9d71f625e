/* Included at the end of /repo/include/conf.h when ISOALLOC_MC is defined.
 * Each limit is lowered only when the build configuration asks for it. */
#pragma once
#ifdef MC_QUARANTINE
#undef CHUNK_QUARANTINE_SZ
#define CHUNK_QUARANTINE_SZ MC_QUARANTINE
#endif
#ifdef MC_RETIRE
#undef ZONE_ALLOC_RETIRE
#define ZONE_ALLOC_RETIRE MC_RETIRE
#endif
#ifdef MC_BIG_FREE_LIST
#undef BIG_ZONE_MAX_FREE_LIST
#define BIG_ZONE_MAX_FREE_LIST MC_BIG_FREE_LIST
#endif
#ifdef MC_BIG_RETIRE
#undef BIG_ZONE_ALLOC_RETIRE
#define BIG_ZONE_ALLOC_RETIRE MC_BIG_RETIRE
#endif
#ifdef MC_MAX_ZONES
#undef MAX_ZONES
#define MAX_ZONES MC_MAX_ZONES
#endif
#ifdef MC_ZONE_CACHE
#undef ZONE_CACHE_SZ
#define ZONE_CACHE_SZ MC_ZONE_CACHE
#endif
#ifdef MC_UAF_ODDS
#undef UAF_PTR_PAGE_ODDS
#define UAF_PTR_PAGE_ODDS MC_UAF_ODDS
#endif
#ifdef MC_FEW_ZONES
/* Fewer start-up zones: cheaper forks, and more sizes have no zone yet */
static const uint64_t mc_default_zones[] = {ZONE_64, ZONE_1024, ZONE_8192};
#define default_zones mc_default_zones
#endif
