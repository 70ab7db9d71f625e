/* The only part that names the allocator's own structures: where bitmaps and the zone table are, and the names configured for mappings */
#include "iso_alloc_internal.h"
int c38_bitmaps(uintptr_t *s) { /* start addresses of all mappings that hold bitmaps */
    int n = 0;
    for(size_t i = 0; i < sizeof _root->bitmaps / sizeof *_root->bitmaps; i++) if(_root->bitmaps[i].bitmap) s[n++] = (uintptr_t) _root->bitmaps[i].bitmap;
    for(size_t i = 0; i < _root->zones_used; i++) {
        iso_alloc_zone_t *z = &_root->zones[i];
        if(z->bitmap_start && z->preallocated_bitmap_idx == -1) s[n++] = (uintptr_t) UNMASK_BITMAP_PTR(z);
    }
    return n;
}
uintptr_t c38_root(void) { return (uintptr_t) _root; }
uintptr_t c38_zones(size_t *n) { *n = _root->zones_size; return (uintptr_t) _root->zones; }
const char *c38_name(int k) {
    static const char *const nm[] = {INTERNAL_UZ_NAME, PRIVATE_UZ_NAME, BIG_ZONE_UD_NAME, GUARD_PAGE_NAME, ROOT_NAME,
#if NAMED_MAPPINGS
        MEM_TAG_NAME, SAMPLED_ALLOC_NAME, ZONE_BITMAP_NAME, PREALLOC_BITMAPS
#endif
    };
    return nm[k];
}
