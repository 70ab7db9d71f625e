/* The only part that names the allocator's own structures: where the metadata is */
#include "iso_alloc_internal.h"
/* the root holds the addresses of its tables by design, the quarantine those of delayed frees */
void c25_exempt(uintptr_t *a, int *n) { a[0] = (uintptr_t) _root; a[1] = (uintptr_t) _root->chunk_quarantine; *n = 2; }
void c25_table(uintptr_t *s) { *s = (uintptr_t) _root->zones; }
void c25_heads(uintptr_t *h, int *n) { h[0] = (uintptr_t) _root->big_zone_free; h[1] = (uintptr_t) _root->big_zone_used; *n = 2; }
