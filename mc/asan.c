/* Address Sanitizer's interface as a model: it keeps which bytes are poisoned and
 * checks every access made by the allocator, whose sources are compiled so that
 * each access is reported through the functions below. */
#include "mc.h"
#include "asan.h"
#define MAXR 100000
static struct { uintptr_t a, e; } iv[MAXR];
static long niv;
long as_accesses;
static long find(uintptr_t a) { /* first range that ends after a */
    long l = 0, h = niv;
    while(l < h) { long m = (l + h) / 2; if(iv[m].e > a) h = m; else l = m + 1; }
    return l;
}
size_t as_poisoned(uintptr_t a, size_t n) {
    size_t r = 0;
    for(long i = find(a); i < niv && iv[i].a < a + n; i++) r += (iv[i].e < a + n ? iv[i].e : a + n) - (iv[i].a > a ? iv[i].a : a);
    return r;
}
long as_ranges(void) { return niv; }
void as_range(long i, uintptr_t *a, uintptr_t *e) { *a = iv[i].a; *e = iv[i].e; }
static void put(long at, long del, uintptr_t a1, uintptr_t e1, uintptr_t a2, uintptr_t e2) { /* replaces del ranges by up to two */
    int add = (a1 < e1) + (a2 < e2);
    if(niv + add - del > MAXR) mc_fail("harness: too many poisoned ranges");
    memmove(&iv[at + add], &iv[at + del], (niv - at - del) * sizeof iv[0]);
    niv += add - del;
    if(a1 < e1) { iv[at].a = a1; iv[at].e = e1; at++; }
    if(a2 < e2) { iv[at].a = a2; iv[at].e = e2; }
}
void __asan_poison_memory_region(const volatile void *p, size_t n) {
    uintptr_t a = (uintptr_t) p, e = a + n;
    if(!n) return;
    long i = find(a ? a - 1 : 0), j = i; /* also joins a range that ends just before */
    for(; j < niv && iv[j].a <= e; j++) { if(iv[j].a < a) a = iv[j].a; if(iv[j].e > e) e = iv[j].e; }
    put(i, j - i, a, e, 0, 0);
}
void __asan_unpoison_memory_region(const volatile void *p, size_t n) {
    uintptr_t a = (uintptr_t) p, e = a + n;
    if(!n) return;
    long i = find(a), j = i;
    uintptr_t fa = 0, le = 0;
    for(; j < niv && iv[j].a < e; j++) { if(j == i) fa = iv[j].a; le = iv[j].e; }
    if(j == i) return;
    put(i, j - i, fa, fa < a ? a : fa, e, le > e ? le : e);
}
void *__asan_region_is_poisoned(void *p, size_t n) {
    uintptr_t a = (uintptr_t) p;
    long i = find(a);
    if(!n || i == niv || iv[i].a >= a + n) return NULL;
    return (void *) (iv[i].a > a ? iv[i].a : a);
}
int __asan_address_is_poisoned(const volatile void *p) { return __asan_region_is_poisoned((void *) p, 1) != NULL; }
static void acc(uintptr_t a, size_t n, bool w) {
    as_accesses++;
    if(n && as_poisoned(a, n)) {
        /* the sanitizer ends the process */
        snprintf(env_msg, sizeof env_msg, "poisoned memory: the allocator itself %s %zu bytes at %p", w ? "writes" : "reads", n, (void *) a);
        abort();
    }
}
#define A(n) void __asan_load##n##_noabort(uintptr_t a) { acc(a, n, false); } void __asan_store##n##_noabort(uintptr_t a) { acc(a, n, true); } \
    void __asan_load##n(uintptr_t a) { acc(a, n, false); } void __asan_store##n(uintptr_t a) { acc(a, n, true); }
A(1) A(2) A(4) A(8) A(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { acc(a, n, false); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { acc(a, n, true); }
void __asan_loadN(uintptr_t a, size_t n) { acc(a, n, false); }
void __asan_storeN(uintptr_t a, size_t n) { acc(a, n, true); }
void *__asan_memcpy(void *d, const void *s, size_t n) { acc((uintptr_t) s, n, false); acc((uintptr_t) d, n, true); return memcpy(d, s, n); }
void *__asan_memmove(void *d, const void *s, size_t n) { acc((uintptr_t) s, n, false); acc((uintptr_t) d, n, true); return memmove(d, s, n); }
void *__asan_memset(void *d, int c, size_t n) { acc((uintptr_t) d, n, true); return memset(d, c, n); }
void __asan_handle_no_return(void) {}
