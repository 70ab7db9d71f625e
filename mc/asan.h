/* Address Sanitizer's interface as a model */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
size_t as_poisoned(uintptr_t a, size_t n);               /* poisoned bytes of a range */
long as_ranges(void);                                    /* poisoned ranges, in order of their addresses */
void as_range(long i, uintptr_t *a, uintptr_t *e);
extern long as_accesses;
