/* The vector operations the allocator uses where it is built for ARM, and
 * their nearest relatives, so that its vector code runs here. */
#pragma once
#include <stdint.h>
#define MC_V(T, E, N, S) \
    typedef E T __attribute__((vector_size(16))); \
    static inline T vld1q_##S(const void *p) { T v; __builtin_memcpy(&v, p, sizeof v); return v; } \
    static inline void vst1q_##S(void *p, T v) { __builtin_memcpy(p, &v, sizeof v); } \
    static inline T vdupq_n_##S(E x) { T v; for(int i = 0; i < N; i++) v[i] = x; return v; } \
    static inline T vmovq_n_##S(E x) { return vdupq_n_##S(x); } \
    static inline T vandq_##S(T a, T b) { return a & b; } \
    static inline T vorrq_##S(T a, T b) { return a | b; } \
    static inline T veorq_##S(T a, T b) { return a ^ b; } \
    static inline T vmvnq_##S(T a) { return ~a; } \
    static inline T vaddq_##S(T a, T b) { return a + b; }
MC_V(int64x2_t, int64_t, 2, s64)
MC_V(uint64x2_t, uint64_t, 2, u64)
MC_V(int32x4_t, int32_t, 4, s32)
MC_V(uint32x4_t, uint32_t, 4, u32)
MC_V(int8x16_t, int8_t, 16, s8)
MC_V(uint8x16_t, uint8_t, 16, u8)
#define vgetq_lane_s64(v, n) ((v)[n])
#define vgetq_lane_u64(v, n) ((v)[n])
#define vgetq_lane_s32(v, n) ((v)[n])
#define vgetq_lane_u32(v, n) ((v)[n])
#define vgetq_lane_u8(v, n) ((v)[n])
static inline uint64x2_t vceqq_s64(int64x2_t a, int64x2_t b) { return (uint64x2_t) (a == b); }
static inline uint64x2_t vceqq_u64(uint64x2_t a, uint64x2_t b) { return (uint64x2_t) (a == b); }
static inline uint64x2_t vceqzq_s64(int64x2_t a) { return (uint64x2_t) (a == 0); }
static inline uint64x2_t vceqzq_u64(uint64x2_t a) { return (uint64x2_t) (a == 0); }
static inline uint32_t vmaxvq_u32(uint32x4_t v) { uint32_t m = 0; for(int i = 0; i < 4; i++) m = v[i] > m ? v[i] : m; return m; }
static inline uint32_t vminvq_u32(uint32x4_t v) { uint32_t m = ~0u; for(int i = 0; i < 4; i++) m = v[i] < m ? v[i] : m; return m; }
#define vreinterpretq_u64_s64(v) ((uint64x2_t) (v))
#define vreinterpretq_s64_u64(v) ((int64x2_t) (v))
#define vreinterpretq_u32_u64(v) ((uint32x4_t) (v))
#define vreinterpretq_u32_s64(v) ((uint32x4_t) (v))
#define vreinterpretq_u8_u64(v) ((uint8x16_t) (v))
#define vreinterpretq_u8_s64(v) ((uint8x16_t) (v))
