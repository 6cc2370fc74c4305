/*
 * Common part of the harnesses. VP_CBMC: compiled with goto-cc, inputs are symbolic.
 * VP_NATIVE: compiled with a sanitizer, inputs come from a solver's counterexample on stdin.
 */
#ifndef VP_H
#define VP_H

#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef VP_CBMC

uint64_t nondet_u64(void);
uint32_t nondet_u32(void);
uint16_t nondet_u16(void);
uint8_t nondet_u8(void);
_Bool nondet_bool(void);

static uint64_t vp_input;
static inline uint64_t vp_u64(void) { vp_input = nondet_u64(); return vp_input; }
static inline uint32_t vp_u32(void) { vp_input = nondet_u32(); return (uint32_t)vp_input; }
static inline uint16_t vp_u16(void) { vp_input = nondet_u16(); return (uint16_t)vp_input; }
static inline uint8_t vp_u8(void) { vp_input = nondet_u8(); return (uint8_t)vp_input; }
static inline _Bool vp_bool(void) { vp_input = nondet_u8(); return vp_input & 1; }

#define VP_ASSUME(c) __CPROVER_assume(c)
#define VP_ASSERT(c, d) __CPROVER_assert(c, d)
#define VP_REACH(d) __CPROVER_assert(0, "VPREACH: " d)

/* the memory functions, as plain loops: CBMC's own models lose content for symbolic lengths */
#ifndef VP_MEM_BUILTIN
# include <string.h>
void *memset(void *s, int c, size_t n)
{
    size_t vp_m;
    for (vp_m = 0; vp_m < n; ++vp_m)
        ((unsigned char *)s)[vp_m] = (unsigned char)c;
    return s;
}
void *memcpy(void *restrict d, const void *restrict s, size_t n)
{
    size_t vp_m;
    for (vp_m = 0; vp_m < n; ++vp_m)
        ((unsigned char *)d)[vp_m] = ((const unsigned char *)s)[vp_m];
    return d;
}
void *memmove(void *d, const void *s, size_t n)
{
    size_t vp_m;
    if (d == s)
        return d;
    if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) {
        for (vp_m = n; vp_m-- > 0; )
            ((unsigned char *)d)[vp_m] = ((const unsigned char *)s)[vp_m];
    } else
        for (vp_m = 0; vp_m < n; ++vp_m)
            ((unsigned char *)d)[vp_m] = ((const unsigned char *)s)[vp_m];
    return d;
}
int memcmp(const void *a, const void *b, size_t n)
{
    size_t vp_m;
    for (vp_m = 0; vp_m < n; ++vp_m)
        if (((const unsigned char *)a)[vp_m] != ((const unsigned char *)b)[vp_m])
            return ((const unsigned char *)a)[vp_m] - ((const unsigned char *)b)[vp_m];
    return 0;
}
#endif

/* a library self check (BFDEV_BUG) that fires is a failure, not the end of the path */
#ifndef VP_ABORT_OK
void abort(void)
{
    __CPROVER_assert(0, "abort() reached");
    __CPROVER_assume(0);
}
#else
void abort(void) { __CPROVER_assume(0); }
#endif

#else /* VP_NATIVE */

static inline uint64_t vp_next(void)
{
    unsigned long long v;
    if (scanf("%llu", &v) != 1)
        v = 0;
    return v;
}
static inline uint64_t vp_u64(void) { return vp_next(); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_next(); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_next(); }
static inline uint8_t vp_u8(void) { return (uint8_t)vp_next(); }
static inline _Bool vp_bool(void) { return vp_next() & 1; }

#define VP_ASSUME(c) do { if (!(c)) { fprintf(stderr, "assumption not met: %s\n", #c); _Exit(77); } } while (0)
#define VP_ASSERT(c, d) do { if (!(c)) { fprintf(stderr, "VPFAIL: %s (%s:%d)\n", d, __FILE__, __LINE__); _Exit(66); } } while (0)
#define VP_REACH(d) do { } while (0)

void VP_ENTRY(void);
int main(void) { VP_ENTRY(); return 0; }

#endif

/* bounded input: lo..hi inclusive */
static inline uint64_t vp_range(uint64_t lo, uint64_t hi)
{
    uint64_t v = vp_u64();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline unsigned int vp_uint(unsigned int lo, unsigned int hi)
{
    unsigned int v = vp_u32();
    VP_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline void vp_bytes(void *p, size_t n)
{
    size_t vp_i;
    for (vp_i = 0; vp_i < n; ++vp_i)
        ((uint8_t *)p)[vp_i] = vp_u8();
}
#define VP_ARRAY(a) do { for (size_t vp_k = 0; vp_k < sizeof(a) / sizeof((a)[0]); ++vp_k) (a)[vp_k] = (__typeof__((a)[0]))vp_u64(); } while (0)

/* formatted logging has no effect on the properties: empty body, unless the log is the subject */
#ifndef VP_REAL_LOG
struct bfdev_log;
int bfdev_log_core(struct bfdev_log *log, const char *fmt, ...);
int bfdev_log_core(struct bfdev_log *log, const char *fmt, ...) { return 0; }
#endif

#endif
