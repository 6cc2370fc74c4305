//@ property C14
//@ src src/sort.c src/bsearch.c
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>

#ifndef NUM
# define NUM 5
# define CELL 4
#endif

static uint8_t A[NUM * CELL + 2];
static uint8_t key[NUM ? NUM : 1];
static int ctx;
static unsigned int calls;
static unsigned int idx(const void *p)
{
    size_t off = (const uint8_t *)p - (A + 1);
    VP_ASSERT(off % CELL == 0 && off < NUM * CELL, "compares elements of the array");
    return off;
}

//@ harness sort_any unwind=24 unwindset=bfdev_sort.0:4,bfdev_sort.1:4,bfdev_sort.2:4 matrix=NUM:2-6,CELL:1/3/8 thorough.matrix=NUM:2-7,CELL:1-4/8/12 timeout=300 thorough.timeout=5000 bounds=every-array-of-<=6(thorough:7)-elements-of-1/2/3/8-bytes,any-keys
#ifdef VP_H_sort_any
/* 1-byte elements are their key; longer ones carry key, an identity and a filling made from it */
static long cmp(const void *a, const void *b, void *pdata)
{
    VP_ASSERT(pdata == &ctx, "the caller's context");
    idx(a); idx(b);
    return (long)*(const uint8_t *)a - (long)*(const uint8_t *)b;
}
void sort_any(void)
{
    unsigned int i, j, c;
    uint8_t seen = 0;

    A[0] = 0x5a; A[NUM * CELL + 1] = 0xa5;
    for (i = 0; i < NUM; ++i) {
        key[i] = vp_u8();
        VP_ASSUME(CELL == 1 || key[i] < 8);     /* order types of 8 elements */
        A[1 + i * CELL] = key[i];
        for (c = 1; c < CELL; ++c)
            A[1 + i * CELL + c] = i * 16 + c;
    }
    VP_ASSERT(bfdev_sort(A + 1, NUM, CELL, cmp, &ctx) == 0, "accepted");
    VP_ASSERT(A[0] == 0x5a && A[NUM * CELL + 1] == 0xa5, "nothing outside the array");
    for (i = 0; i + 1 < NUM; ++i)
        VP_ASSERT(A[1 + i * CELL] <= A[1 + (i + 1) * CELL], "non-descending");
    if (CELL == 1) {
        /* a permutation: every value as often as before */
        uint8_t v = vp_u8();
        unsigned int m = 0, n = 0;
        for (i = 0; i < NUM; ++i) {
            m += key[i] == v;
            n += A[1 + i] == v;
        }
        VP_ASSERT(m == n, "same elements");
    } else
        for (i = 0; i < NUM; ++i) {
            j = A[1 + i * CELL + 1] / 16;
            VP_ASSERT(j < NUM && !((seen >> j) & 1), "every element once");
            seen |= 1 << j;
            for (unsigned int n = 0; n < NUM; ++n)
                if (n == j)
                    VP_ASSERT(A[1 + i * CELL] == key[n], "an element moves whole");
            for (c = 1; c < CELL; ++c)
                VP_ASSERT(A[1 + i * CELL + c] == j * 16 + c, "an element moves whole");
        }
    VP_REACH("end");
}
#endif

//@ harness sort_one unwind=24 D=NUM:1,CELL:4 matrix=ZERO:0-1 timeout=60 bounds=no-or-one-element
#ifdef VP_H_sort_one
static long cmp(const void *a, const void *b, void *pdata) { calls++; return 0; }
void sort_one(void)
{
    uint32_t v = vp_u32(), w = v;
    (void)bfdev_sort(&v, ZERO, 4, cmp, &ctx);
    VP_ASSERT(v == w && !calls, "one element is sorted");
    VP_REACH("end");
}
#endif

//@ harness bsearch_any unwind=10 D=NUM:12,CELL:1 thorough.D=NUM:40 matrix=CELL:1/3 timeout=200 bounds=every-sorted-array-of-<=12(thorough:40)-elements,any-target,duplicates
#ifdef VP_H_bsearch_any
static uint8_t target;
static long find(const void *node, void *pdata)
{
    VP_ASSERT(pdata == &ctx, "the caller's context");
    idx(node);
    calls++;
    return (long)*(const uint8_t *)node - (long)target;
}
void bsearch_any(void)
{
    unsigned int i, n = vp_uint(0, NUM);
    bool have = false, inl = vp_bool();
    uint8_t *r;

    for (i = 0; i < NUM; ++i)
        A[1 + i * CELL] = vp_u8();
    for (i = 0; i + 1 < NUM; ++i)
        VP_ASSUME(A[1 + i * CELL] <= A[1 + (i + 1) * CELL]);
    target = vp_u8();
    for (i = 0; i < NUM; ++i)
        have |= i < n && A[1 + i * CELL] == target;
    r = inl ? bfdev_bsearch_inline(A + 1, n, CELL, find, &ctx) : bfdev_bsearch(A + 1, n, CELL, find, &ctx);
    VP_ASSERT(!!r == have, "found exactly if it is there");
    if (r) {
        VP_ASSERT(idx(r) < n * CELL && *r == target, "an element that matches");
    }
    VP_ASSERT(calls <= 6, "logarithmic");
    VP_REACH("end");
}
#endif
