//@ property C01
//@ src src/array.c src/allocator.c
#include "vp.h"
#include <bfdev/array.h>
#include <bfdev/errno.h>

/* allocator: blocks of a static arena, sizes recorded, failures injected */
#ifndef BLK
# define BLK 64
#endif
static uint8_t arena[6][BLK];
static size_t size_of[6];
static unsigned int used, live;
static unsigned long W;     /* the one byte offset whose content is followed (any) */
static uint8_t wval;
static bool fail[6], failed;
static void *a_alloc(size_t size, void *pdata)
{
    unsigned int n = used;
    VP_ASSUME(n < 6);
    if (fail[n]) {
        fail[n] = false;
        failed = true;
        return NULL;
    }
    VP_ASSUME(size <= BLK);
    size_of[n] = size;
    used++;
    live++;
    return arena[n];
}
static void a_free(void *block, void *pdata)
{
    VP_ASSERT(used && block == arena[used - 1], "only the current block is freed");
    live--;
}
static void *a_realloc(void *block, size_t size, void *pdata)
{
    unsigned int n = used;
    VP_ASSERT(n && block == arena[n - 1], "only the current block is reallocated");
    if (!a_alloc(size, pdata))
        return NULL;
    if (W < size_of[n - 1] && W < size)
        arena[n][W] = arena[n - 1][W];
    live--;
    return arena[n];
}
static const bfdev_alloc_ops_t ops = { a_alloc, a_alloc, a_realloc, a_free };
static const bfdev_alloc_t alloc = { &ops, NULL };

#ifndef CELLS
# define CELLS 4
#endif
#define MAXE 12
static bfdev_array_t array;
static unsigned long len;

static void inside(uint8_t *p, unsigned long first, unsigned long num)
{
    VP_ASSERT(used && p == arena[used - 1] + first * CELLS, "elements sit back to back in the block");
    VP_ASSERT((first + num) * CELLS <= size_of[used - 1], "elements lie inside the allocated block");
}

static void step(unsigned int op, unsigned long num)
{
    uint8_t *p;
    int ret;

    failed = false;
    switch (op) {
        case 0: /* push */
            p = bfdev_array_push(&array, num);
            if (!p) {
                VP_ASSERT(failed || !num, "push fails only when memory runs out");
                break;
            }
            if (num) {
                inside(p, len, num);
                if (W >= len * CELLS && W < (len + num) * CELLS)
                    p[W - len * CELLS] = wval = vp_u8();
            }
            len += num;
            break;
        case 1: /* pop */
            p = bfdev_array_pop(&array, num);
            if (num > len)
                VP_ASSERT(!p, "pop of more than there is fails");
            else {
                len -= num;
                if (num)
                    inside(p, len, num);
            }
            break;
        case 2:
            ret = bfdev_array_resize(&array, num);
            VP_ASSERT(!ret || (failed && ret == -BFDEV_ENOMEM), "resize fails only when memory runs out");
            if (ret)
                break;
            if (W >= len * CELLS && W < num * CELLS)
                arena[used - 1][W] = wval = vp_u8();
            len = num;
            break;
        case 3:
            ret = bfdev_array_reserve(&array, num);
            VP_ASSERT(!ret || (failed && ret == -BFDEV_ENOMEM), "reserve fails only when memory runs out");
            if (!ret && num)
                VP_ASSERT((len + num) * CELLS <= size_of[used - 1], "reserve made room");
            break;
        case 4:
            p = bfdev_array_peek(&array, num);
            if (num > len)
                VP_ASSERT(!p, "peek of more than there is fails");
            else if (num)
                inside(p, len - num, num);
            break;
        case 5:
            bfdev_array_release(&array);
            VP_ASSERT(live == 0, "release frees everything");
            len = 0;
            break;
        case 6:
            bfdev_array_reset(&array);
            len = 0;
            break;
    }
    VP_ASSERT(bfdev_array_index(&array) == len, "the length is what the operations made it");
    VP_ASSERT(bfdev_array_size(&array) == len * CELLS, "size in bytes");
    VP_ASSERT(live <= 1, "one block at a time");
}

//@ harness array_model entry=array_model unwind=13 D=BFDEV_ARRAY_MSIZE:2 matrix=OP1:0-6,OP2:0-6 thorough.matrix=OP0:0-3,OP1:0-6,OP2:0-6 timeout=200 bounds=push+2-operations(thorough:+3),3-byte-cells,<=3-elements-each,allocation-may-fail
#ifdef VP_H_array_model
void array_model(void)
{
    unsigned long k;
    uint8_t *p;

    W = vp_range(0, MAXE * CELLS - 1);
    fail[0] = vp_bool();
    fail[1] = vp_bool();
    fail[2] = vp_bool();
    bfdev_array_init(&array, &alloc, CELLS);
    step(0, vp_range(0, 3));
#ifdef OP0
    step(OP0, vp_range(0, 3));
#endif
    step(OP1, vp_range(0, 3));
    step(OP2, vp_range(0, 3));
    k = vp_range(0, MAXE);
    p = bfdev_array_data(&array, k);
    if (k >= len)
        VP_ASSERT(!p, "no data past the end");
    else {
        inside(p, k, 1);
        if (k == W / CELLS)
            VP_ASSERT(p[W % CELLS] == wval, "elements keep their content");
    }
    VP_REACH("end");
    bfdev_array_release(&array);
    VP_ASSERT(live == 0, "nothing leaks");
}
#endif

/* any count and any cell size: an operation that succeeds has room for what it promises */
//@ harness array_huge unwind=4 timeout=200 matrix=OP:0-2,CS:1/8/24 thorough.matrix=OP:0-2,CS:1/2/3/4/8/12/16/24/40/48/4096 bounds=any-64-bit-counts,cell-size-1/8/24(thorough:11-sizes),two-operations
#ifdef VP_H_array_huge
static size_t granted;
static char block;
static void *huge_realloc(void *blk, size_t size, void *pdata) { granted = size; return &block; }
static void *huge_alloc(size_t size, void *pdata) { granted = size; return &block; }
static void huge_free(void *blk, void *pdata) { }
static const bfdev_alloc_ops_t huge_ops = { huge_alloc, huge_alloc, huge_realloc, huge_free };
static const bfdev_alloc_t huge = { &huge_ops, NULL };
/* n * cells <= granted, without overflow */
static bool fits(unsigned long n, size_t cells)
{
    unsigned long r;
    return !__builtin_mul_overflow(n, cells, &r) && r <= granted;
}
void array_huge(void)
{
    const size_t cells = CS;
    unsigned long a = vp_u64(), b = vp_u64(), n = 0;

    bfdev_array_init(&array, &huge, cells);
    if (bfdev_array_push(&array, a)) {
        n = a;
        VP_ASSERT(fits(n, cells), "push got room for all elements");
    }
    VP_ASSERT(array.index == n, "a failed push changes nothing");
#if OP == 0
    if (bfdev_array_push(&array, b)) {
        VP_ASSERT(n + b >= n && fits(n + b, cells), "push got room for all elements");
        n += b;
    }
#elif OP == 1
    if (!bfdev_array_resize(&array, b)) {
        VP_ASSERT(fits(b, cells), "resize got room for all elements");
        n = b;
    }
#else
    if (!bfdev_array_reserve(&array, b))
        VP_ASSERT(n + b >= n && fits(n + b, cells), "reserve got room for all elements");
#endif
    VP_ASSERT(array.index == n, "length as promised");
    VP_REACH("end");
}
#endif
