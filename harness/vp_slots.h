/*
 * An allocator handed to the library through its allocator interface. It can be told to fail
 * at a symbolic point, counts live blocks, and notices wrong frees.
 * VP_SLOTS: how many blocks one run may ever allocate, VP_SLOT_MAX: largest block.
 */
#ifndef VP_SLOTS_H
#define VP_SLOTS_H

#include "vp.h"
#include <bfdev/allocator.h>

#ifndef VP_SLOTS
# define VP_SLOTS 8
#endif

static void *vp_blk[VP_SLOTS];
static uint8_t *vp_base[VP_SLOTS];
static size_t vp_blk_size[VP_SLOTS];
static bool vp_blk_live[VP_SLOTS];
static unsigned int vp_blk_num;
static unsigned int vp_live;
static unsigned int vp_calls;
static bool vp_failed;
static uint32_t vp_fail_mask;       /* bit n: the n-th allocation call fails */
static bool vp_fail_rest;

static void *vp_a_alloc(size_t size, void *pdata)
{
    unsigned int n = vp_calls++;
    void *p;

    (void)pdata;
    if (n < 32 ? ((vp_fail_mask >> n) & 1) : vp_fail_rest) {
        vp_failed = true;
        return NULL;
    }
#ifdef VP_SLOT_MAX
    VP_ASSUME(size <= VP_SLOT_MAX);     /* bound of the harness */
#endif
    VP_ASSUME(vp_blk_num < VP_SLOTS);
#if defined(VP_SLOT_MAX) && defined(VP_CBMC)
    /* constant-size object, block at its end: an overrun leaves the object */
    vp_base[vp_blk_num] = malloc(VP_SLOT_MAX);
    p = vp_base[vp_blk_num] + (VP_SLOT_MAX - size);
#else
    p = malloc(size);
    vp_base[vp_blk_num] = p;
#endif
#ifdef VP_NATIVE
    memset(p, 0xa5, size);
#endif
    vp_blk[vp_blk_num] = p;
    vp_blk_size[vp_blk_num] = size;
    vp_blk_live[vp_blk_num] = true;
    vp_blk_num++;
    vp_live++;
    return p;
}

static void *vp_a_zalloc(size_t size, void *pdata)
{
    uint8_t *p = vp_a_alloc(size, pdata);
    if (p)
        memset(p, 0, size);
    return p;
}

static unsigned int vp_a_slot(void *block)
{
    unsigned int i, f = VP_SLOTS;
    for (i = 0; i < VP_SLOTS; ++i)
        if (i < vp_blk_num && vp_blk[i] == block && vp_blk_live[i])
            f = i;
    return f;
}

static void vp_a_free(void *block, void *pdata)
{
    unsigned int f = vp_a_slot(block);

    (void)pdata;
    VP_ASSERT(f < VP_SLOTS, "free() of a live block of this allocator");
    VP_ASSUME(f < VP_SLOTS);
    vp_blk_live[f] = false;
    vp_live--;
    free(vp_base[f]);
}

static void *vp_a_realloc(void *block, size_t size, void *pdata)
{
    unsigned int f = vp_a_slot(block);
    uint8_t *p;

    VP_ASSERT(f < VP_SLOTS, "realloc() of a live block of this allocator");
    VP_ASSUME(f < VP_SLOTS);
    p = vp_a_alloc(size, pdata);
    if (!p)
        return NULL;
#ifdef VP_REALLOC_MAX
    for (size_t i = 0; i < VP_REALLOC_MAX; ++i)
        if (i < vp_blk_size[f] && i < size)
            p[i] = ((uint8_t *)block)[i];
#else
    memcpy(p, block, vp_blk_size[f] < size ? vp_blk_size[f] : size);
#endif
    vp_a_free(block, pdata);
    return p;
}

static const bfdev_alloc_ops_t vp_alloc_ops = {
    .alloc = vp_a_alloc, .zalloc = vp_a_zalloc, .realloc = vp_a_realloc, .free = vp_a_free,
};
static const bfdev_alloc_t vp_alloc = { .ops = &vp_alloc_ops, .pdata = NULL };

#endif
