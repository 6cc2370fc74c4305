/* An allocator for the code under test: counts what is live, fails when told to. */
#ifndef VP_ALLOC_H
#define VP_ALLOC_H
#include <bfdev/allocator.h>

static int vpa_live;            /* blocks handed out and not freed */
static int vpa_calls;           /* requests so far */
static int vpa_fail = -1;       /* number of the request that fails */

#ifdef VP_CBMC
/* one object per request, of the size asked for (as far as the size is constant) */
# define VPA_NEW(size) __CPROVER_allocate(size, 0)
#else
# define VPA_NEW(size) malloc(size)
#endif
static void *vpa_get(size_t size, void *d)
{
    void *p;
    if (vpa_calls++ == vpa_fail)
        return NULL;
    p = VPA_NEW(size);
    vpa_live++;
    return p;
}
static void *vpa_zget(size_t size, void *d)
{
    void *p = vpa_get(size, d);
    if (p)
        for (size_t vpa_i = 0; vpa_i < size; ++vpa_i)
            ((char *)p)[vpa_i] = 0;
    return p;
}
static void vpa_put(void *p, void *d)
{
    vpa_live--;
#ifndef VP_CBMC
    free(p);
#endif
}
static bfdev_alloc_ops_t vpa_ops = { .alloc = vpa_get, .zalloc = vpa_zget, .free = vpa_put };
static bfdev_alloc_t vpa = { .ops = &vpa_ops };
#endif
