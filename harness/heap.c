//@ property C11
//@ src src/heap.c src/heap-debug.c
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/heap.h>

/* Every heap of N nodes (N constant, keys symbolic), one operation. The shape follows from N. */
#ifndef N
# define N 7
#endif
struct ent { unsigned int key; bfdev_heap_node_t node; };
static struct ent e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, eX;
static struct ent *const P[] = { 0, &e1, &e2, &e3, &e4, &e5, &e6, &e7, &e8, &e9, &e10, &e11, &e12 };
static struct ent *const Q[] = { &eX, &e1, &e2, &e3, &e4, &e5, &e6, &e7, &e8, &e9, &e10, &e11, &e12 };
#define NQ (N + 1)
#define NN 31
static bfdev_heap_root_t root = BFDEV_HEAP_INIT();
#define E(n) bfdev_container_of(n, struct ent, node)

static void build(void)
{
    for (unsigned int i = 1; i <= N; ++i) {
        bfdev_heap_node_t *n = &P[i]->node;
        P[i]->key = vp_u8() & 15;
        n->parent = i > 1 ? &P[i / 2]->node : NULL;
        n->left = 2 * i <= N ? &P[2 * i]->node : NULL;
        n->right = 2 * i + 1 <= N ? &P[2 * i + 1]->node : NULL;
        VP_ASSUME(i == 1 || P[i]->key >= P[i / 2]->key);
    }
    root.node = N ? &P[1]->node : NULL;
    root.count = N;
}
static uint8_t idof(const bfdev_heap_node_t *n)
{
    uint8_t r = NN;
    if (!n)
        return 0;
    for (unsigned int i = 0; i < NQ; ++i)
        if (n == &Q[i]->node)
            r = i + 1;
    return r;
}
static void check(unsigned int want, bool isin, unsigned int gone)
{
    uint8_t L[NN + 1], R[NN + 1], U[NN + 1], K[NN + 1], pos[32];
    unsigned int i, seen[NN + 1];

    for (i = 0; i <= NN; ++i) {
        L[i] = R[i] = U[i] = NN;
        K[i] = 0;
        seen[i] = 0;
        if (i >= 1 && i <= NQ && (i == 1 ? isin : true) && i - 1 != gone) {
            bfdev_heap_node_t *q = &Q[i - 1]->node;
            L[i] = idof(q->left); R[i] = idof(q->right); U[i] = idof(q->parent);
            K[i] = Q[i - 1]->key;
        }
    }
    VP_ASSERT(root.count == want, "count");
    pos[1] = idof(root.node);
    for (i = 1; i < 16; ++i) {
        uint8_t p = pos[i];
        VP_ASSERT(!p == (i > want), "the shape is that of a complete tree");
        pos[2 * i] = pos[2 * i + 1] = 0;
        if (!p)
            continue;
        VP_ASSERT(p != NN && !seen[p], "links name nodes of the heap, each once");
        seen[p]++;
        VP_ASSERT(U[p] == (i == 1 ? 0 : pos[i / 2]), "parent link");
        VP_ASSERT(i == 1 || K[p] >= K[pos[i / 2]], "no node before its parent");
        pos[2 * i] = L[p];
        pos[2 * i + 1] = R[p];
    }
    for (i = 16; i < 32; ++i)
        VP_ASSERT(!pos[i], "the shape is that of a complete tree");
}
static long cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *pdata)
{
    VP_ASSERT(pdata == &root, "private data is passed on");
    return (long)E(a)->key - (long)E(b)->key;
}

//@ harness heap_insert unwind=34 unwindset=bfdev_heap_fixup.0:5,bfdev_heap_parent.0:5 matrix=N:0-11 timeout=300 bounds=every-heap-of-<=11-nodes,any-key-inserted
#ifdef VP_H_heap_insert
void heap_insert(void)
{
    build();
    eX.key = vp_u8() & 15;
    bfdev_heap_insert(&root, &eX.node, cmp, &root);
    check(N + 1, true, 99);
    VP_REACH("end");
}
#endif

//@ harness heap_delete unwind=34 unwindset=bfdev_heap_fixup.0:5,bfdev_heap_erase.0:5 matrix=N:1-7,DEL:1-7 timeout=300 bounds=every-heap-of-<=7-nodes,any-node-deleted
//@ harness heap_delete12 tiers=thorough entry=heap_delete unwind=34 unwindset=bfdev_heap_fixup.0:5,bfdev_heap_erase.0:5 matrix=N:8-12,DEL:1-12 timeout=600 bounds=every-heap-of-8-to-12-nodes,any-node-deleted
#if defined(VP_H_heap_delete) || defined(VP_H_heap_delete12)
void heap_delete(void)
{
#if DEL <= N
    build();
    bfdev_heap_delete(&root, &P[DEL]->node, cmp, &root);
    check(N - 1, false, DEL);
# if defined(BFDEV_DEBUG_HEAP) && N == 2
    bfdev_heap_delete(&root, &P[DEL]->node, cmp, &root);    /* noticed, nothing happens */
    check(N - 1, false, DEL);
# endif
#endif
    VP_REACH("end");
}
#endif

//@ harness heap_iter unwind=34 matrix=N:0-12 timeout=300 bounds=every-heap-of-<=12-nodes
#ifdef VP_H_heap_iter
static unsigned int ordered[N + 1], nord;
static void order(unsigned int i)
{
    if (i > N)
        return;
    order(2 * i);
    order(2 * i + 1);
    ordered[nord++] = i;
}
void heap_iter(void)
{
    unsigned long index = vp_u64();
    unsigned int i;
    bfdev_heap_node_t *n;

    build();
    n = bfdev_heap_first(&root, &index);
    for (i = 1; i <= N + 1; ++i) {
        VP_ASSERT(n == (i <= N ? &P[i]->node : NULL), "level order visits every node once");
        if (n)
            n = bfdev_heap_next(&root, &index);
    }
    order(1);
    n = bfdev_heap_post_first(&root);
    for (i = 0; i <= N; ++i) {
        VP_ASSERT(n == (i < nord ? &P[ordered[i]]->node : NULL), "post-order visits every node after its children");
        if (n)
            n = bfdev_heap_post_next(n);
    }
    for (i = 1; i <= N; ++i)
        VP_ASSERT(bfdev_heap_find(&root, i) == &P[i]->node, "find by position");
    VP_ASSERT(!bfdev_heap_find(&root, N + 1), "nothing past the end");
    VP_REACH("end");
}
#endif
