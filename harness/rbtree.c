//@ property C09
//@ src src/rbtree.c src/rbtree-debug.c src/callback.c
#include "rbtree_common.h"

static void a_rotate(bfdev_rb_node_t *node, bfdev_rb_node_t *succ)
{
    E(succ)->size = E(node)->size;
    E(node)->size = 1 + sz(node->left) + sz(node->right);
}
static void a_copy(bfdev_rb_node_t *node, bfdev_rb_node_t *succ) { E(succ)->size = E(node)->size; }
static void a_propagate(bfdev_rb_node_t *node, bfdev_rb_node_t *stop)
{
    for (unsigned int i = 0; i <= H; ++i)
        if (node != stop) {
            E(node)->size = 1 + sz(node->left) + sz(node->right);
            node = node->parent;
        }
    VP_ASSERT(node == stop, "propagation reaches its end");
}
static const bfdev_rb_callbacks_t cbs = { .rotate = a_rotate, .copy = a_copy, .propagate = a_propagate };

static long cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *pdata)
{
    VP_ASSERT(pdata == &C, "private data is passed on");
    return (long)E(a)->key - (long)E(b)->key;
}
static long fnd(const bfdev_rb_node_t *n, const void *key)
{
    return (long)E(n)->key - (long)*(unsigned int *)key;
}



//@ harness rb_insert entry=rb_insert unwind=66 unwindset=bfdev_rb_fixup_augmented.0:4,bfdev_rb_parent.0:6 timeout=600 D=H:3,CACHED,VP_RB_DUMMY,EMPTY matrix=AUG:0-1,SLOT:1-15 bounds=every-red-black-tree-of-height-<=3,insertion-at-every-place
//@ harness rb_insert4 entry=rb_insert unwind=66 unwindset=bfdev_rb_fixup_augmented.0:4,bfdev_rb_parent.0:6 timeout=600 D=H:4,CACHED,VP_RB_DUMMY,EMPTY matrix=AUG:0-1,SLOT:1-31 bounds=every-red-black-tree-of-height-<=4,insertion-at-every-place
#if defined(VP_H_rb_insert) || defined(VP_H_rb_insert4)
void rb_insert(void)
{
    bool ok;
    build();
    eX.key = RANK[SLOT];
# if AUG
    {
        bfdev_rb_node_t *parent, **link;
        bool leftmost;
        link = bfdev_rb_cached_parent(&C, &parent, &eX.node, cmp, &C, &leftmost);
        ok = link;
        if (ok) {
            bfdev_rb_link(parent, link, &eX.node);
            a_propagate(&eX.node, NULL);
            bfdev_rb_cached_fixup_augmented(&C, &eX.node, leftmost, &cbs);
        }
    }
# else
    ok = bfdev_rb_cached_insert(&C, &eX.node, cmp, &C);
# endif
    VP_ASSERT(ok, "inserted");
    check(count + 1, true, 99);
    VP_REACH("end");
}
#endif

//@ harness rb_delete entry=rb_delete unwind=66 unwindset=bfdev_rb_erase_augmented.0:4,bfdev_rb_remove_augmented.0:4,bfdev_rb_next.0:5,bfdev_rb_next.1:5,bfdev_rb_left_far.0:5 timeout=600 D=H:3,CACHED,VP_RB_DUMMY matrix=AUG:0-1,SLOT:1-7 bounds=every-red-black-tree-of-height-<=3,any-node-deleted
//@ harness rb_delete4 tiers=thorough entry=rb_delete unwind=66 unwindset=bfdev_rb_erase_augmented.0:4,bfdev_rb_remove_augmented.0:4,bfdev_rb_next.0:5,bfdev_rb_next.1:5,bfdev_rb_left_far.0:5 timeout=600 D=H:4,CACHED,VP_RB_DUMMY matrix=AUG:0-1,SLOT:1-15 bounds=every-red-black-tree-of-height-<=4,any-node-deleted
#if defined(VP_H_rb_delete) || defined(VP_H_rb_delete4)
void rb_delete(void)
{
    bool ok;
    build();
# if AUG
    bfdev_rb_cached_delete_augmented(&C, &P[SLOT]->node, &cbs);
# else
    bfdev_rb_cached_delete(&C, &P[SLOT]->node);
# endif
    check(count - 1, false, SLOT);
    VP_REACH("end");
}
#endif

//@ harness rb_iter unwind=17 unwindset=bfdev_rb_next.0:5,bfdev_rb_prev.0:5,bfdev_rb_left_far.0:5,bfdev_rb_right_far.0:5,bfdev_rb_left_deep.0:5,bfdev_rb_right_deep.0:5,bfdev_rb_pre_next.0:5 timeout=400 D=H:4,VP_RB_DUMMY,AUG:0 matrix=ORD:0-2 bounds=every-red-black-tree-of-height-<=4,in-order/pre-order/post-order-from-every-node
#ifdef VP_H_rb_iter
static unsigned int ordered[NPOS], nord;
static void order(unsigned int i)
{
    if (i >= NPOS)
        return;
    if (ORD == 1) ordered[nord++] = i;
    order(2 * i);
    if (ORD == 0) ordered[nord++] = i;
    order(2 * i + 1);
    if (ORD == 2) ordered[nord++] = i;
}
void rb_iter(void)
{
    unsigned int i, j;
    bfdev_rb_node_t *n;
    struct ent *e;

    build();
    order(1);
    n = NULL;
    for (j = nord; j-- > 0; )
        if (on[ordered[j]])
            n = &P[ordered[j]]->node;
# if ORD == 0
    VP_ASSERT(bfdev_rb_first(&ROOT) == n, "first");
    e = n ? bfdev_rb_first_entry(&ROOT, struct ent, node) : NULL;
    VP_ASSERT(!n || &e->node == n, "first entry");
# elif ORD == 1
    VP_ASSERT(bfdev_rb_pre_first(&ROOT) == n, "first in pre-order");
# else
    VP_ASSERT(bfdev_rb_post_first(&ROOT) == n, "first in post-order");
# endif
    for (i = 0; i < nord; ++i) {
        unsigned int c = ordered[i];
        if (!on[c])
            continue;
        n = NULL;
        for (j = nord; j-- > i + 1; )
            if (on[ordered[j]])
                n = &P[ordered[j]]->node;
# if ORD == 0
        VP_ASSERT(bfdev_rb_next(&P[c]->node) == n, "next");
        n = NULL;
        for (j = 0; j < i; ++j)
            if (on[ordered[j]])
                n = &P[ordered[j]]->node;
        VP_ASSERT(bfdev_rb_prev(&P[c]->node) == n, "prev");
# elif ORD == 1
        VP_ASSERT(bfdev_rb_pre_next(&P[c]->node) == n, "next in pre-order");
# else
        VP_ASSERT(bfdev_rb_post_next(&P[c]->node) == n, "next in post-order");
# endif
    }
# if ORD == 0
    n = NULL;
    for (j = 0; j < nord; ++j)
        if (on[ordered[j]])
            n = &P[ordered[j]]->node;
    VP_ASSERT(bfdev_rb_last(&ROOT) == n, "last");
    VP_ASSERT(!bfdev_rb_next(NULL) && !bfdev_rb_prev(NULL), "nothing follows nothing");
# endif
    VP_REACH("end");
}
#endif

//@ harness rb_find unwind=17 unwindset=bfdev_rb_find.0:6,bfdev_rb_find_last.0:6,bfdev_rb_parent.0:6 timeout=400 D=H:4,VP_RB_DUMMY,AUG:0 bounds=every-red-black-tree-of-height-<=4,any-key
#ifdef VP_H_rb_find
void rb_find(void)
{
    unsigned int i, key, at = 0, pred = 0;
    bfdev_rb_node_t *n, *par = &eX.node, **link = NULL, *par2 = &eX.node, **link2;
    bool lm = 0, lm2 = 0;

    build();
    key = vp_uint(0, 33);
    eX.key = key;
    for (i = 1; i < NPOS; ++i)
        if (on[i]) {
            if (P[i]->key == key)
                at = i;
            if (P[i]->key < key)
                pred++;
        }
    n = bfdev_rb_find(&ROOT, &key, fnd);
    VP_ASSERT(n == (at ? &P[at]->node : NULL), "find");
    n = bfdev_rb_cached_find(&C, &key, fnd);
    VP_ASSERT(n == (at ? &P[at]->node : NULL), "find, cached");
    n = bfdev_rb_cached_find_last(&C, &key, fnd, &par, &link, &lm);
    VP_ASSERT(n == (at ? &P[at]->node : NULL), "find_last finds the node");
    link2 = bfdev_rb_parent(&ROOT, &par2, &eX.node, cmp, &C, &lm2);
    VP_ASSERT(!link2 == !!at, "no place for an equal node");
    VP_ASSERT(!at || *link == n, "find_last: the link that holds the node");
    if (!at) {
        VP_ASSERT(link && !*link && link == link2 && par == par2, "an empty place");
        VP_ASSERT(count ? par && (link == &par->left || link == &par->right) : !par && link == &ROOT.node, "the place is its parent's");
        VP_ASSERT(!par || (link == &par->left) == (E(par)->key > key), "on the right side");
        VP_ASSERT(lm == !pred && lm2 == !pred, "leftmost");
    }
    VP_REACH("end");
}
#endif

//@ harness rb_replace unwind=66 timeout=400 D=H:3,CACHED:1,VP_RB_DUMMY,AUG:0 matrix=SLOT:1-7 bounds=every-red-black-tree-of-height-<=3,any-node-replaced,an-equal-node-refused
#ifdef VP_H_rb_replace
void rb_replace(void)
{
    build();
    eX.key = P[SLOT]->key;
    VP_ASSERT(!bfdev_rb_cached_insert(&C, &eX.node, cmp, &C), "an equal node is refused");
    check(count, false, 99);
    if (C.leftmost == &P[SLOT]->node)
        C.leftmost = &eX.node;
    bfdev_rb_replace(&ROOT, &P[SLOT]->node, &eX.node);
    check(count, true, SLOT);
    VP_REACH("end");
}
#endif
