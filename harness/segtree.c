//@ property C10
//@ src src/rbtree.c src/rbtree-debug.c src/callback.c src/segtree.c
#include <bfdev/config.h>
#include <bfdev/segtree.h>
#define EXTRA unsigned int key; unsigned int size; bfdev_segtree_node_t seg;
#define NODE seg.node
#define AUG 1
#define AUG_OWN
#include "rbtree_common.h"

/* endpoints are only ever compared: 16 values order 7 intervals and a query in every way */
#define MAXP 16
static unsigned long lo(unsigned int i) { return P[i]->seg.start; }
static unsigned long hi(unsigned int i) { return P[i]->seg.end; }

/* intervals: starts do not descend in the order of the tree, ends symbolic */
static void seg_build(bool symbolic_starts)
{
    unsigned long last = 0;
    unsigned int i;
    static const uint8_t ord[8] = { 0, 4, 2, 5, 1, 6, 3, 7 };

    build();
    for (i = 1; i < 8 && i < NPOS; ++i) {
        unsigned int p = H == 3 ? ord[i] : i;
        unsigned long s = RANK[p], e;
        if (symbolic_starts) {
            s = vp_u8() & 15;
            VP_ASSUME(!on[p] || s >= last);
            if (on[p])
                last = s;
        }
        /* insertion and deletion compare ends with ends only: 8 values, past every start */
        e = symbolic_starts ? vp_u8() : 32 + (vp_u8() & 7);
        VP_ASSUME(e >= s && (!symbolic_starts || e < MAXP));
        P[p]->seg.start = s;
        P[p]->seg.end = e;
    }
    for (i = NPOS - 1; i >= 1; --i) {
        unsigned long m = hi(i);
        if (2 * i < NPOS) {
            if (on[2 * i] && P[2 * i]->seg.subtree > m) m = P[2 * i]->seg.subtree;
            if (on[2 * i + 1] && P[2 * i + 1]->seg.subtree > m) m = P[2 * i + 1]->seg.subtree;
        }
        P[i]->seg.subtree = m;
    }
}

/* the greatest end below every node, from the links */
static void seg_check(bool isin, unsigned int gone)
{
    for (unsigned int i = 0; i < NQ; ++i) {
        bfdev_segtree_node_t *n = &Q[i]->seg;
        unsigned long m;
        if ((i ? on[i] : isin) && i != gone) {
            m = n->end;
            for (unsigned int j = 0; j < NQ; ++j)
                if (n->node.left == &Q[j]->seg.node || n->node.right == &Q[j]->seg.node)
                    if (Q[j]->seg.subtree > m)
                        m = Q[j]->seg.subtree;
            VP_ASSERT(n->subtree == m, "every node knows the greatest end at or below it");
        }
    }
}

//@ harness seg_search unwind=66 unwindset=bfdev_segtree_search.0:9,bfdev_segtree_next.0:6,bfdev_segtree_next.1:6 D=H:3,VP_RB_DUMMY timeout=400 bounds=every-tree-of-<=7-intervals,starts-0..15,ends-<16,any-query
#ifdef VP_H_seg_search
void seg_search(void)
{
    static const uint8_t ord[8] = { 0, 4, 2, 5, 1, 6, 3, 7 };
    unsigned long s, e;
    unsigned int i;
    bfdev_segtree_node_t *want = NULL;

    seg_build(true);
    s = vp_u8(); e = vp_u8();
    VP_ASSUME(s <= e && e < MAXP);
    /* from the last in order to the first: the next one that meets the query */
    for (i = 7; i >= 1; --i) {
        unsigned int p = ord[i];
        if (!on[p])
            continue;
        if (lo(p) <= e && hi(p) >= s) {
            VP_ASSERT(bfdev_segtree_next(&P[p]->seg, s, e) == want, "next: the next interval that meets the query");
            want = &P[p]->seg;
        }
    }
    VP_ASSERT(bfdev_segtree_first(&C, s, e) == want, "first: the first interval that meets the query");
    VP_REACH("end");
}
#endif

//@ harness seg_insert unwind=66 unwindset=bfdev_rb_fixup_augmented.0:4,bfdev_segtree_insert.0:6 D=H:3,CACHED,VP_RB_DUMMY,EMPTY timeout=400 matrix=SLOT:1-15,DUP:0-1 bounds=every-tree-of-height-<=3,insertion-at-every-place,any-ends
#ifdef VP_H_seg_insert
void seg_insert(void)
{
    unsigned int start = RANK[SLOT], i;
    unsigned long e;

    seg_build(false);
# if DUP
    /* equal to the node before it, after which it belongs */
    for (i = SLOT; i > 1; i /= 2)
        if (i & 1) {
            start = RANK[i / 2];
            break;
        }
# endif
    e = 32 + (vp_u8() & 7);
    eX.key = RANK[SLOT];
    eX.seg.start = start;
    eX.seg.end = e;
    eX.seg.subtree = vp_u64();
    bfdev_segtree_insert(&C, &eX.seg);
    check(count + 1, true, 99);
    seg_check(true, 99);
    VP_REACH("end");
}
#endif

//@ harness seg_delete unwind=66 unwindset=bfdev_rb_erase_augmented.0:4,bfdev_rb_remove_augmented.0:4,bfdev_rb_next.0:5,bfdev_rb_next.1:5,bfdev_rb_left_far.0:5,bfdev_segtree_callbacks_propagate.0:5 D=H:3,CACHED,VP_RB_DUMMY timeout=400 matrix=SLOT:1-7 bounds=every-tree-of-height-<=3,any-deletion,any-ends
#ifdef VP_H_seg_delete
void seg_delete(void)
{
    seg_build(false);
    bfdev_segtree_delete(&C, &P[SLOT]->seg);
    check(count - 1, false, SLOT);
    seg_check(false, SLOT);
    VP_REACH("end");
}
#endif
