/* Shared by the harnesses of the rbtree and of what is built on it. EXTRA: further members of a node. */
#ifndef RBTREE_COMMON_H
#define RBTREE_COMMON_H
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/rbtree.h>
void vp_noop2(void *a, void *b) { (void)a; (void)b; }

#ifndef NODE
# define NODE node
#endif
#ifndef EXTRA
# define EXTRA unsigned int key; unsigned int size; bfdev_rb_node_t node;
#endif
/* Every red-black tree of height <= H: positions 1..2^H-1 as in a binary heap, presence and
   colours symbolic. Key of position p: its rank in order, times two. One operation on it. */
#ifndef H
# define H 4
#endif
#define NPOS (1 << H)
struct ent { EXTRA };
static struct ent
    e1, e2, e3, e4, e5, e6, e7, e8, e9, e10, e11, e12, e13, e14, e15, eX;
static struct ent *const P[16] = {
    0, &e1, &e2, &e3, &e4, &e5, &e6, &e7, &e8, &e9, &e10, &e11, &e12, &e13, &e14, &e15
};
static const uint8_t RANK[32] = { 0, 16, 8, 24, 4, 12, 20, 28, 2, 6, 10, 14, 18, 22, 26, 30, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31 };
static bool on[2 * NPOS], red[2 * NPOS];
static unsigned int count;

#define E(n) bfdev_container_of(n, struct ent, NODE)
static unsigned int sz(const bfdev_rb_node_t *n) { return n ? E(n)->size : 0; }

static bfdev_rb_root_cached_t C;
#define ROOT (C.root)

static unsigned int build(void)
{
    unsigned int i, left = 0;
    unsigned int bh[2 * NPOS], s[2 * NPOS];

    for (i = 1; i < 2 * NPOS; ++i) {
        on[i] = i < NPOS ? vp_bool() : false;
        red[i] = i < NPOS ? vp_bool() : false;
    }
#ifdef SLOT
    /* the path to the position is there, constant: the descent is decided by the keys alone */
    for (i = SLOT; i >= 1 && i < 32; i /= 2)
        on[i] = true;
# ifdef EMPTY
    on[SLOT] = false;
    if (2 * SLOT < NPOS)
        on[(2 * SLOT) % NPOS] = on[(2 * SLOT + 1) % NPOS] = false;
# endif
#endif
    count = 0;
    VP_ASSUME(!on[1] || !red[1]);
    for (i = 2 * NPOS - 1; i >= 1; --i) {
        bh[i] = 0; s[i] = 0;
        if (i >= NPOS)
            continue;
        VP_ASSUME(!on[i] || i == 1 || on[i / 2]);
        VP_ASSUME(!on[i] || bh[2 * i] == bh[2 * i + 1]);
        if (2 * i < NPOS)
            VP_ASSUME(!on[i] || !red[i] || ((!on[2 * i] || !red[2 * i]) && (!on[2 * i + 1] || !red[2 * i + 1])));
        if (on[i]) {
            bh[i] = bh[2 * i] + !red[i];
            s[i] = 1 + s[2 * i] + s[2 * i + 1];
            count++;
        }
    }
    C.root.node = on[1] ? &P[1]->NODE : NULL;
    for (i = 1; i < NPOS; ++i) {
        bfdev_rb_node_t *n = &P[i]->NODE;
        P[i]->key = RANK[i];
        P[i]->size = s[i];
        n->parent = i == 1 ? NULL : &P[i / 2]->NODE;
        n->left = n->right = NULL;
        if (2 * i < NPOS) {
            if (on[2 * i]) n->left = &P[2 * i]->NODE;
            if (on[2 * i + 1]) n->right = &P[2 * i + 1]->NODE;
        }
        n->color = red[i] ? BFDEV_RB_RED : BFDEV_RB_BLACK;
    }
    C.leftmost = NULL;
    for (i = 1; i < NPOS; i *= 2)
        if (on[i])
            C.leftmost = &P[i]->NODE;
    return left;
}


/* The result, read off by node number: L/R/U[i] name node i's links (0: none, NN: anything else) */
#define NN 31
#define NMAX 16
static struct ent *const Q[NMAX] = {
    &eX, &e1, &e2, &e3, &e4, &e5, &e6, &e7, &e8, &e9, &e10, &e11, &e12, &e13, &e14, &e15
};
#define NQ (NPOS < NMAX ? NPOS : NMAX)
static uint8_t idof(const bfdev_rb_node_t *n)
{
    uint8_t r = NN;
    if (!n)
        return 0;
    for (unsigned int i = 0; i < NQ; ++i)
        if (n == &Q[i]->NODE)
            r = i + 1;
    return r;
}
static void check(unsigned int want, bool isin, unsigned int gone)
{
    uint8_t L[NN + 1], R[NN + 1], U[NN + 1], K[NN + 1], Z[NN + 1], pos[64], bh[64];
    bool B[NN + 1];
    unsigned int i, n = 0, last = 0, low = 0;

    for (i = 0; i <= NN; ++i) {
        L[i] = R[i] = U[i] = K[i] = Z[i] = 0;
        B[i] = true;
        if (i >= 1 && i <= NQ) {
            bfdev_rb_node_t *q = &Q[i - 1]->NODE;
            if ((i == 1 ? isin : on[i - 1]) && i - 1 != gone) {
                L[i] = idof(q->left); R[i] = idof(q->right); U[i] = idof(q->parent);
                B[i] = q->color == BFDEV_RB_BLACK;
                K[i] = Q[i - 1]->key;
                Z[i] = Q[i - 1]->size;
            } else
                L[i] = R[i] = U[i] = NN;
        }
    }
    L[NN] = R[NN] = U[NN] = NN;
    pos[1] = idof(ROOT.node);
    for (i = 1; i < 32; ++i) {
        uint8_t p = pos[i], up = i == 1 ? 0 : pos[i / 2];
        VP_ASSERT(p != NN && (!p || U[p] != NN), "links name nodes of the tree");
        VP_ASSERT(!p || U[p] == up, "parent link");
        VP_ASSERT(!p || B[p] || (up && B[up]), "root is black, and no red node has a red parent");
        pos[2 * i] = p ? L[p] : 0;
        pos[2 * i + 1] = p ? R[p] : 0;
        n += !!p;
    }
    for (i = 32; i < 64; ++i) {
        VP_ASSERT(!pos[i], "a tree of this many nodes is not this high");
        bh[i] = 0;
    }
    for (i = 31; i >= 1; --i) {
        VP_ASSERT(!pos[i] || bh[2 * i] == bh[2 * i + 1], "every path has the same number of black nodes");
        bh[i] = pos[i] ? bh[2 * i] + B[pos[i]] : 0;
#if AUG && !defined(AUG_OWN)
        VP_ASSERT(!pos[i] || Z[pos[i]] == 1 + Z[pos[2 * i]] + Z[pos[2 * i + 1]], "augmented value follows the tree");
#endif
    }
    VP_ASSERT(n == want, "exactly the nodes that were there, plus or minus the one");
    for (i = 1; i < 32; ++i) {
        /* positions in order */
        unsigned int p;
        static const uint8_t ord[32] = { 0, 16,8,17,4,18,9,19,2,20,10,21,5,22,11,23,1,24,12,25,6,26,13,27,3,28,14,29,7,30,15,31 };
        p = pos[ord[i]];
        if (p) {
            VP_ASSERT(K[p] > last, "keys in order");
            last = K[p];
            if (!low)
                low = K[p];
        }
    }
#ifdef CACHED
    VP_ASSERT(want ? C.leftmost && K[idof(C.leftmost)] == low : !C.leftmost, "cached leftmost");
#endif
}

#endif
