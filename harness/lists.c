//@ src src/list-sort.c src/list-debug.c src/slist-debug.c src/hlist-debug.c src/ilist.c
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/list.h>
#include <bfdev/slist.h>
#include <bfdev/hlist.h>
#include <bfdev/ilist.h>

/* A list's state is its sequence of nodes; nodes are interchangeable, so a list of n nodes in
   pool order stands for every list of n nodes. One operation from every such state. */
#define POOL 8
#define NIL 255
static uint8_t seq[2][POOL + 1];
static unsigned int num[2];
static unsigned int find(unsigned int l, unsigned int id)
{
    unsigned int f = NIL;
    for (unsigned int i = 0; i < POOL; ++i)
        if (i < num[l] && seq[l][i] == id)
            f = i;
    return f;
}
static void ins(unsigned int l, unsigned int pos, unsigned int id)
{
    for (unsigned int i = POOL; i-- > 0; )
        if (i > pos)
            seq[l][i] = seq[l][i - 1];
    seq[l][pos] = id;
    num[l]++;
}
static void rem(unsigned int l, unsigned int pos)
{
    for (unsigned int i = 0; i < POOL; ++i)
        if (i >= pos)
            seq[l][i] = seq[l][i + 1];
    num[l]--;
}

/* ---------------------------------------------------------------- list */
//@ harness list_ops property=C06 unwind=10 timeout=200 matrix=OP:0-14 bounds=every-pair-of-lists-of-<=3+3-nodes,every-node,one-operation-from-every-such-state
#ifdef VP_H_list_ops
static struct { int pad; bfdev_list_head_t node; } N[POOL];
static bfdev_list_head_t H[2];
static void same(unsigned int l)
{
    bfdev_list_head_t *p = &H[l];
    for (unsigned int i = 0; i <= POOL; ++i) {
        bfdev_list_head_t *want = i < num[l] ? &N[seq[l][i]].node : &H[l];
        VP_ASSERT(p->next == want, "forward links follow the sequence");
        VP_ASSERT(want->prev == p, "backward links mirror the forward links");
        p = want;
        if (i >= num[l])
            break;
    }
}
void list_ops(void)
{
    unsigned int l, i, a, b, pa, pb, nid = POOL - 1;
    bfdev_list_head_t *A, *B, *X = &N[nid].node;

    for (l = 0; l < 2; ++l) {
        bfdev_list_head_init(&H[l]);
        num[l] = vp_uint(0, 3);
        for (i = 0; i < 3; ++i)
            if (i < num[l]) {
                seq[l][i] = l * 3 + i;
                bfdev_list_add_prev(&H[l], &N[l * 3 + i].node);
            }
    }
    same(0); same(1);
    for (l = 0; l < 2; ++l) {
        VP_ASSERT(bfdev_list_check_empty(&H[l]) == !num[l], "empty");
        for (i = 0; i < 3; ++i)
            if (i < num[l]) {
                const bfdev_list_head_t *n = &N[seq[l][i]].node;
                VP_ASSERT(bfdev_list_check_first(&H[l], n) == (i == 0), "first");
                VP_ASSERT(bfdev_list_check_end(&H[l], n) == (i == num[l] - 1), "last");
                VP_ASSERT(bfdev_list_check_another(&H[l], n) == (num[l] == 1), "only one");
                VP_ASSERT(!bfdev_list_check_head(&H[l], n) && bfdev_list_check_head(&H[l], &H[l]), "head");
            }
    }
    /* a: a node of list 0, or its head (NIL); b: a node of list 0, not a */
    pa = vp_uint(0, 3);
    VP_ASSUME(pa < num[0] || pa == 3);
    a = pa == 3 ? NIL : seq[0][pa];
    A = pa == 3 ? &H[0] : &N[a].node;
    pb = vp_uint(0, 2);
    VP_ASSUME(OP < 9 || OP > 13 || (pb < num[0] && pb != pa));
    if (pb >= num[0])
        pb = 0;
    b = seq[0][pb];
    B = &N[b].node;
#if OP == 0
    bfdev_list_add(A, X);
    ins(0, pa == 3 ? 0 : pa + 1, nid);
#elif OP == 1
    bfdev_list_add_prev(A, X);
    ins(0, pa == 3 ? num[0] : pa, nid);
#elif OP == 2 || OP == 3
    VP_ASSUME(pa != 3);
    if (OP == 2) {
        bfdev_list_del(A);
# ifdef BFDEV_DEBUG_LIST
        bfdev_list_del(A);  /* noticed, does nothing */
# endif
    } else {
        bfdev_list_del_init(A);
        VP_ASSERT(bfdev_list_check_empty(A), "an empty list of its own");
    }
    rem(0, pa);
#elif OP >= 4 && OP <= 7
    /* the other list goes in after / before a */
    if (OP == 4) bfdev_list_splice(A, &H[1]);
    if (OP == 5) bfdev_list_splice_prev(A, &H[1]);
    if (OP == 6) bfdev_list_splice_init(A, &H[1]);
    if (OP == 7) bfdev_list_splice_tail_init(A, &H[1]);
    for (i = 0; i < 3; ++i)
        if (i < num[1])
            ins(0, (OP & 1) == 0 ? (pa == 3 ? 0 : pa + 1) + i : (pa == 3 ? num[0] : pa + i), seq[1][i]);
    if (OP >= 6)
        num[1] = 0;
    else
        num[1] = NIL;
#elif OP == 8
    VP_ASSUME(pa != 3);
    bfdev_list_replace(A, X);
    seq[0][pa] = nid;
#elif OP == 14
    VP_ASSUME(pa != 3);
    bfdev_list_replace_init(A, X);
    VP_ASSERT(bfdev_list_check_empty(A), "an empty list of its own");
    seq[0][pa] = nid;
#elif OP == 9 || OP == 10
    /* b moves to after / before a */
    if (OP == 9) bfdev_list_move(A, B); else bfdev_list_move_prev(A, B);
    rem(0, pb);
    i = a == NIL ? NIL : find(0, a);
    ins(0, OP == 9 ? (a == NIL ? 0 : i + 1) : (a == NIL ? num[0] : i), b);
#elif OP == 11
    VP_ASSUME(pa != 3);
    bfdev_list_swap(A, B);
    seq[0][pa] = b;
    seq[0][pb] = a;
#elif OP == 12
    /* b moves to the head of the other list */
    bfdev_list_move(&H[1], B);
    rem(0, pb);
    ins(1, 0, b);
#elif OP == 13
    bfdev_list_move_prev(&H[1], B);
    rem(0, pb);
    ins(1, num[1], b);
#endif
    same(0);
    if (num[1] != NIL)
        same(1);
    VP_REACH("end");
}
#endif

/* IT: index into the 24 iterators, entries and nodes; the safe ones unlink any visited nodes */
//@ harness list_each property=C06 unwind=10 timeout=200 matrix=IT:0-23 bounds=every-list-of-<=4-nodes,every-start,any-subset-unlinked
#ifdef VP_H_list_each
struct ent { int pad; bfdev_list_head_t node; int pad2; };
static struct ent N[5], HE;
#define H HE.node
/* 1: reverse 2: from 4: continue 8: safe 16.. entry */
#define REV (IT & 1)
#define KIND ((IT / 2) % 3)     /* 0 whole, 1 from, 2 continue */
#define SAFE ((IT / 6) & 1)
#define ENT (IT >= 12)
void list_each(void)
{
    unsigned int n = vp_uint(0, 4), i, start = vp_uint(0, 3), cnt = 0, expect, first;
    bool cut[4], ok = true;
    struct ent *p, *t;
    bfdev_list_head_t *pos, *tmp;

    bfdev_list_head_init(&H);
    for (i = 0; i < 4; ++i) {
        cut[i] = SAFE && vp_bool();
        if (i < n)
            bfdev_list_add_prev(&H, &N[i].node);
    }
    VP_ASSUME(KIND == 0 || start < n);
    if (KIND == 0) {
        expect = n;
        first = REV ? n - 1 : 0;
    } else {
        first = KIND == 1 ? start : REV ? start - 1 : start + 1;
        expect = REV ? first + 1 : n - first;
    }
    p = &N[start];
    pos = &N[start].node;
#define BODY { \
        unsigned int id = first + (REV ? -cnt : cnt); \
        if (ENT ? p != &N[id] : pos != &N[id].node) { ok = false; break; } \
        if (++cnt > 4) break; \
        if (SAFE && cut[id]) bfdev_list_del(&N[id].node); \
    }
#if IT == 0
    bfdev_list_for_each(pos, &H) BODY
#elif IT == 1
    bfdev_list_for_each_reverse(pos, &H) BODY
#elif IT == 2
    bfdev_list_for_each_from(pos, &H) BODY
#elif IT == 3
    bfdev_list_for_each_reverse_from(pos, &H) BODY
#elif IT == 4
    bfdev_list_for_each_continue(pos, &H) BODY
#elif IT == 5
    bfdev_list_for_each_reverse_continue(pos, &H) BODY
#elif IT == 6
    bfdev_list_for_each_safe(pos, tmp, &H) BODY
#elif IT == 7
    bfdev_list_for_each_reverse_safe(pos, tmp, &H) BODY
#elif IT == 8
    bfdev_list_for_each_from_safe(pos, tmp, &H) BODY
#elif IT == 9
    bfdev_list_for_each_reverse_from_safe(pos, tmp, &H) BODY
#elif IT == 10
    bfdev_list_for_each_continue_safe(pos, tmp, &H) BODY
#elif IT == 11
    bfdev_list_for_each_reverse_continue_safe(pos, tmp, &H) BODY
#elif IT == 12
    bfdev_list_for_each_entry(p, &H, node) BODY
#elif IT == 13
    bfdev_list_for_each_entry_reverse(p, &H, node) BODY
#elif IT == 14
    bfdev_list_for_each_entry_from(p, &H, node) BODY
#elif IT == 15
    bfdev_list_for_each_entry_reverse_from(p, &H, node) BODY
#elif IT == 16
    bfdev_list_for_each_entry_continue(p, &H, node) BODY
#elif IT == 17
    bfdev_list_for_each_entry_reverse_continue(p, &H, node) BODY
#elif IT == 18
    bfdev_list_for_each_entry_safe(p, t, &H, node) BODY
#elif IT == 19
    bfdev_list_for_each_entry_reverse_safe(p, t, &H, node) BODY
#elif IT == 20
    bfdev_list_for_each_entry_from_safe(p, t, &H, node) BODY
#elif IT == 21
    bfdev_list_for_each_entry_reverse_from_safe(p, t, &H, node) BODY
#elif IT == 22
    bfdev_list_for_each_entry_continue_safe(p, t, &H, node) BODY
#else
    bfdev_list_for_each_entry_reverse_continue_safe(p, t, &H, node) BODY
#endif
    (void)tmp; (void)t; (void)p;
    VP_ASSERT(ok, "visits the nodes in order");
    VP_ASSERT(cnt == expect, "visits every node of the range once");
    if (IT == 0) {
        VP_ASSERT(bfdev_list_first_entry_or_null(&H, struct ent, node) == (n ? &N[0] : NULL), "first entry or null");
        VP_ASSERT(bfdev_list_last_entry_or_null(&H, struct ent, node) == (n ? &N[n - 1] : NULL), "last entry or null");
        if (n) {
            VP_ASSERT(bfdev_list_first_entry(&H, struct ent, node) == &N[0] && bfdev_list_last_entry(&H, struct ent, node) == &N[n - 1], "first and last entry");
            if (start < n) {
                VP_ASSERT(bfdev_list_next_entry_or_null(&N[start], &H, node) == (start + 1 < n ? &N[start + 1] : NULL), "next entry or null");
                VP_ASSERT(bfdev_list_prev_entry_or_null(&N[start], &H, node) == (start ? &N[start - 1] : NULL), "previous entry or null");
            }
        }
    }
    VP_REACH("end");
}
#endif

/* every list of LEN nodes with any keys, compared by any strict weak order (an integer key) */
//@ harness list_sort property=C07 unwind=14 timeout=600 matrix=LEN:0-5 thorough.matrix=LEN:0-7 thorough.timeout=5000 bounds=lists-of-<=5(thorough:7)-nodes,any-keys
#ifdef VP_H_list_sort
/* one object per node: the solver's pointers then never need an offset */
struct ent { bfdev_list_head_t node; uint8_t key; uint8_t id; };
static struct ent n0, n1, n2, n3, n4, n5, n6, n7, n8;
static struct ent *const P[9] = { &n0, &n1, &n2, &n3, &n4, &n5, &n6, &n7, &n8 };
static bfdev_list_head_t H;
static int cookie;
static long kcmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pdata)
{
    VP_ASSERT(pdata == &cookie, "the private argument is handed through");
    return (long)bfdev_list_entry(a, struct ent, node)->key - (long)bfdev_list_entry(b, struct ent, node)->key;
}
void list_sort(void)
{
    unsigned int i, cnt = 0;
    uint32_t seen = 0;
    bfdev_list_head_t *p;

    bfdev_list_head_init(&H);
    for (i = 0; i < LEN; ++i) {
        P[i]->key = vp_u8();
        P[i]->id = i;
        bfdev_list_add_prev(&H, &P[i]->node);
    }
    bfdev_list_sort(&H, kcmp, &cookie);
    p = &H;
    for (i = 0; i < LEN; ++i) {
        bfdev_list_head_t *q = p->next;
        struct ent *e, *f;
        VP_ASSERT(q != &H && q->prev == p, "all nodes linked both ways");
        VP_ASSUME(q != &H);
        e = bfdev_list_entry(q, struct ent, node);
        if (p != &H) {
            f = bfdev_list_entry(p, struct ent, node);
            VP_ASSERT(f->key <= e->key, "sorted");
            VP_ASSERT(f->key < e->key || f->id < e->id, "equal keys keep their order");
        }
        VP_ASSERT(!(seen & (1u << e->id)), "no node twice");
        seen |= 1u << e->id;
        p = q;
        cnt++;
    }
    VP_ASSERT(p->next == &H && H.prev == p, "the ring closes");
    VP_REACH("end");
}
#endif

/* ---------------------------------------------------------------- slist */
//@ harness slist_ops property=C06 unwind=10 timeout=200 matrix=OP:0-2 bounds=every-list-of-<=4-nodes,every-node,one-operation-from-every-such-state
#ifdef VP_H_slist_ops
static struct { int pad; bfdev_slist_head_t node; } N[POOL];
static bfdev_slist_head_t H;
static void same(void)
{
    bfdev_slist_head_t *p = &H;
    for (unsigned int i = 0; i <= POOL; ++i) {
        bfdev_slist_head_t *want = i < num[0] ? &N[seq[0][i]].node : NULL;
        VP_ASSERT(p->next == want, "links follow the sequence");
        p = want;
        if (i >= num[0])
            break;
    }
}
void slist_ops(void)
{
    unsigned int i, n = vp_uint(0, 4), pa, nid = POOL - 1;
    bfdev_slist_head_t *A;

    bfdev_slist_head_init(&H);
    for (i = 0; i < 4; ++i)
        if (i < n) {
            bfdev_slist_add(&H, &N[i].node);
            ins(0, 0, i);
        }
    same();
    VP_ASSERT(bfdev_slist_check_empty(&H) == !n, "empty");
    for (i = 0; i < 4; ++i)
        if (i < n) {
            const bfdev_slist_head_t *x = &N[seq[0][i]].node;
            VP_ASSERT(bfdev_slist_check_first(&H, x) == (i == 0), "first");
            VP_ASSERT(bfdev_slist_check_end(x) == (i == n - 1), "last");
            VP_ASSERT(bfdev_slist_check_another(&H, x) == (n == 1), "only one");
        }
    pa = vp_uint(0, 4);
    VP_ASSUME(pa < n || (pa == 4 && OP == 0));
    A = pa == 4 ? &H : &N[seq[0][pa]].node;
#if OP == 0
    bfdev_slist_add(A, &N[nid].node);
    ins(0, pa == 4 ? 0 : pa + 1, nid);
#elif OP == 1
    bfdev_slist_del(&H, A);
# ifdef BFDEV_DEBUG_SLIST
    bfdev_slist_del(&H, A);
# endif
    rem(0, pa);
#else
    bfdev_slist_replace(&H, A, &N[nid].node);
    seq[0][pa] = nid;
#endif
    same();
    VP_REACH("end");
}
#endif

//@ harness slist_each property=C06 unwind=10 timeout=200 matrix=IT:0-11,HL:0-1 bounds=every-list-of-<=4-nodes,every-start,any-subset-unlinked
#ifdef VP_H_slist_each
#if HL
# define NODE bfdev_hlist_node_t
# define F(x) bfdev_hlist_##x
#else
# define NODE bfdev_slist_head_t
# define F(x) bfdev_slist_##x
#endif
struct ent { int pad; NODE node; int pad2; };
static struct ent N[5];
#if HL
static bfdev_hlist_head_t H;
#else
static bfdev_slist_head_t H;
#endif
#define KIND (IT % 3)
#define SAFE ((IT / 3) & 1)
#define ENT (IT >= 6)
void slist_each(void)
{
    unsigned int n = vp_uint(0, 4), i, start = vp_uint(0, 4), cnt = 0, expect, first;
    bool cut[4], ok = true;
    struct ent *p, *t;
    NODE *pos, *tmp;

    F(head_init)(&H);
    for (i = 4; i-- > 0; ) {
        cut[i] = SAFE && vp_bool();
        if (i < n) {
#if HL
            bfdev_hlist_head_add(&H, &N[i].node);
#else
            bfdev_slist_add(&H, &N[i].node);
#endif
        }
    }
    VP_ASSUME(start < n || start == 4);
    first = KIND == 0 ? 0 : KIND == 1 ? start : start + 1;
    expect = KIND && start == 4 ? 0 : n - first;
    p = start == 4 ? NULL : &N[start];
    pos = start == 4 ? NULL : &N[start].node;
#if HL
# define UNLINK(x) bfdev_hlist_del(x)
#else
# define UNLINK(x) bfdev_slist_del(&H, x)
#endif
#define BODY { \
        unsigned int id = first + cnt; \
        if (ENT ? p != &N[id] : pos != &N[id].node) { ok = false; break; } \
        if (++cnt > 4) break; \
        if (SAFE && cut[id]) UNLINK(&N[id].node); \
    }
#if IT == 0
    F(for_each)(pos, &H) BODY
#elif IT == 1
    F(for_each_from)(pos) BODY
#elif IT == 2
    F(for_each_continue)(pos) BODY
#elif IT == 3
    F(for_each_safe)(pos, tmp, &H) BODY
#elif IT == 4
    F(for_each_from_safe)(pos, tmp) BODY
#elif IT == 5
    F(for_each_continue_safe)(pos, tmp) BODY
#elif IT == 6
    F(for_each_entry)(p, &H, node) BODY
#elif IT == 7
    F(for_each_entry_from)(p, node) BODY
#elif IT == 8
    F(for_each_entry_continue)(p, node) BODY
#elif IT == 9
    F(for_each_entry_safe)(p, t, &H, node) BODY
#elif IT == 10
    F(for_each_entry_from_safe)(p, t, node) BODY
#else
    F(for_each_entry_continue_safe)(p, t, node) BODY
#endif
    (void)tmp; (void)t; (void)p;
    VP_ASSERT(ok, "visits the nodes in order");
    VP_ASSERT(cnt == expect, "visits every node of the range once");
    VP_REACH("end");
}
#endif

/* ---------------------------------------------------------------- hlist */
//@ harness hlist_ops property=C06 unwind=10 timeout=200 matrix=OP:0-6 bounds=every-list-of-<=4-nodes,every-node,one-operation-from-every-such-state
#ifdef VP_H_hlist_ops
static struct { int pad; bfdev_hlist_node_t node; } N[POOL];
static bfdev_hlist_head_t H[2];
static void same(unsigned int l)
{
    bfdev_hlist_node_t **p = &H[l].node;
    for (unsigned int i = 0; i <= POOL; ++i) {
        bfdev_hlist_node_t *want = i < num[l] ? &N[seq[l][i]].node : NULL;
        VP_ASSERT(*p == want, "links follow the sequence");
        if (!want)
            break;
        VP_ASSERT(want->pprev == p, "back links point at the link to the node");
        p = &want->next;
    }
}
void hlist_ops(void)
{
    unsigned int i, n = vp_uint(0, 4), pa, nid = POOL - 1;
    bfdev_hlist_node_t *A, *X = &N[nid].node;

    bfdev_hlist_head_init(&H[0]);
    for (i = 0; i < 4; ++i)
        if (i < n) {
            bfdev_hlist_head_add(&H[0], &N[i].node);
            ins(0, 0, i);
        }
    same(0);
    VP_ASSERT(bfdev_hlist_check_empty(&H[0]) == !n, "empty");
    for (i = 0; i < 4; ++i)
        if (i < n) {
            const bfdev_hlist_node_t *x = &N[seq[0][i]].node;
            VP_ASSERT(bfdev_hlist_check_first(&H[0], x) == (i == 0), "first");
            VP_ASSERT(bfdev_hlist_check_end(x) == (i == n - 1), "last");
            VP_ASSERT(bfdev_hlist_check_another(&H[0], x) == (n == 1), "only one");
            VP_ASSERT(!bfdev_hlist_check_unhashed(x), "a linked node is hashed");
        }
    bfdev_hlist_node_init(X);
    VP_ASSERT(bfdev_hlist_check_unhashed(X), "a fresh node is unhashed");
    pa = vp_uint(0, 3);
    VP_ASSUME(pa < n || OP == 0 || OP == 6);
    A = pa < n ? &N[seq[0][pa]].node : NULL;
#if OP == 0
    bfdev_hlist_head_add(&H[0], X);
    ins(0, 0, nid);
#elif OP == 1
    bfdev_hlist_next_add(A, X);
    ins(0, pa + 1, nid);
#elif OP == 2
    bfdev_hlist_prev_add(A, X);
    ins(0, pa, nid);
#elif OP == 3
    bfdev_hlist_del(A);
# ifdef BFDEV_DEBUG_HLIST
    bfdev_hlist_del(A);
# endif
    rem(0, pa);
#elif OP == 4
    bfdev_hlist_del_init(A);
    VP_ASSERT(bfdev_hlist_check_unhashed(A), "unhashed again");
    rem(0, pa);
#elif OP == 5
    bfdev_hlist_replace(A, X);
    seq[0][pa] = nid;
#else
    bfdev_hlist_head_replace(&H[0], &H[1]);
    for (i = 0; i < 4; ++i)
        seq[1][i] = seq[0][i];
    num[1] = num[0];
    num[0] = 0;
    same(1);
#endif
    same(0);
    VP_REACH("end");
}
#endif

/* ---------------------------------------------------------------- ilist: sorted, equal keys in insertion order */
/* four nodes in any key pattern, any subset deleted again, then two inserts of any keys */
//@ harness ilist_model property=C08 unwind=10 timeout=400 D=NINS:1 thorough.D=NINS:2 matrix=PAT:0-7,DEL:0-15 bounds=every-sorted-list-of-4-nodes-up-to-key-equality,every-subset-deleted,one(thorough:two)-further-inserts-with-any-keys
#ifdef VP_H_ilist_model
#define NN 6
struct ent { bfdev_ilist_node_t node; uint8_t key; };
static struct ent n0, n1, n2, n3, n4, n5;
static struct ent *const P[6] = { &n0, &n1, &n2, &n3, &n4, &n5 };
static bfdev_ilist_head_t H;
static long kcmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *pdata)
{
    return (long)bfdev_ilist_entry(a, struct ent, node)->key - (long)bfdev_ilist_entry(b, struct ent, node)->key;
}
static void model_add(unsigned int id)
{
    unsigned int pos = 0;
    for (unsigned int i = 0; i < NN; ++i)
        if (i < num[0] && P[seq[0][i]]->key <= P[id]->key)
            pos = i + 1;
    ins(0, pos, id);
}
static void same(void)
{
    bfdev_list_head_t *p = &H.node_list;
    for (unsigned int i = 0; i <= NN; ++i) {
        bfdev_list_head_t *want = i < num[0] ? &P[seq[0][i]]->node.node_list : &H.node_list;
        VP_ASSERT(p->next == want && want->prev == p, "sorted, equal keys in insertion order");
        p = want;
        if (i >= num[0])
            break;
    }
    VP_ASSERT(bfdev_ilist_head_empty(&H) == !num[0], "empty");
    if (num[0])
        VP_ASSERT(bfdev_ilist_first(&H) == &P[seq[0][0]]->node && bfdev_ilist_last(&H) == &P[seq[0][num[0] - 1]]->node, "first and last");
}
void ilist_model(void)
{
    unsigned int i;

    bfdev_ilist_head_init(&H);
    for (i = 0; i < 6; ++i)
        bfdev_ilist_node_init(&P[i]->node);
    P[0]->key = 10;
    for (i = 1; i < 4; ++i)
        P[i]->key = P[i - 1]->key + ((PAT >> (i - 1)) & 1) * 10;
    for (i = 0; i < 4; ++i) {
        bfdev_ilist_add(&H, &P[i]->node, kcmp, NULL);
        model_add(i);
    }
    same();
    for (i = 0; i < 4; ++i)
        if ((DEL >> i) & 1) {
            bfdev_ilist_del(&H, &P[i]->node);
            rem(0, find(0, i));
            same();
        }
    for (i = 4; i < 4 + NINS; ++i) {
        P[i]->key = vp_u8();
        bfdev_ilist_add(&H, &P[i]->node, kcmp, NULL);
        model_add(i);
        same();
    }
    i = vp_uint(0, 5);
    if (NINS > 1 && find(0, i) != NIL) {
        bfdev_ilist_del(&H, &P[i]->node);
        rem(0, find(0, i));
        same();
    }
    VP_REACH("end");
}
#endif
