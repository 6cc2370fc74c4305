//@ property C17
//@ src src/skiplist.c src/allocator.c src/list-debug.c
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/skiplist.h>
#include <bfdev/allocator.h>

/* Any list of three nodes is its heights (concrete) and its keys (symbolic, in order). Each
   operation is checked from each such list; the nodes are separate objects of exact meaning:
   levels a node does not have are not linked. */
#define LEV 3
#define NK 6
struct sn { void *key; bfdev_list_head_t list[LEV]; };
static struct sn A, B, C, X;
static struct { const bfdev_alloc_t *alloc; unsigned int curr, levels; bfdev_list_head_t nodes[LEV]; } head;
#define H ((bfdev_skip_head_t *)&head)
static uint8_t key[4];
static int tick, want;
static struct sn *const node[4] = { &A, &B, &C, &X };
static int freed[4], frees;
static size_t asked;
static bool refuse;

int rand(void) { return tick++ < want - 1 ? 0 : RAND_MAX; }

static void *get(size_t size, void *d) { asked = size; return refuse ? NULL : &X; }
static void put(void *p, void *d)
{
    frees++;
    for (int i = 0; i < 4; ++i)
        if (p == node[i])
            freed[i]++;
}
static bfdev_alloc_ops_t ops = { .alloc = get, .free = put };
static bfdev_alloc_t al = { .ops = &ops };

static long cmp(const void *a, const void *b, void *d)
{
    VP_ASSERT(d == &want, "context passed");
    return (long)*(const uint8_t *)a - (long)*(const uint8_t *)b;
}
static long find(const void *a, const void *d)
{
    return (long)*(const uint8_t *)a - (long)*(const uint8_t *)d;
}

static int tall[4];
static bfdev_list_head_t *hook(int i, int l) { return i < 0 ? &head.nodes[l] : &node[i]->list[l]; }
/* the lists hold exactly this sequence, each level those tall enough, linked both ways */
static bool is(const int *order, int n)
{
    bool ok = true;
    for (int l = 0; l < LEV; ++l) {
        int last = -1;
        for (int k = 0; k < n; ++k)
            if (tall[order[k]] > l) {
                ok = ok && hook(last, l)->next == hook(order[k], l) && hook(order[k], l)->prev == hook(last, l);
                last = order[k];
            }
        ok = ok && hook(last, l)->next == hook(-1, l) && hook(-1, l)->prev == hook(last, l);
    }
    return ok;
}
static void setup(int n)
{
    const int t[3] = { H1, H2, H3 };
    head.alloc = &al;
    head.levels = LEV;
    for (int l = 0; l < LEV; ++l)
        bfdev_list_head_init(&head.nodes[l]);
    for (int i = 0; i < n; ++i) {
        tall[i] = t[i];
        node[i]->key = &key[i];
        if ((int)head.curr < t[i])
            head.curr = t[i];
        for (int l = 0; l < t[i]; ++l)
            bfdev_list_add_prev(&head.nodes[l], &node[i]->list[l]);
        key[i] = vp_range(0, NK);
        if (i)
            VP_ASSUME(key[i - 1] <= key[i]);
    }
    X.key = NULL;
}

/* searches start at the highest level in use: this is what makes the state one that setup() gives */
static void top_level(int in)
{
    int top = 0;
    for (int i = 0; i < 4; ++i)
        if ((in >> i & 1) && tall[i] > top)
            top = tall[i];
    VP_ASSERT((int)head.curr == top, "the highest level in use");
}

//@ harness skip_insert unwind=8 unwindset=bfdev_skiplist_insert.0:5,bfdev_skiplist_insert.1:4,skipnode_find.0:5,skipnode_find.1:4,random_level.0:4,bfdev_skiplist_delete.0:4 matrix=NUM:3,H1:1/3,H2:1-3,H3:1/2,HX:1-3 thorough.matrix=NUM:3,H1:1-3,H2:1-3,H3:1-3,HX:1-3 timeout=200 bounds=every-list-of-3-nodes-of-any-height-up-to-3,any-keys
//@ harness skip_insert_few entry=skip_insert unwind=8 unwindset=bfdev_skiplist_insert.0:5,bfdev_skiplist_insert.1:4,skipnode_find.0:5,skipnode_find.1:4,random_level.0:4,bfdev_skiplist_delete.0:4 matrix=NUM:0-2,H1:2,H2:1/3,H3:1,HX:1/3 thorough.matrix=NUM:0-2,H1:1-3,H2:1-3,H3:1,HX:1-3 timeout=200 bounds=every-list-of-fewer-nodes
#if defined(VP_H_skip_insert) || defined(VP_H_skip_insert_few)
void skip_insert(void)
{
    int order[4], r;

    setup(NUM);
    key[3] = vp_range(0, NK);
    want = HX;
    tall[3] = HX;
    refuse = vp_bool();
    r = bfdev_skiplist_insert(H, &key[3], cmp, &want);
    for (int i = 0; i < 3; ++i)
        order[i] = i;
    if (refuse) {
        VP_ASSERT(r == -BFDEV_ENOMEM && is(order, NUM), "nothing changed");
    } else {
        VP_ASSERT(!r && X.key == &key[3] && asked >= offsetof(struct sn, list) + HX * sizeof(bfdev_list_head_t), "inserted");
        for (int p = 0; p <= NUM; ++p)
            if ((p == NUM || key[3] <= key[p]) && (!p || key[p - 1] < key[3])) {
                for (int i = 0; i < p; ++i)
                    order[i] = i;
                order[p] = 3;
                for (int i = p; i < NUM; ++i)
                    order[i + 1] = i;
                VP_ASSERT(is(order, NUM + 1), "in front of the first node that is not smaller, on each of its levels");
            }
    }
    top_level((1 << NUM) - 1 + (refuse ? 0 : 8));
    VP_REACH("end");
}
#endif

//@ harness skip_delete unwind=8 unwindset=bfdev_skiplist_insert.0:5,bfdev_skiplist_insert.1:4,skipnode_find.0:5,skipnode_find.1:4,random_level.0:4,bfdev_skiplist_delete.0:4 matrix=NUM:3,H1:1/3,H2:1/3,H3:1/2 thorough.matrix=NUM:3,H1:1-3,H2:1-3,H3:1-3 timeout=200 bounds=every-list-of-3-nodes-of-any-height-up-to-3,any-keys
//@ harness skip_delete_few entry=skip_delete unwind=8 unwindset=bfdev_skiplist_insert.0:5,bfdev_skiplist_insert.1:4,skipnode_find.0:5,skipnode_find.1:4,random_level.0:4,bfdev_skiplist_delete.0:4 matrix=NUM:0-2,H1:2,H2:1/3,H3:1 thorough.matrix=NUM:0-2,H1:1-3,H2:1-3,H3:1 timeout=200 bounds=every-list-of-fewer-nodes
#if defined(VP_H_skip_delete) || defined(VP_H_skip_delete_few)
void skip_delete(void)
{
    int order[4], m = 0, hit = 0, top = 0;
    uint8_t t = vp_range(0, NK);

    setup(NUM);
    bfdev_skiplist_delete(H, find, &t);
    for (int i = 0; i < NUM; ++i)
        hit |= key[i] == t;
    VP_ASSERT(frees == hit && freed[0] + freed[1] + freed[2] == hit, "one node with the key is freed");
    for (int i = 0; i < NUM; ++i)
        VP_ASSERT(!freed[i] || key[i] == t, "a node with the key");
    for (int g = 0; g <= NUM; ++g)
        if (g == NUM ? !hit : freed[g]) {
            m = 0;
            for (int i = 0; i < NUM; ++i)
                if (i != g)
                    order[m++] = i;
            VP_ASSERT(is(order, m), "the others stay, on each level");
        }
    for (int i = 0; i < NUM; ++i)
        top |= !freed[i] << i;
    top_level(top);
    VP_REACH("end");
}
#endif

//@ harness skip_reset unwind=8 unwindset=bfdev_skiplist_insert.0:5,bfdev_skiplist_insert.1:4,skipnode_find.0:5,skipnode_find.1:4,random_level.0:4,bfdev_skiplist_delete.0:4 matrix=NUM:0-3,H1:1-3,H2:1/3,H3:2,KIND:0-2 timeout=200 bounds=every-list-of-up-to-3-nodes
#ifdef VP_H_skip_reset
static int released[4];
static void release(void *k, void *d)
{
    VP_ASSERT(d == &want, "context passed");
    for (int i = 0; i < 4; ++i)
        if (k == &key[i])
            released[i]++;
}
void skip_reset(void)
{
    uint8_t t = vp_range(0, NK);
    int order[1] = { 3 };

    setup(NUM);
    if (KIND == 0)
        bfdev_skiplist_reset(H, release, &want);
    else if (KIND == 1)
        bfdev_skiplist_destroy(H, release, &want);
    else
        bfdev_skiplist_reset(H, NULL, &want);
    for (int i = 0; i < 3; ++i) {
        VP_ASSERT(released[i] == (KIND < 2 && i < NUM), "each key released once");
        VP_ASSERT(freed[i] == (i < NUM), "each node freed once");
    }
    VP_ASSERT(frees == NUM + (KIND == 1), "and the head when destroyed");
    if (KIND != 1) {
        VP_ASSERT(is(order, 0) && !bfdev_skiplist_find(H, find, &t), "empty");
        want = tall[3] = H1;
        VP_ASSERT(!bfdev_skiplist_insert(H, &key[3], cmp, &want) && is(order, 1), "usable again");
    }
    VP_REACH("end");
}
#endif

//@ harness skip_create unwind=8 unwindset=bfdev_skiplist_insert.0:5,bfdev_skiplist_insert.1:4,skipnode_find.0:5,skipnode_find.1:4,random_level.0:4,bfdev_skiplist_delete.0:4 matrix=NUM:0,H1:1,H2:1,H3:1,LV:0-3,W:1/2/9 bounds=any-random-source
#ifdef VP_H_skip_create
void skip_create(void)
{
    bfdev_skip_head_t *h = bfdev_skiplist_create(NULL, LV);
    uint8_t t = 1;
    VP_ASSERT(LV || !h, "no levels, no list");
    if (h) {
        VP_ASSERT(!bfdev_skiplist_find(h, find, &t), "empty");
        key[0] = vp_u8();
        key[1] = vp_u8();
        want = W;
        if (!bfdev_skiplist_insert(h, &key[0], cmp, &want)) {
            VP_ASSERT(h->curr >= 1 && h->curr <= LV, "within the levels");
            VP_ASSERT(!!bfdev_skiplist_find(h, find, &key[1]) == (key[0] == key[1]), "found");
        }
        bfdev_skiplist_destroy(h, NULL, NULL);
    }
    VP_REACH("end");
}
#endif

//@ harness skip_find unwind=8 unwindset=bfdev_skiplist_insert.0:5,bfdev_skiplist_insert.1:4,skipnode_find.0:5,skipnode_find.1:4,random_level.0:4,bfdev_skiplist_delete.0:4 matrix=NUM:0-3,H1:1/3,H2:1-3,H3:1/2 thorough.matrix=NUM:0-3,H1:1-3,H2:1-3,H3:1-3 timeout=200 bounds=every-list-of-up-to-3-nodes,any-keys,any-target
#ifdef VP_H_skip_find
void skip_find(void)
{
    uint8_t t = vp_range(0, NK);
    bfdev_skip_node_t *s;
    int r = -1;

    setup(NUM);
    s = bfdev_skiplist_find(H, find, &t);
    for (int i = 0; i < NUM; ++i)
        if (key[i] == t && (r < 0 || s == (void *)node[i]))
            r = i;
    VP_ASSERT(r < 0 ? !s : s == (void *)node[r], "finds a node with the key if there is one");
    VP_REACH("end");
}
#endif
