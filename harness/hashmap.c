//@ src src/allocator.c src/hlist-debug.c
#define BFDEV_HASHMAP_MIN_BITS 1
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/hashmap.h>
#include <../src/hashmap.c>
//@ property C20

/* blocks are arrays of bucket heads */
#define EARLY (S == BFDEV_HASHMAP_APPEND || S == BFDEV_HASHMAP_SET ? BFDEV_HASHMAP_APPEND : BFDEV_HASHMAP_ADD)
#define HBLK 10
#define HROOM 8
static bfdev_hlist_head_t hblk[HBLK][HROOM];
static bool hlive[HBLK];
static unsigned int hcalls, hfail, hnext;
static bool hfailed;
static void *h_get(size_t size, void *d)
{
    unsigned int n = hcalls++;
    if (n < 8 && (hfail >> n & 1)) {
        hfailed = true;
        return NULL;
    }
    VP_ASSERT(size <= sizeof(hblk[0]), "buckets in proportion");
    for (n = 0; n < HBLK; ++n)
        if (n == hnext) {
            hnext++;
            hlive[n] = true;
            return hblk[n];
        }
    VP_ASSERT(0, "bound of the harness");
    return NULL;
}
static void h_put(void *p, void *d)
{
    if (!p)
        return;
    for (unsigned int n = 0; n < HBLK; ++n)
        if (p == hblk[n]) {
            VP_ASSERT(hlive[n], "freed once");
            hlive[n] = false;
            return;
        }
    VP_ASSERT(0, "frees what it was given");
}
static const bfdev_alloc_ops_t hops = { .alloc = h_get, .zalloc = h_get, .free = h_put };
static const bfdev_alloc_t hal = { .ops = &hops };

struct hnode { bfdev_hlist_node_t node; unsigned int key; };
static struct hnode n0, n1, n2, n3;
static struct hnode *const nd[4] = { &n0, &n1, &n2, &n3 };
static bool in[4];
static long differ;      /* what comparing unequal keys gives */
#define KEYOF(n) bfdev_container_of(n, struct hnode, node)->key
static unsigned long hash_of(unsigned int key) { return HM * key; }
static unsigned long hash_key(const void *key, void *d) { return hash_of(*(const unsigned int *)key); }
static unsigned long hash_node(const bfdev_hlist_node_t *n, void *d) { return hash_of(KEYOF(n)); }
static long equal(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *d) { return KEYOF(a) != KEYOF(b) ? differ : 0; }
static long find(const bfdev_hlist_node_t *n, const void *key, void *d) { return KEYOF(n) != *(const unsigned int *)key ? differ : 0; }
static const bfdev_hashmap_ops_t mops = { .hash_key = hash_key, .hash_node = hash_node, .equal = equal, .find = find };

static bfdev_hashmap_t map;
static int who(const bfdev_hlist_node_t *n)
{
    for (int k = 0; k < NN; ++k)
        if (n == &nd[k]->node)
            return k;
    return -1;
}
static void agree(void)
{
    bfdev_hlist_node_t *pos;
    unsigned long idx;
    unsigned int seen[4] = { 0 }, cnt = 0;

    for (unsigned int key = 0; key < KN; ++key) {
        bfdev_hlist_node_t *got = bfdev_hashmap_find(&map, &key);
        bool any = false;
        for (int k = 0; k < NN; ++k)
            any |= in[k] && nd[k]->key == key;
        VP_ASSERT((got != NULL) == any, "found exactly if there");
        if (got) {
            int w = who(got);
            VP_ASSERT(w >= 0 && in[w] && nd[w]->key == key, "the right one");
        }
    }
    for (int k = 0; k < NN; ++k)
        cnt += in[k];
    VP_ASSERT(map.used == cnt, "number of members");
}

/* insertions of every kind, then removals by key */
//@ harness hm_ops unwind=12 matrix=KP:0/3/6/11/14,S:0-3,HM:0-1 thorough.matrix=KP:0-14,S:0-3,HM:0-1 D=FM:0 D=NN:4 D=KN:4 timeout=300 bounds=4-insertions-every-pattern-of-equal-keys-all-or-no-collisions-then-any-removal
//@ harness hm_fail entry=hm_ops unwind=12 matrix=KP:3,S:0-2,HM:0-1,FM:0/1/2/4 D=DK:1 D=NN:4 D=KN:4 timeout=300 bounds=four-insertions-then-removal-of-all-with-one-allocation-failing-or-none
//@ harness hm_fail4 entry=hm_ops unwind=12 matrix=KP:14,S:0-2,HM:0-1,FM:1/2 D=DK:1 D=NN:4 D=KN:4 timeout=300 bounds=four-insertions-then-removal-of-all-with-one-allocation-failing
//@ harness hm_shrink entry=hm_ops unwind=12 matrix=KP:14,S:0-1,HM:1 D=FM:0 D=DK:1 D=NN:4 D=KN:4 timeout=300 bounds=four-insertions-then-removal-of-all-growing-and-shrinking
#if defined(VP_H_hm_ops) || defined(VP_H_hm_fail) || defined(VP_H_hm_fail4) || defined(VP_H_hm_shrink)
/* equality patterns of four keys */
static const char kp[15][5] = {
    "0000", "0001", "0010", "0011", "0012", "0100", "0101", "0102", "0110", "0111", "0112", "0120", "0121", "0122", "0123" };
void hm_ops(void)
{
    bfdev_hlist_node_t *old;
    unsigned int key;
    int ret;

    hfail = FM;
    differ = S & 1 ? 1 : -1;
    bfdev_hashmap_init(&map, &hal, &mops, NULL);
    for (int k = 0; k < NN; ++k) {
        int same = -1;
        nd[k]->key = kp[KP][k] - '0';
        for (int j = 0; j < k; ++j)
            if (in[j] && nd[j]->key == nd[k]->key)
                same = j;
        old = NULL;
        hfailed = false;
        ret = bfdev_hashmap_insert(&map, &nd[k]->node, &old, k < NN - 1 ? EARLY : S);
        if ((k < NN - 1 ? EARLY : S) == BFDEV_HASHMAP_ADD && same >= 0)
            VP_ASSERT(ret == -BFDEV_EEXIST && who(old) >= 0 && in[who(old)] && KEYOF(old) == nd[k]->key, "refused as there is one");
        else if (k == NN - 1 && (S == BFDEV_HASHMAP_SET || S == BFDEV_HASHMAP_UPDATE) && same >= 0) {
            int w = who(old);
            VP_ASSERT(!ret && w >= 0 && in[w] && nd[w]->key == nd[k]->key, "replaced");
            in[w] = false;
            in[k] = true;
        } else if (k == NN - 1 && S == BFDEV_HASHMAP_UPDATE)
            VP_ASSERT(ret == -BFDEV_ENOENT, "nothing to replace");
        else if (hfailed)
            VP_ASSERT(ret == -BFDEV_ENOMEM, "no memory");
        else {
            VP_ASSERT(!ret, "inserted");
            in[k] = true;
        }
        if (k == NN - 1)
            agree();
    }
#ifdef DK
    key = DK;
#else
    key = vp_u8() & (KN - 1);
#endif
    old = NULL;
    {
        bool any = false;
        for (int k = 0; k < NN; ++k)
            any |= in[k] && nd[k]->key == key;
        ret = bfdev_hashmap_del(&map, &key, &old);
        VP_ASSERT(ret == (any ? 0 : -BFDEV_ENOENT), "removed if there");
        if (any) {
            int w = who(old);
            VP_ASSERT(w >= 0 && in[w] && nd[w]->key == key, "the right one removed");
            in[w] = false;
        }
    }
    agree();
#ifdef DK
    /* empty it, it may shrink */
    for (key = 0; key < KN; ++key) {
        for (int k = 0; k < NN; ++k) {
            bool any = false;
            for (int j = 0; j < NN; ++j)
                any |= in[j] && nd[j]->key == key;
            ret = bfdev_hashmap_del(&map, &key, &old);
            VP_ASSERT(ret == (any ? 0 : -BFDEV_ENOENT), "removed if there");
            if (!any)
                break;
            int w = who(old);
            VP_ASSERT(w >= 0 && in[w] && nd[w]->key == key, "the right one removed");
            in[w] = false;
        }
        if (key == 1)
            agree();
    }
    VP_ASSERT(!map.used, "empty");
#endif
    bfdev_hashmap_release(&map);
    for (int k = 0; k < HBLK; ++k)
        VP_ASSERT(!hlive[k], "memory given back");
    VP_REACH("end");
}
#endif
