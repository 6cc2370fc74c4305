//@ src src/bloom.c src/levenshtein.c src/matrix.c src/notifier.c src/allocator.c
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/bloom.h>
#include <bfdev/levenshtein.h>
#include <bfdev/matrix.h>
#include <bfdev/notifier.h>
#include "vp_alloc.h"

/* The filter in any state, any hash functions: what a key hashes to is a table the solver picks. */
//@ harness bloom property=C22 unwind=26 matrix=CAP:1/64/100/192,FUNCS:1-3 timeout=200 bounds=filters-of-up-to-192-bits-in-any-state,1-to-3-hash-functions,any-two-keys
#ifdef VP_H_bloom
static unsigned int table[2][3];
static int keys[2];
static unsigned int hash(unsigned int func, const void *key, void *pdata)
{
    VP_ASSERT(func < FUNCS && pdata == table, "function and context passed");
    return table[key == &keys[1]][func];
}
static struct { const bfdev_alloc_t *alloc; bfdev_bloom_hash_t hash; unsigned int funcs; void *pdata;
    unsigned int capacity; unsigned long bitmap[(CAP + 63) / 64]; } filter;
static int live;
static void *get(size_t size, void *d)
{
    VP_ASSERT(size >= sizeof(filter), "room for the bits");
    live++;
    return &filter;
}
static void put(void *p, void *d) { live -= p == &filter; }
void bloom(void)
{
    bfdev_alloc_ops_t o = { .alloc = get, .zalloc = get, .free = put };
    bfdev_alloc_t al = { .ops = &o };
    bfdev_bloom_t *b = bfdev_bloom_create(&al, CAP, hash, FUNCS, table);
    unsigned int words = (CAP + 63) / 64;
    bool p0, p1;
    unsigned long old[3];

    for (int k = 0; k < 2; ++k)
        for (int f = 0; f < 3; ++f)
            table[k][f] = vp_u8() & 15;
    VP_ASSERT(!bfdev_bloom_peek(b, &keys[0]) && b->capacity >= CAP, "empty at first");
    for (unsigned int i = 0; i < words; ++i)
        b->bitmap[i] = vp_u64();
    p0 = bfdev_bloom_peek(b, &keys[0]);
    p1 = bfdev_bloom_peek(b, &keys[1]);
    for (unsigned int i = 0; i < words; ++i)
        old[i] = b->bitmap[i];
    VP_ASSERT(bfdev_bloom_push(b, &keys[0]) == p0, "pushing tells whether it was there");
    VP_ASSERT(bfdev_bloom_peek(b, &keys[0]), "what was pushed is found");
    VP_ASSERT(!p1 || bfdev_bloom_peek(b, &keys[1]), "what was there stays");
    for (unsigned int i = 0; i < words; ++i)
        VP_ASSERT(!p0 || old[i] == b->bitmap[i], "pushing what is there changes nothing");
    bfdev_bloom_push(b, &keys[1]);
    VP_ASSERT(bfdev_bloom_peek(b, &keys[0]) && bfdev_bloom_peek(b, &keys[1]), "what was pushed is found");
    bfdev_bloom_flush(b);
    VP_ASSERT(!bfdev_bloom_peek(b, &keys[0]) && !bfdev_bloom_peek(b, &keys[1]), "empty after flushing");
    for (unsigned int i = 0; i < words; ++i)
        VP_ASSERT(!b->bitmap[i], "no bit left");
    bfdev_bloom_destroy(b);
    VP_ASSERT(!live, "memory freed");
    VP_REACH("end");
}
#endif

//@ harness bloom_create property=C22 unwind=4 bounds=any-capacity
#ifdef VP_H_bloom_create
static unsigned int want_cap;
static size_t got;
static void *watch(size_t size, void *d) { got = size; return NULL; }
void bloom_create(void)
{
    bfdev_alloc_ops_t o = { .alloc = watch, .zalloc = watch };
    bfdev_alloc_t a = { .ops = &o };
    want_cap = vp_u32();
    VP_ASSERT(!bfdev_bloom_create(&a, want_cap, NULL, 1, NULL), "no memory, no filter");
    VP_ASSERT(!got || got >= sizeof(bfdev_bloom_t) + want_cap / 8, "room for every bit");
    VP_REACH("end");
}
#endif

/* Reference: the table of distances of all prefixes. */
//@ harness leven property=C30 unwind=8 matrix=L1:0-3,L2:0-3 thorough.matrix=L1:0-4,L2:0-4 timeout=200 thorough.timeout=1500 bounds=strings-of-up-to-3(thorough:4)-of-any-characters,any-costs-below-8,failed-allocation
#ifdef VP_H_leven
static unsigned int cache[(L1 + 1) * 3];
static int live, refuse;
static void *rows(size_t size, void *d)
{
    VP_ASSERT(size <= sizeof(cache), "");
    live++;
    return refuse ? NULL : cache;
}
static void rows_put(void *p, void *d) { live -= p == cache; }
void leven(void)
{
    char a[5] = { 0 }, b[5] = { 0 };
    bfdev_alloc_ops_t o = { .alloc = rows, .free = rows_put };
    bfdev_alloc_t al = { .ops = &o };
    unsigned int D[6][6], s = vp_uint(0, 7), w = vp_uint(0, 7), in = vp_uint(0, 7), de = vp_uint(0, 7), r;

    for (int i = 0; i < L1; ++i)
        a[i] = vp_range('a', 'f');
    for (int i = 0; i < L2; ++i)
        b[i] = vp_range('a', 'f');
    for (int i = 0; i <= L1; ++i)
        for (int j = 0; j <= L2; ++j) {
            unsigned int m;
            if (!i)
                m = j * in;
            else if (!j)
                m = i * de;
            else {
                m = D[i - 1][j - 1] + (a[i - 1] == b[j - 1] ? 0 : s);
                if (D[i][j - 1] + in < m)
                    m = D[i][j - 1] + in;
                if (D[i - 1][j] + de < m)
                    m = D[i - 1][j] + de;
                if (i > 1 && j > 1 && a[i - 1] == b[j - 2] && a[i - 2] == b[j - 1] && D[i - 2][j - 2] + w < m)
                    m = D[i - 2][j - 2] + w;
            }
            D[i][j] = m;
        }
    r = bfdev_levenshtein_len(&al, a, b, L1, L2, s, w, in, de);
    VP_ASSERT(r == D[L1][L2], "the cheapest way from one to the other");
    VP_ASSERT(!live, "memory freed");
    if (L1 && L2) {
        refuse = 1;
        VP_ASSERT(bfdev_levenshtein_len(&al, a, b, L1, L2, s, w, in, de) == UINT_MAX, "no memory, no result");
    }
    VP_REACH("end");
}
#endif

//@ harness leven_str property=C30 unwind=8 bounds=strings-ended-by-zero
#ifdef VP_H_leven_str
void leven_str(void)
{
    unsigned int s = vp_uint(0, 15), in = vp_uint(0, 15), de = vp_uint(0, 15), r;
    VP_ASSERT(bfdev_levenshtein(NULL, "", "ab", s, 3, in, de) == 2 * in, "all added");
    VP_ASSERT(bfdev_levenshtein(NULL, "abc", "", s, 3, in, de) == 3 * de, "all deleted");
    r = bfdev_levenshtein(NULL, "a", "b", s, 3, in, de);
    VP_ASSERT(r == UINT_MAX || r == (s < in + de ? s : in + de), "one changed");
    VP_REACH("end");
}
#endif

/* DST: 0 a new matrix, 1 the first operand, 2 the second */
//@ harness matrix property=C29 unwind=28 object_bits=9 matrix=R:1/3,C:2,K:3,OP:0-4,DST:0-2 thorough.matrix=R:1-3,C:1-3,K:1-3,OP:0-4,DST:0-2 timeout=200 bounds=matrices-of-up-to-3x3,any-elements-below-2^8,in-place-or-not
#ifdef VP_H_matrix
static unsigned long A[3][3], B[3][3];
void matrix(void)
{
    bfdev_matrix_t ma, mb, mc, *d;
    unsigned long fa[9], fb[9], want;
    unsigned int br = OP == 2 ? C : R, bc = OP == 2 ? K : C, n = 0, dr, dc;
    int r;

    bfdev_matrix_init(&ma, &vpa);
    bfdev_matrix_init(&mb, &vpa);
    bfdev_matrix_init(&mc, &vpa);
    for (unsigned int i = 0; i < R; ++i)
        for (unsigned int j = 0; j < C; ++j)
            fa[n++] = A[i][j] = OP == 2 ? vp_u8() & 15 : vp_u64();
    n = 0;
    for (unsigned int i = 0; i < br; ++i)
        for (unsigned int j = 0; j < bc; ++j)
            fb[n++] = B[i][j] = OP == 2 ? vp_u8() & 15 : vp_u64();
    VP_ASSUME(!bfdev_matrix_import(&ma, fa, R, C));
    VP_ASSUME(!bfdev_matrix_import(&mb, fb, br, bc));
    for (unsigned int i = 0; i < 4; ++i)
        for (unsigned int j = 0; j < 4; ++j)
            VP_ASSERT(i < R && j < C ? *bfdev_matrix_data(&ma, i, j) == A[i][j] : !bfdev_matrix_data(&ma, i, j), "imported, by row and column");
    d = DST == 0 ? &mc : DST == 1 ? &ma : &mb;
    dr = R;
    dc = OP == 2 ? K : C;
    switch (OP) {
        case 0: r = bfdev_matrix_add(d, &ma, &mb); break;
        case 1: r = bfdev_matrix_sub(d, &ma, &mb); break;
        case 2: r = bfdev_matrix_mul(d, &ma, &mb); break;
        case 3: r = bfdev_matrix_trans(d, &ma); dr = C; dc = R; break;
        default: r = bfdev_matrix_set(d, &ma);
    }
    VP_ASSERT(!r && d->row == dr && d->col == dc, "status and shape");
    for (unsigned int i = 0; i < dr; ++i)
        for (unsigned int j = 0; j < dc; ++j) {
            want = OP == 0 ? A[i][j] + B[i][j] : OP == 1 ? A[i][j] - B[i][j] : OP == 3 ? A[j][i] : A[i][j];
            if (OP == 2) {
                want = 0;
                for (unsigned int k = 0; k < C; ++k)
                    want += A[i][k] * B[k][j];
            }
            VP_ASSERT(*bfdev_matrix_data(d, i, j) == want, "every element");
        }
    if (DST != 1)
        for (unsigned int i = 0; i < R; ++i)
            for (unsigned int j = 0; j < C; ++j)
                VP_ASSERT(*bfdev_matrix_data(&ma, i, j) == A[i][j], "the operand stays");
    bfdev_matrix_release(&ma);
    bfdev_matrix_release(&mb);
    bfdev_matrix_release(&mc);
    VP_ASSERT(!vpa_live, "memory freed");
    VP_REACH("end");
}
#endif

//@ harness matrix_shape property=C29 unwind=28 matrix=OP:0-2 bounds=shapes-that-do-not-match
#ifdef VP_H_matrix_shape
void matrix_shape(void)
{
    bfdev_matrix_t ma, mb, mc;
    bfdev_matrix_init(&ma, &vpa);
    bfdev_matrix_init(&mb, &vpa);
    bfdev_matrix_init(&mc, &vpa);
    ma.row = OP == 2 ? 2 : vp_uint(1, 9); ma.col = OP == 2 ? 2 : vp_uint(1, 9);
    mb.row = OP == 2 ? 3 : vp_uint(1, 9); mb.col = OP == 2 ? 2 : vp_uint(1, 9);
    VP_ASSUME(OP == 2 ? ma.col != mb.row : ma.row != mb.row || ma.col != mb.col);
    VP_ASSERT((OP == 0 ? bfdev_matrix_add(&mc, &ma, &mb) : OP == 1 ? bfdev_matrix_sub(&mc, &ma, &mb) :
        bfdev_matrix_mul(&mc, &ma, &mb)) == -BFDEV_EINVAL && !vpa_calls && !mc.row, "refused");
    VP_REACH("end");
}
#endif

/* Priorities, and who asks to be removed, are concrete per instance; who says stop and the limit
   are symbolic. The second call shows who is left. */
//@ harness notify property=C37 unwind=6 unwindset=ilist_list_check.0:5,bfdev_notifier_call.0:5,bfdev_ilist_add.0:5 matrix=P:5/13/19,RM:0-7,GONE:3 thorough.matrix=P:0-26,RM:0-7,GONE:0-3 timeout=300 bounds=chains-of-up-to-3,any-order-of-priorities,any-results,any-limit,two-calls
//@ harness notify_gone entry=notify property=C37 unwind=6 unwindset=ilist_list_check.0:5,bfdev_notifier_call.0:5,bfdev_ilist_add.0:5 matrix=P:5/13,RM:0,GONE:0-2 timeout=300 bounds=any-one-unregistered
#if defined(VP_H_notify) || defined(VP_H_notify_gone)
static bfdev_notifier_node_t N0, N1, N2;
static bfdev_notifier_node_t *const nd[3] = { &N0, &N1, &N2 };
static struct { char pad[64]; bfdev_notifier_t h; char pad2[64]; } around; /* list ends are addressed as nodes */
#define head around.h
static int order[3], calls, cookie;
static bool stopper[3], removing;
static int who(void *pdata) { return pdata == &N0 ? 0 : pdata == &N1 ? 1 : 2; }
static bfdev_notifier_ret_t entry(void *arg, void *pdata)
{
    int i = who(pdata);
    VP_ASSERT(arg == &cookie, "argument passed");
    VP_ASSERT(calls < 3, "each is called once at most");
    VP_ASSUME(calls < 3);
    order[calls++] = i;
    return (bfdev_notifier_ret_t)((removing && (RM >> i & 1) ? BFDEV_NOTIFI_RET_REMOVE : 0) |
        (stopper[i] ? BFDEV_NOTIFI_RET_STOP : 0));
}
void notify(void)
{
    const int prio[3] = { P / 9 - 1, P / 3 % 3 - 1, P % 3 - 1 };
    bool in[3], called[3];
    bfdev_notifier_ret_t r;

    bfdev_notifier_init(&head);
    for (int i = 0; i < 3; ++i) {
        nd[i]->priority = prio[i];
        nd[i]->pdata = nd[i];
        in[i] = true;
        if (!i)
            VP_ASSERT(bfdev_notifier_register(&head, nd[i]) == -BFDEV_EINVAL, "nothing to call");
        nd[i]->entry = entry;
        VP_ASSERT(!bfdev_notifier_register(&head, nd[i]), "registered");
    }
    if (GONE < 3) {
        bfdev_notifier_unregister(&head, nd[GONE]);
        in[GONE] = false;
    }
    removing = true;
    for (int round = 0; round < 2; ++round) {
        unsigned int limit = round ? ~0u : vp_bool() ? vp_u8() & 3 : ~0u, n = 7;
        int prev = -100, left = 0;
        bool stop = false;
        for (int i = 0; i < 3; ++i) {
            stopper[i] = round ? false : vp_bool();
            called[i] = false;
        }
        calls = 0;
        r = bfdev_notifier_call(&head, &cookie, limit, &n);
        for (int c = 0; c < 3; ++c)
            for (int i = 0; i < 3; ++i)
                if (c < calls && order[c] == i) {
                    VP_ASSERT(in[i] && !called[i], "a registered one, once");
                    VP_ASSERT(prio[i] >= prev && !stop, "in order of priority, until one says stop");
                    prev = prio[i];
                    called[i] = true;
                    stop = stopper[i];
                    if (removing && (RM >> i & 1))
                        in[i] = false;
                }
        for (int i = 0; i < 3; ++i) {
            left += in[i] && !called[i];
            VP_ASSERT(called[i] || !in[i] || prio[i] >= prev, "those left out come later");
        }
        VP_ASSERT(!left || stop || (unsigned int)calls == limit, "no one is left out");
        VP_ASSERT((unsigned int)calls <= limit && n == 7u + calls, "counted");
        VP_ASSERT(r == (stop ? BFDEV_NOTIFI_RET_STOP : BFDEV_NOTIFI_RET_DONE), "the last one's answer");
        removing = false;
    }
    VP_REACH("end");
}
#endif
