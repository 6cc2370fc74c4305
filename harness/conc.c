//@ opts D=VP_SCHEDULE
//@ src src/llist.c src/refcount.c
#define VP_REAL_LOG
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/llist.h>
#include <bfdev/refcount.h>
#include <bfdev/atomic.h>

static unsigned int reports;
struct bfdev_log;
int bfdev_log_core(struct bfdev_log *log, const char *fmt, ...);
int bfdev_log_core(struct bfdev_log *log, const char *fmt, ...) { reports++; return 0; }

/* One thread runs the code under test; at each of its atomic steps the other threads do any
   number (bounded by ENV in all) of whole operations. The other operations take effect in one
   atomic step, so that every interleaving of two threads is equivalent to one of these. */
#ifndef ENV
# define ENV 2
#endif
static bool racing;
static unsigned int envs;

//@ harness llist_race property=C15 unwind=9 matrix=OP:0-3,INIT:0-2 thorough.D=ENV:4 timeout=300 bounds=0-to-2-initial-nodes,2(thorough:4)-interfering-operations-at-any-step,sequential-consistency
#ifdef VP_H_llist_race
/* OP 0 add, 1 split (a batch of two), 2 destroy, 3 del by the only consumer */
#define POOL (INIT + ENV + 2)
static bfdev_slist_head_t n0, n1, n2, n3, n4, n5, n6, n7;
static bfdev_slist_head_t *const N[8] = { &n0, &n1, &n2, &n3, &n4, &n5, &n6, &n7 };
static bfdev_slist_head_t H;
static uint8_t ghost[POOL];      /* ghost[num - 1] is the first node */
static unsigned int num;

void vp_env(void)
{
    if (!racing)
        return;
    for (unsigned int k = 0; k < ENV; ++k) {
        if (envs < ENV && vp_bool()) {
            if (OP == 3 || vp_bool()) {     /* another producer */
                unsigned int id = INIT + 2 + envs;
                for (unsigned int i = 0; i < 8; ++i)
                    if (i == id) {
                        N[i]->next = H.next;
                        H.next = N[i];
                    }
                ghost[num++] = id;
            } else {                        /* another consumer takes all */
                H.next = NULL;
                num = 0;
            }
            envs++;
        }
    }
}
static void same(bfdev_slist_head_t *w)
{
    for (unsigned int k = 0; k <= POOL; ++k) {
        bfdev_slist_head_t *want = NULL;
        for (unsigned int i = 0; i < 8; ++i)
            if (k < num && ghost[num - 1 - k] == i)
                want = N[i];
        VP_ASSERT(w == want, "the list holds every node added and not taken, newest first");
        if (!want)
            break;
        w = want->next;
    }
}
void llist_race(void)
{
    unsigned int i, was;
    bool e;

    H.next = NULL;
    for (i = 0; i < INIT; ++i) {
        N[i]->next = H.next;
        H.next = N[i];
        ghost[num++] = i;
    }
    racing = true;
    if (OP == 0) {
        e = bfdev_llist_add(&H, N[INIT]);
        racing = false;
        was = num;
        ghost[num++] = INIT;
        VP_ASSERT(e == !was, "says whether the list was empty when the node got in");
        same(H.next);
    } else if (OP == 1) {
        N[INIT]->next = N[INIT + 1];
        e = bfdev_llist_split(&H, N[INIT], N[INIT + 1]);
        racing = false;
        was = num;
        ghost[num++] = INIT + 1;
        ghost[num++] = INIT;
        VP_ASSERT(e == !was, "says whether the list was empty when the batch got in");
        same(H.next);
    } else if (OP == 2) {
        bfdev_slist_head_t *all = bfdev_llist_destroy(&H);
        racing = false;
        same(all);
        VP_ASSERT(!H.next, "empty afterwards");
    } else {
        bfdev_slist_head_t *one = bfdev_llist_del(&H);
        racing = false;
        VP_ASSERT(!!one == !!num, "a node, exactly if there was one");
        if (one) {
            for (i = 0; i < 8; ++i)
                if (ghost[num - 1] == i)
                    VP_ASSERT(one == N[i], "the first node");
            num--;
        }
        same(H.next);
    }
    VP_REACH("end");
}
#endif

//@ harness atomic_race property=C16 unwind=6 matrix=OP:0-14 timeout=100 bounds=all-values,any-interfering-write-before-any-step
#ifdef VP_H_atomic_race
static bfdev_atomic_t a;
static bfdev_atomic_t last;
void vp_env(void)
{
    if (racing && vp_bool())
        a = (bfdev_atomic_t)vp_u64();
    last = a;
}
#define CHK(call, after) do { r = call; racing = false; VP_ASSERT(r == last, "the value before"); VP_ASSERT(a == (bfdev_atomic_t)(after), "one atomic update"); } while (0)
#define CHKN(call, after) do { r = call; racing = false; VP_ASSERT(r == (bfdev_atomic_t)(after), "the value after"); VP_ASSERT(a == r, "one atomic update"); } while (0)
#define CHKV(call, after) do { call; racing = false; VP_ASSERT(a == (bfdev_atomic_t)(after), "one atomic update"); } while (0)
void atomic_race(void)
{
    bfdev_atomic_t r, v = (bfdev_atomic_t)vp_u64(), o = (bfdev_atomic_t)vp_u64();

    a = (bfdev_atomic_t)vp_u64();
    racing = true;
    if (OP == 0) CHK(bfdev_atomic_fetch_add(&a, v), (uint64_t)last + v);
    if (OP == 1) CHK(bfdev_atomic_fetch_sub(&a, v), (uint64_t)last - v);
    if (OP == 2) CHK(bfdev_atomic_fetch_and(&a, v), last & v);
    if (OP == 3) CHK(bfdev_atomic_fetch_or(&a, v), last | v);
    if (OP == 4) CHK(bfdev_atomic_fetch_xor(&a, v), last ^ v);
    if (OP == 5) CHKN(bfdev_atomic_add_fetch(&a, v), (uint64_t)last + v);
    if (OP == 6) CHKN(bfdev_atomic_sub_fetch(&a, v), (uint64_t)last - v);
    if (OP == 7) CHKN(bfdev_atomic_and_fetch(&a, v), last & v);
    if (OP == 8) CHKN(bfdev_atomic_or_fetch(&a, v), last | v);
    if (OP == 9) CHKN(bfdev_atomic_xor_fetch(&a, v), last ^ v);
    if (OP == 10) CHKV(bfdev_atomic_add(&a, v), (uint64_t)last + v);
    if (OP == 11) CHKV(bfdev_atomic_sub(&a, v), (uint64_t)last - v);
    if (OP == 12) CHKV(bfdev_atomic_and(&a, v), last & v);
    if (OP == 13) CHKV(bfdev_atomic_or(&a, v), last | v);
    if (OP == 14) CHKV(bfdev_atomic_xor(&a, v), last ^ v);
    VP_REACH("end");
}
#endif

//@ harness cas_race property=C16 unwind=6 unwindset=bfdev_arch_xchg.0:6 matrix=OP:0-4 timeout=100 bounds=all-values,up-to-4-interfering-writes
#ifdef VP_H_cas_race
static bfdev_atomic_t a;
static bfdev_atomic_t last;
void vp_env(void)
{
    if (racing && envs < 4 && vp_bool()) {
        a = (bfdev_atomic_t)vp_u64();
        envs++;
    }
    last = a;
}
void cas_race(void)
{
    bfdev_atomic_t r, e, v = (bfdev_atomic_t)vp_u64(), o = (bfdev_atomic_t)vp_u64();
    bool ok;

    a = (bfdev_atomic_t)vp_u64();
    racing = true;
    if (OP == 0) {
        r = bfdev_cmpxchg(&a, o, v);
        VP_ASSERT(r == last && a == (last == o ? v : last), "compare and exchange");
    } else if (OP == 1) {
        r = bfdev_xchg(&a, v);
        VP_ASSERT(r == last && a == v, "exchange hands out the value it replaced");
    } else if (OP == 2) {
        e = o;
        ok = bfdev_try_cmpxchg(&a, &e, v);
        VP_ASSERT(ok == (last == o) && a == (ok ? v : last) && e == (ok ? o : last), "try compare and exchange");
    } else if (OP == 3) {
        r = bfdev_atomic_read(&a);
        VP_ASSERT(r == a && r == last, "read");
    } else {
        bfdev_atomic_write(&a, v);
        VP_ASSERT(a == v, "write");
    }
    VP_REACH("end");
}
#endif

/* The count of references: as a whole history of this and the other threads. */
//@ harness refcnt_race property=C16 unwind=6 matrix=OP:0-18 timeout=100 bounds=any-count,any-number-taken,3-interfering-changes
#ifdef VP_H_refcnt_race
static bfdev_refcnt_t R;
static bfdev_atomic_t last;
static bool steal;      /* the others may drop the last reference */
void vp_env(void)
{
    if (racing && envs < 3 && vp_bool()) {
        R.count = vp_range(steal ? 0 : 1, 1u << 20);
        envs++;
    }
    last = R.count;
}
void refcnt_race(void)
{
    bfdev_atomic_t nr = vp_range(1, 1u << 20), old = -1, cnt, one;
    bool t = false, tested = false, given = false;

    bfdev_refcnt_set(&R, vp_range(0, 1u << 20));
    cnt = bfdev_refcnt_get(&R);
    VP_ASSERT(cnt == R.count, "get after set");
    steal = vp_bool();
    racing = true;
    one = OP % 2 ? 1 : nr;
    /* 0..: add inc fetch_inc | sub dec sub_test dec_test fetch_sub fetch_dec fetch_dec_test | addnz ... */
    switch (OP) {
    case 0: bfdev_refcnt_add(&R, nr); one = nr; break;
    case 1: bfdev_refcnt_inc(&R); one = 1; break;
    case 2: bfdev_refcnt_fetch_inc(&R, &old); one = 1; given = true; break;
    case 3: bfdev_refcnt_fetch_add(&R, nr, &old); one = nr; given = true; break;
    case 4: bfdev_refcnt_sub(&R, nr); one = nr; break;
    case 5: bfdev_refcnt_dec(&R); one = 1; break;
    case 6: t = bfdev_refcnt_sub_test(&R, nr); one = nr; tested = true; break;
    case 7: t = bfdev_refcnt_dec_test(&R); one = 1; tested = true; break;
    case 8: bfdev_refcnt_fetch_sub(&R, nr, &old); one = nr; given = true; break;
    case 9: bfdev_refcnt_fetch_dec(&R, &old); one = 1; given = true; break;
    case 10: t = bfdev_refcnt_fetch_dec_test(&R, &old); one = 1; tested = given = true; break;
    case 11: bfdev_refcnt_addnz(&R, nr); one = nr; break;
    case 12: t = bfdev_refcnt_addnz_test(&R, nr); one = nr; tested = true; break;
    case 13: bfdev_refcnt_fetch_addnz(&R, nr, &old); one = nr; given = true; break;
    case 14: bfdev_refcnt_incnz(&R); one = 1; break;
    case 15: t = bfdev_refcnt_incnz_test(&R); one = 1; tested = true; break;
    case 16: bfdev_refcnt_fetch_incnz(&R, &old); one = 1; given = true; break;
    case 17: t = bfdev_refcnt_fetch_incnz_test(&R, &old); one = 1; tested = given = true; break;
    default: t = bfdev_refcnt_fetch_addnz_test(&R, nr, &old); one = nr; tested = given = true; break;
    }
    racing = false;
    if (OP < 4)
        VP_ASSERT(R.count == last + one, "taken once");
    else if (OP < 11) {
        VP_ASSERT(R.count == last - one, "dropped once");
        if (tested)
            VP_ASSERT(t == (R.count == 0), "tells exactly the one who dropped the last reference");
    } else {
        VP_ASSERT(R.count == (last ? last + one : 0), "taken once, unless there was none left");
        if (tested)
            VP_ASSERT(t == (last == 0), "tells whether there was none left");
    }
    /* a misuse is reported, and nothing else is */
    if (OP < 4)
        VP_ASSERT(!!reports == (last == 0), "adding to a dead count is reported");
    else if (OP < 11)
        VP_ASSERT(!!reports == (last < one), "dropping more than there are is reported");
    else
        VP_ASSERT(!reports, "a correct use is not reported");
    if (given)
        VP_ASSERT(old == last, "hands out the count before");
    VP_REACH("end");
}
#endif
