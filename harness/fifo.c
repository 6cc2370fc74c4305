//@ src src/fifo.c src/ringbuf.c src/allocator.c
//@ opts unwind=20
#include "vp.h"
#include "vp_slots.h"
#include <bfdev/config.h>
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>

/* RING=0: fifo (refuses what does not fit), RING=1: ring buffer (drops the oldest) */
#if RING
# define T bfdev_ringbuf_t
# define F(n) bfdev_ringbuf_##n
# define STATIC_DEFINE BFDEV_DEFINE_RINGBUF
# define M ringbuf
#else
# define T bfdev_fifo_t
# define F(n) bfdev_fifo_##n
# define STATIC_DEFINE BFDEV_DEFINE_FIFO
# define M fifo
#endif
#ifndef SZ
# define SZ 4
#endif
#ifndef ES
# define ES 1
#endif

/* any state: counters anywhere (they run freely and wrap), any content; data is a block of exactly its size */
#ifdef ES
static uint8_t data[SZ * ES];
static uint8_t old[2 * SZ * ES + 8];
static T q;
static unsigned long used;
static void any_state(void)
{
    unsigned int i, k;
    q.in = vp_u64();
    used = vp_range(0, SZ);
    q.out = q.in - used;
    q.mask = SZ - 1;
    q.esize = ES;
    q.data = data;
    vp_bytes(data, sizeof(data));
    for (i = 0; i < SZ; ++i)
        for (k = 0; k < ES; ++k)
            old[i * ES + k] = data[((q.out + i) & (SZ - 1)) * ES + k];
}
static uint8_t at(unsigned long i, unsigned int k)
{
    return data[((q.out + i) & (SZ - 1)) * ES + k];
}
#endif

//@ harness fifo_flat property=C12 matrix=RING:0,SZ:4/8,ES:1-3,OP:0-2 timeout=200 bounds=every-state-of-a-queue-of-4-or-8-elements-of-1-to-3-bytes,every-length-up-to-2-above-the-size
//@ harness ring_flat property=C12 entry=fifo_flat matrix=RING:1,SZ:4/8,ES:1-3,OP:0-2 timeout=200 bounds=same,ring-buffer
#if defined(VP_H_fifo_flat) || defined(VP_H_ring_flat)
void fifo_flat(void)
{
    uint8_t buf[(SZ + 2) * ES], ref[(SZ + 2) * ES];
    unsigned long len, n, r, i, k, w;

    any_state();
    vp_bytes(buf, sizeof(buf));
    memcpy(ref, buf, sizeof(buf));
    len = vp_range(0, SZ + 2);
    w = vp_range(0, SZ + 1);         /* which element is looked at */
    k = vp_range(0, ES - 1);
# if OP == 2
    r = F(in_flat)(&q, buf, len);
#  if RING
    n = len < SZ ? len : SZ;
    VP_ASSERT(r == n, "takes what a whole buffer can hold");
    i = used + n > SZ ? used + n - SZ : 0;  /* oldest dropped */
#  else
    n = len < SZ - used ? len : SZ - used;
    VP_ASSERT(r == n, "takes what fits");
    i = 0;
#  endif
    VP_ASSERT(q.in - q.out == used + n - i, "length");
    if (w < used + n - i) {
        uint8_t want = w + i < used ? old[(w + i) * ES + k] : ref[(w + i - used) * ES + k];
        VP_ASSERT(at(w, k) == want, "what was there, then what was put in, in order");
    }
# else
    n = len < used ? len : used;
    i = q.out;
    r = OP ? F(out_flat)(&q, buf, len) : F(peek_flat)(&q, buf, len);
    VP_ASSERT(r == n, "hands out what is there");
    VP_ASSERT(q.out == i + (OP ? n : 0), "taken out, or only looked at");
    VP_ASSERT(q.in == i + used, "nothing added");
    VP_ASSERT(w >= SZ + 2 || buf[w * ES + k] == (w < n ? old[w * ES + k] : ref[w * ES + k]), "the oldest elements, in order, and nothing past them");
    if (w < used - (OP ? n : 0))
        VP_ASSERT(at(w, k) == old[(w + (OP ? n : 0)) * ES + k], "the rest stays");
# endif
    VP_ASSERT(q.mask == SZ - 1 && q.esize == ES && q.data == data, "buffer");
    VP_REACH("end");
}
#endif

//@ harness fifo_typed property=C12 matrix=RING:0-1,DYN:0-1 timeout=200 bounds=any-counter-values,4-element-queue-of-16-bit-values,any-three-operations
#ifdef VP_H_fifo_typed
# if DYN
#  if RING
static BFDEV_DEFINE_RINGBUF_DYNAMIC(tq, uint16_t);
#  else
static BFDEV_DEFINE_FIFO_DYNAMIC(tq, uint16_t);
#  endif
# else
static STATIC_DEFINE(tq, uint16_t, 4);
# endif
void fifo_typed(void)
{
    uint16_t model[8], v;
    unsigned long head = vp_u64(), n = 0, i;
    unsigned int step, op, r;

# if DYN
    VP_ASSERT(F(alloc)(&tq, &vp_alloc, 3) == 0, "allocated");
    VP_ASSERT(F(size)(&tq) == 4, "rounded up to a power of two");
# else
    VP_ASSERT(F(alloc)(&tq, &vp_alloc, 3) < 0, "a static queue is not allocated");
# endif
    VP_ASSERT(F(initialized)(&tq) && F(esize)(&tq) == 2, "set up");
    tq.M.in = tq.M.out = head;
    for (i = 0; i < 4; ++i) {        /* any fill */
        v = vp_u16();
        if (vp_bool()) {
            VP_ASSERT(F(put)(&tq, v) == (RING ? 0 : 1), "put: a fifo reports success, a ring buffer an overwrite");
            model[n++] = v;
        }
    }
    for (step = 0; step < 3; ++step) {
        op = vp_uint(0, 2);
        v = vp_u16();
        VP_ASSERT(F(len)(&tq) == n && F(check_empty)(&tq) == !n && F(check_full)(&tq) == (n == 4), "length");
        if (op == 0) {
            r = F(put)(&tq, v);
            VP_ASSERT(r == (RING ? n == 4 : n < 4), "put");
            if (n == 4 && RING) {
                for (i = 0; i < 3; ++i)
                    model[i] = model[i + 1];
                model[3] = v;
            } else if (n < 4)
                model[n++] = v;
        } else if (op == 1) {
            uint16_t was = v;
            r = F(peek)(&tq, &v);
            VP_ASSERT(r == (n > 0) && v == (n ? model[0] : was), "peek: the oldest");
        } else {
            uint16_t was = v;
            r = F(get)(&tq, &v);
            VP_ASSERT(r == (n > 0) && v == (n ? model[0] : was), "get: the oldest");
            if (n) {
                for (i = 0; i < 3; ++i)
                    model[i] = model[i + 1];
                n--;
            }
        }
    }
    VP_ASSERT(F(len)(&tq) == n, "length");
    if (vp_bool())
        F(homing)(&tq);
    else
        F(reset)(&tq);
    VP_ASSERT(F(check_empty)(&tq), "emptied");
# if DYN
    F(free)(&tq);
    VP_ASSERT(!vp_live && !F(initialized)(&tq), "freed");
# endif
    VP_REACH("end");
}
#endif

//@ harness fifo_record property=C12 unwind=17 matrix=RING:0-1,ES:1/3,RS:1-2,OFF:3 thorough.matrix=RING:0-1,ES:1-3,RS:1-2,OFF:0-3 D=SZ:4 timeout=400 bounds=any-counter-values,4-element-queue,records-of-any-length,three-put-with-takes-between
#ifdef VP_H_fifo_record
#define NB (SZ + 1)
static uint8_t in[3][NB * ES];
void fifo_record(void)
{
    unsigned long len[3], have[3], n = 0, first = 0, total = 0, i, k, j, r, want, room;
    uint8_t buf[NB * ES];

    q.in = q.out = (unsigned long)-2 + OFF;
    q.mask = SZ - 1; q.esize = ES; q.data = data;
    vp_bytes(data, sizeof(data));
    for (j = 0; j < 3; ++j) {
        vp_bytes(in[j], NB * ES);
        len[j] = j < 2 || vp_bool() ? vp_range(0, NB) : vp_u64();
        VP_ASSUME(len[j] <= NB || !RING);      /* a fifo refuses it whatever it is */
        VP_ASSUME(len[j] <= NB || len[j] + RS > SZ || len[j] + RS < RS);
        r = F(in_record)(&q, in[j], len[j], RS);
        if (RING) {
            want = len[j] < SZ - RS ? len[j] : SZ - RS;
            VP_ASSERT(r == want, "takes what a whole buffer can hold");
            while (total + RS + want > SZ) {
                total -= RS + have[first];
                first++;
            }
            have[n] = want;
        } else {
            room = SZ - total;
            want = len[j] <= SZ && len[j] + RS <= room ? len[j] : 0;
            VP_ASSERT(r == want, "takes a record that fits whole, or nothing");
            VP_ASSERT(q.in - q.out == total + (len[j] <= SZ && len[j] + RS <= room ? RS + want : 0), "length");
            if (!(len[j] <= SZ && len[j] + RS <= room)) {
                have[n] = 99;      /* refused */
            } else
                have[n] = want;
        }
        if (have[n] != 99)
            total += RS + have[n];
        n++;
        if (vp_bool()) {
            while (first < n && have[first] == 99)
                first++;
            if (first < n) {
                unsigned long ask = vp_range(0, NB), got = ask < have[first] ? ask : have[first];
                unsigned long peek = vp_bool();
                r = peek ? F(peek_record)(&q, buf, ask, RS) : F(out_record)(&q, buf, ask, RS);
                VP_ASSERT(r == got, "one record, no more of it than asked for");
                i = vp_range(0, NB - 1); k = vp_range(0, ES - 1);
                if (i < got)
                    VP_ASSERT(buf[i * ES + k] == in[first][i * ES + k], "the oldest record's content");
                if (!peek) {
                    total -= RS + have[first];
                    first++;
                }
            } else
                VP_ASSERT(F(out_record)(&q, buf, NB, RS) == 0, "nothing to take");
        }
        VP_ASSERT(q.in - q.out == total, "length");
    }
    for (j = 0; j < 3; ++j) {
        while (first < n && have[first] == 99)
            first++;
        if (first >= n)
            break;
        r = F(out_record)(&q, buf, NB, RS);
        VP_ASSERT(r == have[first], "records come out whole, oldest first");
        i = vp_range(0, NB - 1); k = vp_range(0, ES - 1);
        if (i < r)
            VP_ASSERT(buf[i * ES + k] == in[first][i * ES + k], "with what was put in");
        first++;
    }
    VP_ASSERT(q.in == q.out, "empty in the end");
    VP_REACH("end");
}
#endif

//@ harness fifo_alloc property=C12 matrix=RING:0-1,ES:1/2/3/8 timeout=200 unwind=20 bounds=any-requested-size,allocation-failure
#ifdef VP_H_fifo_alloc
static size_t asked;
static bool refuse;
static char token;
static void *t_alloc(size_t size, void *pdata) { (void)pdata; asked = size; return refuse ? NULL : &token; }
static void t_free(void *p, void *pdata) { (void)pdata; VP_ASSERT(p == &token, "frees its own block"); }
static const bfdev_alloc_ops_t t_ops = { .alloc = t_alloc, .free = t_free };
static const bfdev_alloc_t t_a = { .ops = &t_ops };
void fifo_alloc(void)
{
    T f;
    size_t size = vp_u64();
    int r;
    refuse = vp_bool();
    r = F(dynamic_alloc)(&f, &t_a, ES, size);
    VP_ASSERT(r <= 0, "error code");
    if (!r) {
        VP_ASSERT(!refuse && f.data == &token, "allocated");
        VP_ASSERT(f.mask + 1 >= size && f.mask >= 1 && !(f.mask & (f.mask + 1)), "a power of two, no less than asked for");
        VP_ASSERT(asked / ES == f.mask + 1 && asked % ES == 0, "the block holds all of its elements");
        VP_ASSERT(!f.in && !f.out && f.esize == ES, "empty");
        F(dynamic_free)(&f);
    } else
        VP_ASSERT(refuse || size < 2 || size > ((size_t)1 << 63) / ES, "fails for lack of memory or a bad size only");
    VP_REACH("end");
}
#endif
