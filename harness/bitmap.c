//@ property C05
//@ src src/bitmap.c src/bitwalk.c src/libc/string.c src/allocator.c
/* CONSTP=1 encodes the branches the compiler takes when the sizes are constants, for every size */
#ifdef CONSTP
# define __builtin_constant_p(x) (CONSTP)
#endif
#include "vp.h"
#include <bfdev/bitmap.h>
#include <bfdev/bitwalk.h>

#ifndef WORDS
# define WORDS 3
#endif
#define MAXB (WORDS * 64)
static unsigned long A[WORDS + 1], B[WORDS + 1], C[WORDS + 1], M[WORDS + 1], D[WORDS + 1], O[WORDS + 1];
static unsigned int bits;
static bool at(const unsigned long *m, unsigned int i) { return (m[i / 64] >> (i % 64)) & 1; }
static void fill(unsigned long *m) { for (unsigned int i = 0; i <= WORDS; ++i) m[i] = vp_u64(); }
static void copy(unsigned long *d, const unsigned long *s) { for (unsigned int i = 0; i <= WORDS; ++i) d[i] = s[i]; }

/* OP: 0 and 1 andnot 2 or 3 xor 4 complement 5 replace; AL: 0 distinct, 1 dest is the first source, 2 the second */
//@ harness bm_logic unwind=30 timeout=200 matrix=OP:0-5,AL:0-2,CONSTP:0-1 bounds=every-bitmap-of-<=192-bits,dest-distinct-or-a-source
#ifdef VP_H_bm_logic
void bm_logic(void)
{
    unsigned int w = vp_uint(0, MAXB - 1), g = vp_uint(0, WORDS);
    unsigned long *dest = AL == 0 ? D : AL == 1 ? A : B;
    bool want, any = false, ret = false, a, b;

    bits = vp_uint(1, MAXB);
    fill(A); fill(B); fill(M); fill(D);
    a = at(A, w); b = at(B, w);
    want = OP == 0 ? a && b : OP == 1 ? a && !b : OP == 2 ? a || b : OP == 3 ? a ^ b : OP == 4 ? !a :
           (at(M, w) ? b : a);
    copy(O, dest);
#if OP == 0
    ret = bfdev_bitmap_and(dest, A, B, bits);
#elif OP == 1
    ret = bfdev_bitmap_andnot(dest, A, B, bits);
#elif OP == 2
    bfdev_bitmap_or(dest, A, B, bits);
#elif OP == 3
    bfdev_bitmap_xor(dest, A, B, bits);
#elif OP == 4
    bfdev_bitmap_complement(dest, A, bits);
#else
    bfdev_bitmap_comp_replace(dest, A, B, M, bits);
#endif
    if (w < bits)
        VP_ASSERT(at(dest, w) == want, "each bit is the operation on the bits");
    if (g >= (bits + 63) / 64)
        VP_ASSERT(dest[g] == O[g], "no word past the bitmap is written");
    if (OP < 2) {
        for (unsigned int i = 0; i < WORDS; ++i)
            any |= i * 64 < bits && (dest[i] & (bits - i * 64 >= 64 ? ~0UL : (1UL << (bits - i * 64)) - 1));
        VP_ASSERT(ret == any, "reports whether any bit is set");
    }
    VP_REACH("end");
}
#endif

/* OP 0 shl 1 shr; any shift, also past the length */
//@ harness bm_shift unwind=30 checks=undefined-shift timeout=200 matrix=OP:0-1,AL:0-1,CONSTP:0-1 bounds=every-bitmap-of-<=192-bits,every-shift<=256,dest-distinct-or-the-source
#ifdef VP_H_bm_shift
void bm_shift(void)
{
    unsigned int w = vp_uint(0, MAXB - 1), g = vp_uint(0, WORDS), sh = vp_uint(0, MAXB + 64);
    unsigned long *dest = AL == 0 ? D : A;
    bool want;

    bits = vp_uint(1, MAXB);
    fill(A); fill(D);
    if (OP == 0)
        want = w >= sh && at(A, w - sh);
    else
        want = w + sh < bits && at(A, w + sh);
    copy(O, dest);
    if (OP == 0)
        bfdev_bitmap_shl(dest, A, sh, bits);
    else
        bfdev_bitmap_shr(dest, A, sh, bits);
    if (w < bits)
        VP_ASSERT(at(dest, w) == want, "each bit moved by the shift, zeros moved in");
    if (g >= (bits + 63) / 64)
        VP_ASSERT(dest[g] == O[g], "no word past the bitmap is written");
    VP_REACH("end");
}
#endif

/* OP 0 set 1 clr; CONSTP=2: both aligned constants */
//@ harness bm_range unwind=30 timeout=200 matrix=OP:0-1,CONSTP:0-1 bounds=every-range-in-<=192-bits
#ifdef VP_H_bm_range
void bm_range(void)
{
    unsigned int w = vp_uint(0, MAXB + 63), start = vp_uint(0, MAXB), n = vp_uint(0, MAXB);

    VP_ASSUME(start + n <= MAXB);
    fill(A);
    copy(O, A);
    if (OP == 0)
        bfdev_bitmap_set(A, start, n);
    else
        bfdev_bitmap_clr(A, start, n);
    VP_ASSERT(at(A, w) == (w >= start && w < start + n ? OP == 0 : at(O, w)), "exactly the bits of the range change");
    VP_REACH("end");
}
#endif

/* OP 0 zero 1 fill 2 copy */
//@ harness bm_whole unwind=30 timeout=200 matrix=OP:0-2,CONSTP:0-1 bounds=every-bitmap-of-<=192-bits
#ifdef VP_H_bm_whole
void bm_whole(void)
{
    unsigned int w = vp_uint(0, MAXB - 1), g = vp_uint(0, WORDS);

    bits = vp_uint(1, MAXB);
    fill(A); fill(D);
    copy(O, D);
    if (OP == 0)
        bfdev_bitmap_zero(D, bits);
    else if (OP == 1)
        bfdev_bitmap_fill(D, bits);
    else
        bfdev_bitmap_copy(D, A, bits);
    if (w < bits)
        VP_ASSERT(at(D, w) == (OP == 0 ? 0 : OP == 1 ? 1 : at(A, w)), "every bit of the bitmap has its value");
    if (g >= (bits + 63) / 64)
        VP_ASSERT(D[g] == O[g], "no word past the bitmap is written");
    VP_REACH("end");
}
#endif

/* OP 0 equal 1 or_equal 2 intersects 3 empty 4 full */
//@ harness bm_test unwind=30 timeout=200 matrix=OP:0-4,CONSTP:0-1 bounds=every-bitmap-of-<=192-bits
#ifdef VP_H_bm_test
void bm_test(void)
{
    unsigned long d = 0, m;
    bool ret;

    bits = vp_uint(1, MAXB);
    fill(A); fill(B); fill(C);
    for (unsigned int i = 0; i < WORDS; ++i) {
        if (i * 64 >= bits)
            break;
        m = bits - i * 64 >= 64 ? ~0UL : (1UL << (bits - i * 64)) - 1;
        d |= m & (OP == 0 ? A[i] ^ B[i] : OP == 1 ? (A[i] | B[i]) ^ C[i] : OP == 2 ? A[i] & B[i] : OP == 3 ? A[i] : ~A[i]);
    }
    ret = OP == 0 ? bfdev_bitmap_equal(A, B, bits) : OP == 1 ? bfdev_bitmap_or_equal(A, B, C, bits) :
          OP == 2 ? bfdev_bitmap_intersects(A, B, bits) : OP == 3 ? bfdev_bitmap_empty(A, bits) : bfdev_bitmap_full(A, bits);
    VP_ASSERT(ret == (OP == 2 ? d != 0 : d == 0), "the answer is about exactly the bits of the bitmap");
    VP_REACH("end");
}
#endif

/* OP: 0 first 1 last 2 next 3 prev 4 next_and 5 prev_and; Z: look for zeros */
//@ harness bw_find unwind=30 timeout=300 matrix=OP:0-3,Z:0-1,CONSTP:0-1 bounds=every-bitmap-of-<=192-bits,every-start<=256
//@ harness bw_find_and entry=bw_find unwind=30 timeout=300 D=Z:0 matrix=OP:4-5,CONSTP:0-1 bounds=every-pair-of-bitmaps-of-<=192-bits,every-start<=256
#if defined(VP_H_bw_find) || defined(VP_H_bw_find_and)
static bool hit(unsigned int i) { return OP >= 4 ? at(A, i) && at(B, i) : at(A, i) != Z; }
void bw_find(void)
{
    unsigned int w = vp_uint(0, MAXB - 1), start = vp_uint(0, MAXB + 64), r;
    bool fwd = OP == 0 || OP == 2 || OP == 4, in;

    bits = vp_uint(1, MAXB);
    fill(A); fill(B);
#if OP == 0
    r = Z ? bfdev_find_first_zero(A, bits) : bfdev_find_first_bit(A, bits);
    start = 0;
#elif OP == 1
    r = Z ? bfdev_find_last_zero(A, bits) : bfdev_find_last_bit(A, bits);
    start = bits - 1;
#elif OP == 2
    r = Z ? bfdev_find_next_zero(A, bits, start) : bfdev_find_next_bit(A, bits, start);
#elif OP == 3
    r = Z ? bfdev_find_prev_zero(A, bits, start) : bfdev_find_prev_bit(A, bits, start);
#elif OP == 4
    r = bfdev_find_next_and_bit(A, B, bits, start);
#else
    r = bfdev_find_prev_and_bit(A, B, bits, start);
#endif
    VP_ASSERT(r <= bits, "the answer is a bit of the bitmap, or its length for none");
    if (start >= bits)
        VP_ASSERT(r == bits, "a start past the end finds nothing");
    else if (r < bits)
        VP_ASSERT(hit(r) && (fwd ? r >= start : r <= start), "what is found is such a bit");
    /* nothing between the start and the answer */
    in = w < bits && start < bits && (fwd ? w >= start && w < r : w <= start && (r == bits || w > r));
    if (in)
        VP_ASSERT(!hit(w), "no such bit is skipped");
    VP_REACH("end");
}
#endif

/* IT: 0 each_bit 1 each_zero 2 reverse bit 3 reverse zero 4 bit_form 5 zero_form 6 rev bit form 7 rev zero form
   8 bit continue 9 zero continue 10 rev bit continue 11 rev zero continue */
//@ harness bw_each unwind=10 timeout=300 matrix=IT:0-11 bounds=every-bitmap-of-<=6-bits-in-garbage
#ifdef VP_H_bw_each
#define LIM 7
void bw_each(void)
{
    unsigned int w = vp_uint(0, 5), i, n = 0, from, prev = 0;
    bool z = IT & 1, rev = (IT >> 1) & 1, seen = false, ok = true, ordered = true;

    bits = vp_uint(1, 6);
    A[0] = vp_u64();
    from = vp_uint(0, bits - 1);
    i = from;
#define BODY { \
        if (i >= bits || (IT / 4 != 1 || n ? at(A, i) == z : i != from)) ok = false; \
        if (n && (rev ? i >= prev : i <= prev)) ordered = false; \
        if (i == w) seen = true; \
        prev = i; \
        if (++n > LIM) break; \
    }
#if IT == 0
    bfdev_for_each_bit(i, A, bits) BODY
#elif IT == 1
    bfdev_for_each_zero(i, A, bits) BODY
#elif IT == 2
    bfdev_for_each_bit_reverse(i, A, bits) BODY
#elif IT == 3
    bfdev_for_each_zero_reverse(i, A, bits) BODY
#elif IT == 4
    bfdev_for_each_bit_form(i, A, bits) BODY
#elif IT == 5
    bfdev_for_each_zero_form(i, A, bits) BODY
#elif IT == 6
    bfdev_for_each_bit_reverse_form(i, A, bits) BODY
#elif IT == 7
    bfdev_for_each_zero_reverse_form(i, A, bits) BODY
#elif IT == 8
    bfdev_for_each_bit_continue(i, A, bits) BODY
#elif IT == 9
    bfdev_for_each_zero_continue(i, A, bits) BODY
#elif IT == 10
    bfdev_for_each_bit_reverse_continue(i, A, bits) BODY
#else
    bfdev_for_each_zero_reverse_continue(i, A, bits) BODY
#endif
    VP_ASSERT(ok && ordered, "visits such bits only, in order");
    VP_ASSERT(n <= LIM, "terminates");
    if (w < bits && at(A, w) != z && (IT < 4 || (rev ? w < from : w > from)))
        VP_ASSERT(seen, "every such bit is visited");
    if (IT >= 8)
        VP_ASSERT(!(seen && (rev ? w >= from : w <= from)), "continues after the position");
    VP_REACH("end");
}
#endif

//@ harness bm_alloc unwind=40 timeout=100 bounds=every-size<=192-bits
#ifdef VP_H_bm_alloc
#define VP_SLOTS 2
#include "vp_slots.h"
void bm_alloc(void)
{
    unsigned long *p, *q;
    unsigned int g = vp_uint(0, WORDS - 1);

    bits = vp_uint(1, MAXB);
    vp_fail_mask = vp_u32();
    p = bfdev_bitmap_alloc(&vp_alloc, bits);
    VP_ASSERT(!p == (vp_fail_mask & 1), "memory, unless it ran out");
    if (p)
        VP_ASSERT(vp_blk_size[0] >= (bits + 63) / 64 * 8, "room for the bits");
    q = bfdev_bitmap_zalloc(&vp_alloc, bits);
    if (q && g < (bits + 63) / 64)
        VP_ASSERT(q[g] == 0, "all zero");
    bfdev_bitmap_free(&vp_alloc, p);
    bfdev_bitmap_free(&vp_alloc, q);
    VP_ASSERT(vp_live == 0, "everything freed");
    VP_REACH("end");
}
#endif
