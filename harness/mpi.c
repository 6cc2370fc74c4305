//@ src src/array.c src/dword.c src/bitmap.c src/allocator.c
/* everything here is made of whole words: memory functions word by word */
#define VP_MEM_BUILTIN
#include "vp.h"
#ifdef VP_CBMC
void *memset(void *s, int c, size_t n)
{
    VP_ASSERT(!c && n % 8 == 0, "whole words of zero");
    for (size_t vp_m = 0; vp_m < n / 8; ++vp_m)
        ((uint64_t *)s)[vp_m] = 0;
    return s;
}
void *memcpy(void *restrict d, const void *restrict s, size_t n)
{
    VP_ASSERT(n % 8 == 0, "whole words");
    for (size_t vp_m = 0; vp_m < n / 8; ++vp_m)
        ((uint64_t *)d)[vp_m] = ((const uint64_t *)s)[vp_m];
    return d;
}
void *memmove(void *d, const void *s, size_t n)
{
    VP_ASSERT(n % 8 == 0, "whole words");
    if (__CPROVER_same_object(d, s) && __CPROVER_POINTER_OFFSET(d) > __CPROVER_POINTER_OFFSET(s)) {
        for (size_t vp_m = n / 8; vp_m-- > 0; )
            ((uint64_t *)d)[vp_m] = ((const uint64_t *)s)[vp_m];
    } else
        for (size_t vp_m = 0; vp_m < n / 8; ++vp_m)
            ((uint64_t *)d)[vp_m] = ((const uint64_t *)s)[vp_m];
    return d;
}
#endif
#include <bfdev/config.h>
#include <bfdev/allocator.h>
#include <bfdev/array.h>
#include <bfdev/mpi.h>
#include <bfdev/dword.h>
#ifdef DIVISION
/*
 * Two words by one, as C27 has it of the library's own, a bit at a time: what is known of the dividend then settles
 * the quotient without search. The quotient always fits one word here.
 */
static void vp_udiv(bfdev_uw_t *q, bfdev_uw_t *r, const bfdev_uw_t *n, bfdev_uw_t d)
{
    bfdev_uw_t rem = n[1], lo = n[0], ql = 0;
    VP_ASSERT(rem < d, "quotient of one word");
    for (int b = 0; b < 64; ++b) {
        bool out = rem >> 63;
        rem = rem << 1 | lo >> 63;
        lo <<= 1;
        ql <<= 1;
        if (out || rem >= d) {
            rem -= d;
            ql |= 1;
        }
    }
    if (q) {
        q[0] = ql;
        q[1] = 0;
    }
    if (r)
        *r = rem;
}
# undef bfdev_dword_udiv
# define bfdev_dword_udiv vp_udiv
#endif
#include <../src/mpi.c>

typedef unsigned __int128 u128;
typedef uint64_t w;

/* blocks of words; what is given back is overwritten, growing always moves */
#define BLOCKS 24
#define CELLS 8
static w pool[BLOCKS][CELLS];
static int used, live, refuse;
static void *mp_get(size_t size, void *d)
{
    if (refuse && !--refuse)
        return NULL;
    VP_ASSERT(size <= sizeof(pool[0]) && used < BLOCKS, "request in proportion");
    live++;
    return pool[used++];
}
static void mp_put(void *p, void *d)
{
    if (!p)
        return;
    live--;
    for (int k = 0; k < CELLS; ++k)
        ((w *)p)[k] = 0xdead0000deadull;
}
static void *mp_move(void *p, size_t size, void *d)
{
    w *n = mp_get(size, d);
    if (!n)
        return NULL;
    if (p)
        for (int k = 0; k < CELLS; ++k)
            n[k] = ((w *)p)[k];
    mp_put(p, d);
    return n;
}
static const bfdev_alloc_ops_t mops = { .alloc = mp_get, .zalloc = mp_get, .realloc = mp_move, .free = mp_put };
static const bfdev_alloc_t mal = { .ops = &mops };

/* a number of `len` words as the library holds it */
static void number(bfdev_mpi_t *m, const w *v, unsigned int len, bool plus)
{
    bfdev_mpi_init(m, (bfdev_alloc_t *)&mal);
    if (len) {
        m->value.data = pool[used++];
        live++;
        m->value.capacity = BFDEV_ARRAY_MSIZE > 1 ? CELLS : len > 1 ? len + (len & 1) : 1;
        m->value.index = len;
        for (unsigned int k = 0; k < len; ++k)
            ((w *)m->value.data)[k] = v[k];
    }
    m->plus = plus;
}
/* word `at`, the reference's view: words beyond the top are zero */
static w at(const bfdev_mpi_t *m, unsigned int k)
{
    return k < m->value.index ? ((w *)m->value.data)[k] : 0;
}
static bool canonical(const bfdev_mpi_t *m)
{
    return m->value.index ? ((w *)m->value.data)[m->value.index - 1] != 0 : m->plus;
}
static bool same(const bfdev_mpi_t *m, const w *v, unsigned int len, bool plus)
{
    if (m->value.index != len || m->plus != plus)
        return false;
    for (unsigned int k = 0; k < len; ++k)
        if (((w *)m->value.data)[k] != v[k])
            return false;
    return true;
}

#ifdef DIVISION
# define R 4
#else
# define R 6
#endif
/* words of the reference's numbers */
/* -1, 0, 1 */
static int rcmp(const w *a, const w *b)
{
    for (int k = R; k-- > 0; )
        if (a[k] != b[k])
            return a[k] > b[k] ? 1 : -1;
    return 0;
}
static void radd(w *o, const w *a, const w *b)
{
    u128 c = 0;
    for (int k = 0; k < R; ++k) {
        c += (u128)a[k] + b[k];
        o[k] = (w)c;
        c >>= 64;
    }
}
static void rsub(w *o, const w *a, const w *b)
{
    w c = 0;
    for (int k = 0; k < R; ++k) {
        u128 t = (u128)a[k] - b[k] - c;
        o[k] = (w)t;
        c = (t >> 64) != 0;
    }
}
static bool rzero(const w *a)
{
    for (int k = 0; k < R; ++k)
        if (a[k])
            return false;
    return true;
}

/* the operands of every harness: LA and LB words, signs SA and SB */
#ifndef LA
# define LA 1
#endif
#ifndef LB
# define LB 0
#endif
#ifdef PL
# define SG PL
#endif
#ifndef SG
# define SG 0
#endif
#ifndef AL
# define AL 0
#endif
static w va[R], vb[R];
static bfdev_mpi_t ma, mb, md;
static bool pa = !(SG & 1), pb = !(SG >> 1 & 1);
static bfdev_mpi_t *dest = AL == 0 ? &md : AL == 1 ? &ma : &mb;

static void operands(void)
{
#ifdef ANYSIGN
    pa = vp_bool();
    pb = vp_bool();
#endif
    VP_ASSUME(!LA || va[LA - 1]);
    VP_ASSUME(!LB || vb[LB - 1]);
    if (!LA)
        pa = true;
    if (!LB)
        pb = true;
    number(&ma, va, LA, pa);
    number(&mb, vb, LB, pb);
    if (AL == 0) {
        w junk[2] = { 7, 9 };
        number(&md, junk, SG & 1 ? 2 : 0, true);
    } else
        number(&md, NULL, 0, true);
}
static void finish(void)
{
    bfdev_mpi_release(&ma);
    bfdev_mpi_release(&mb);
    bfdev_mpi_release(&md);
    VP_ASSERT(!live, "memory freed");
    VP_REACH("end");
}
static void kept(void)
{
    VP_ASSERT(dest == &ma || same(&ma, va, LA, pa), "first operand as it was");
    VP_ASSERT(dest == &mb || same(&mb, vb, LB, pb), "second operand as it was");
}
static void is(const bfdev_mpi_t *m, const w *v, bool plus)
{
    for (int k = 0; k < R; ++k)
        VP_ASSERT(at(m, k) == v[k], "value");
    VP_ASSERT(canonical(m), "no leading zeros, zero is positive");
    VP_ASSERT(m->plus == plus || !m->value.index, "sign");
}

/* sum and difference, all words free; AL 3: both operands and the destination are one */
//@ harness addsub property=C28 unwind=10 D=BFDEV_ARRAY_MSIZE:1 matrix=LA:1/3,LB:0/2,SG:0-3,AL:0-2,SUB:0-1 thorough.matrix=LA:0-3,LB:0-3,SG:0-3,AL:0-2,SUB:0-1 timeout=200 bounds=any-numbers-of-up-to-3-words,all-signs,destination-separate-or-either-operand,every-growth-moves-the-memory
#ifdef VP_H_addsub
void addsub(void)
{
    w sum[R], x[R], y[R];
    bool plus, nb;
    int ret;

    for (int k = 0; k < LA; ++k)
        va[k] = vp_u64();
    for (int k = 0; k < LB; ++k)
        vb[k] = vp_u64();
    operands();
    ret = SUB ? bfdev_mpi_sub(dest, &ma, &mb) : bfdev_mpi_add(dest, &ma, &mb);
    VP_ASSERT(!ret, "succeeds");
    nb = SUB ? !pb : pb;
    radd(sum, va, vb);
    rsub(x, va, vb);
    rsub(y, vb, va);
    if (pa == nb)
        is(dest, sum, pa);
    else if (rcmp(va, vb) >= 0)
        is(dest, x, pa);
    else
        is(dest, y, nb);
    kept();
    finish();
}
#endif

/* a number and a single word */
//@ harness addsubi property=C28 unwind=10 D=BFDEV_ARRAY_MSIZE:1 matrix=LA:0-3,SG:0-1,AL:0-1,SUB:0-1 timeout=200 bounds=any-numbers-of-up-to-3-words,any-word
#ifdef VP_H_addsubi
void addsubi(void)
{
    w sum[R], x[R], y[R], imm = vp_u64();
    bool nb = !SUB;

    for (int k = 0; k < LA; ++k)
        va[k] = vp_u64();
    operands();
    vb[0] = imm;
    VP_ASSERT(!(SUB ? bfdev_mpi_subi(dest, &ma, imm) : bfdev_mpi_addi(dest, &ma, imm)), "succeeds");
    radd(sum, va, vb);
    rsub(x, va, vb);
    rsub(y, vb, va);
    if (pa == nb)
        is(dest, sum, pa);
    else if (rcmp(va, vb) >= 0)
        is(dest, x, pa);
    else
        is(dest, y, nb);
    VP_ASSERT(AL || same(&ma, va, LA, pa), "operand as it was");
    finish();
}
#endif

/* all of them one number */
//@ harness self property=C28 unwind=10 D=BFDEV_ARRAY_MSIZE:1 D=ANYSIGN:1 matrix=LA:0-2,OP:0-6 timeout=200 bounds=any-number-of-up-to-2-words
#ifdef VP_H_self
void self(void)
{
    w zero[R] = { 0 }, sum[R];
    bfdev_mpi_t rem;

    for (int k = 0; k < LA; ++k)
        va[k] = vp_u64();
    operands();
    radd(sum, va, va);
    switch (OP) {
        case 0: VP_ASSERT(!bfdev_mpi_add(&ma, &ma, &ma), "succeeds"); is(&ma, sum, pa); break;
        case 1: VP_ASSERT(!bfdev_mpi_sub(&ma, &ma, &ma), "succeeds"); is(&ma, zero, true); break;
        case 2: VP_ASSERT(!bfdev_mpi_and(&ma, &ma, &ma), "succeeds"); is(&ma, va, true); break;
        case 3: VP_ASSERT(!bfdev_mpi_or(&ma, &ma, &ma), "succeeds"); is(&ma, va, true); break;
        case 4: VP_ASSERT(!bfdev_mpi_xor(&ma, &ma, &ma), "succeeds"); is(&ma, zero, true); break;
        case 5: VP_ASSERT(!bfdev_mpi_set(&ma, &ma), "succeeds"); is(&ma, va, pa); break;
        case 6: VP_ASSERT(!bfdev_mpi_cmp(&ma, &ma), "equal"); is(&ma, va, pa); break;
    }
    finish();
}
#endif

/* and, or, exclusive or of the magnitudes */
//@ harness bitop property=C28 unwind=10 D=BFDEV_ARRAY_MSIZE:1 D=ANYSIGN:1 matrix=LA:0/1/3,LB:0-2,AL:0-2,OP:0-2 thorough.matrix=LA:0-3,LB:0-3,AL:0-2,OP:0-2 timeout=200 bounds=any-numbers-of-up-to-3-words
#ifdef VP_H_bitop
void bitop(void)
{
    w res[R];
    int ret;

    for (int k = 0; k < LA; ++k)
        va[k] = vp_u64();
    for (int k = 0; k < LB; ++k)
        vb[k] = vp_u64();
    operands();
    ret = OP == 0 ? bfdev_mpi_and(dest, &ma, &mb) : OP == 1 ? bfdev_mpi_or(dest, &ma, &mb) : bfdev_mpi_xor(dest, &ma, &mb);
    VP_ASSERT(!ret, "succeeds");
    for (int k = 0; k < R; ++k)
        res[k] = OP == 0 ? va[k] & vb[k] : OP == 1 ? va[k] | vb[k] : va[k] ^ vb[k];
    is(dest, res, true);
    kept();
    finish();
}
#endif

//@ harness shift property=C28 unwind=10 D=BFDEV_ARRAY_MSIZE:1 D=ANYSIGN:1 matrix=LA:0-2,SH:0/1/63/64/65/128,AL:0-1,RIGHT:0-1 thorough.matrix=LA:0-3,SH:0/1/31/63/64/65/127/128/130/192,AL:0-1,RIGHT:0-1 timeout=200 bounds=any-number-of-up-to-3-words,10-distances-from-0-to-192
#ifdef VP_H_shift
void shift(void)
{
    w res[R] = { 0 };
    int up = SH / 64, bit = SH % 64;

    for (int k = 0; k < LA; ++k)
        va[k] = vp_u64();
    operands();
    VP_ASSERT(!(RIGHT ? bfdev_mpi_shri(dest, &ma, SH) : bfdev_mpi_shli(dest, &ma, SH)), "succeeds");
    for (int k = 0; k < R; ++k) {
        int from = RIGHT ? k + up : k - up, next = RIGHT ? from + 1 : from - 1;
        w v = from >= 0 && from < LA ? va[from] : 0, n = next >= 0 && next < LA ? va[next] : 0;
        res[k] = !bit ? v : RIGHT ? (v >> bit) | (n << (64 - bit)) : (v << bit) | (n >> (64 - bit));
    }
    is(dest, res, pa);
    VP_ASSERT(AL || same(&ma, va, LA, pa), "operand as it was");
    finish();
}
#endif

//@ harness cmp property=C28 unwind=10 D=ANYSIGN:1 matrix=LA:0-3,LB:0-3 timeout=200 bounds=any-numbers-of-up-to-3-words,any-word
#ifdef VP_H_cmp
void cmp(void)
{
    w imm = vp_u64(), vi[R] = { imm };
    int got, want;

    for (int k = 0; k < LA; ++k)
        va[k] = vp_u64();
    for (int k = 0; k < LB; ++k)
        vb[k] = vp_u64();
    operands();
    got = bfdev_mpi_cmp(&ma, &mb);
    want = pa != pb ? (pa ? 1 : -1) : pa ? rcmp(va, vb) : rcmp(vb, va);
    VP_ASSERT((got > 0) == (want > 0) && (got < 0) == (want < 0), "order of two numbers");
    got = bfdev_mpi_cmpi(&ma, imm);
    want = !pa ? -1 : rcmp(va, vi);
    VP_ASSERT((got > 0) == (want > 0) && (got < 0) == (want < 0), "order of a number and a word");
    kept();
    finish();
}
#endif

/* single bits, assignments, import and export */
//@ harness maccess property=C28 unwind=10 D=BFDEV_ARRAY_MSIZE:1 D=ANYSIGN:1 matrix=LA:0-2,BIT:0/63/64/191,OP:0-5 thorough.matrix=LA:0-3,BIT:0/5/63/64/100/128/191,OP:0-5 timeout=200 bounds=any-number-of-up-to-2-words,7-bit-positions
#ifdef VP_H_maccess
void maccess(void)
{
    w res[R] = { 0 }, imm = vp_u64();
    bool sign = 0;
    const w *data;

    for (int k = 0; k < LA; ++k)
        va[k] = vp_u64();
    operands();
    for (int k = 0; k < LA; ++k)
        res[k] = va[k];
    switch (OP) {
        case 0:
            VP_ASSERT(bfdev_mpi_btesti(&ma, BIT) == (va[BIT / 64] >> BIT % 64 & 1), "bit");
            is(&ma, va, pa);
            break;
        case 1:
            VP_ASSERT(!bfdev_mpi_bseti(&ma, BIT), "succeeds");
            res[BIT / 64] |= (w)1 << BIT % 64;
            is(&ma, res, pa);
            break;
        case 2:
            VP_ASSERT(!bfdev_mpi_bclri(&ma, BIT), "succeeds");
            res[BIT / 64] &= ~((w)1 << BIT % 64);
            is(&ma, res, pa);
            break;
        case 3:
            VP_ASSERT(!bfdev_mpi_seti(&ma, imm), "succeeds");
            for (int k = 0; k < R; ++k)
                res[k] = k ? 0 : imm;
            is(&ma, res, true);
            break;
        case 4:
            VP_ASSERT(!bfdev_mpi_set(&md, &ma), "succeeds");
            is(&md, va, pa);
            VP_ASSERT(same(&ma, va, LA, pa), "source as it was");
            data = bfdev_mpi_data(&md, &sign);
            VP_ASSERT(sign == pa && data[0] == (LA ? va[0] : 0), "exported");
            VP_ASSERT(bfdev_mpi_length(&md) == LA && bfdev_mpi_size(&md) == LA * 8, "length");
            break;
        case 5:
            /* with any number of leading zeros */
            pb = vp_bool();
            for (int k = 0; k < 3; ++k)
                res[k] = vp_u64();
            VP_ASSERT(!bfdev_mpi_import(&ma, res, BIT / 64 + 1, pb), "succeeds");
            for (int k = BIT / 64 + 1; k < R; ++k)
                res[k] = 0;
            is(&ma, res, pb);
            break;
    }
    finish();
}
#endif

/* Words for products and quotients: few free bits, the rest fixed. */
static w word(int shape, w v)
{
    switch (shape) {
        case 0: return v;
        case 1: return ~(w)0 - v;
        case 2: return (v << 62) | 1;
        case 3: return (v << 62) | (~(w)0 >> 2);
        case 4: return ((w)1 << 63) + v;
        case 5: return ((w)1 << 32) - v;
        default: return 0x123456789abcdef1ull * (v + 1);
    }
}
static w few(int shape)
{
    return word(shape, vp_u64() & 3);
}
/* product by 32 bit digits */
static void rmul(w *o, const w *a, int la, const w *b, int lb)
{
    for (int k = 0; k < R; ++k)
        o[k] = 0;
    for (int i = 0; i < la; ++i) {
        w carry = 0;
        for (int j = 0; j <= lb && i + j < R; ++j) {
            w h = 0, l = 0;
            if (j < lb) {
                u128 p = (u128)a[i] * b[j];
                h = p >> 64;
                l = (w)p;
            }
            u128 t = (u128)o[i + j] + l + carry;
            o[i + j] = (w)t;
            carry = h + (w)(t >> 64);
        }
    }
}

/* PA2.. pick the shapes of the words */
//@ harness mul property=C28 unwind=10 D=BFDEV_ARRAY_MSIZE:1 matrix=LA:1-2,LB:1-2,AL:0-2,S1:0/6,S2:1/4 thorough.matrix=LA:0-3,LB:0-2,AL:0-2,S1:0-6,S2:0-6 D=ANYSIGN:1 timeout=200 thorough.timeout=1200 bounds=numbers-of-up-to-2(thorough:3)-words-with-2-free-bits-each-around-fixed-patterns
#ifdef VP_H_mul
void mul(void)
{
    w res[R];
    for (int k = 0; k < LA; ++k)
        va[k] = few((S1 + 3 * k) % 7);
    for (int k = 0; k < LB; ++k)
        vb[k] = few((S2 + k) % 7);
    operands();
    VP_ASSERT(!bfdev_mpi_mul(dest, &ma, &mb), "succeeds");
    rmul(res, va, LA, vb, LB);
    is(dest, res, pa == pb);
    kept();
    finish();
}
#endif

//@ harness muli property=C28 unwind=10 D=BFDEV_ARRAY_MSIZE:1 matrix=LA:1/3,AL:0-1,S1:1/6,S2:1/4 thorough.matrix=LA:0-3,AL:0-1,S1:0/1/6,S2:0/1/4 D=ANYSIGN:1 timeout=200 bounds=numbers-of-up-to-3-words-with-2-free-bits-each-around-fixed-patterns
#ifdef VP_H_muli
void muli(void)
{
    w res[R];
    for (int k = 0; k < LA; ++k)
        va[k] = few((S1 + 3 * k) % 7);
    operands();
    vb[0] = few(S2);
    VP_ASSERT(!bfdev_mpi_muli(dest, &ma, vb[0]), "succeeds");
    rmul(res, va, LA, vb, 1);
    is(dest, res, pa);
    VP_ASSERT(AL || same(&ma, va, LA, pa), "operand as it was");
    finish();
}
#endif

/*
 * Division: a == q * b + r, |r| < |b|, r has the sign of a. PL: where quotient and remainder go; the signs go along.
 * OP 0: div, 1: mod, 2: divi, 3: modi
 */
//@ harness divrem property=C28 unwind=10 unwindset=vp_udiv.0:66 D=BFDEV_ARRAY_MSIZE:8 D=DIVISION:1 matrix=LA:3,LB:0-1,PL:0-6,S1:1,D1:2,OP:0 thorough.matrix=LA:0-3,LB:0-1,PL:0-6,S1:0-6,D1:0-3,OP:0 timeout=200 thorough.timeout=1200 bounds=dividends-of-up-to-3-words-with-two-free-bits-in-the-lowest-around-fixed-patterns,divisors-of-one-word
//@ harness divrem2 entry=divrem property=C28 unwind=10 unwindset=vp_udiv.0:66 D=BFDEV_ARRAY_MSIZE:8 D=DIVISION:1 matrix=LA:2-3,LB:2,PL:0-6,S1:1,D1:2,OP:0 thorough.matrix=LA:0-3,LB:2,PL:0-6,S1:0-6,D1:0-3,OP:0 timeout=300 thorough.timeout=1200 bounds=dividends-of-up-to-3-words-with-two-free-bits-in-the-lowest-around-fixed-patterns,divisors-of-2-words
//@ harness modrem entry=divrem property=C28 unwind=10 unwindset=vp_udiv.0:66 D=BFDEV_ARRAY_MSIZE:8 D=DIVISION:1 matrix=LA:2,LB:1,PL:0-1,S1:1,D1:2,OP:1 thorough.matrix=LA:0-3,LB:0-1,PL:0/1/2,S1:0-6,D1:0-3,OP:1 timeout=300 thorough.timeout=1200 bounds=as-for-the-division
//@ harness modrem2 entry=divrem property=C28 unwind=10 object_bits=11 unwindset=divrem.7:18 unwindset=vp_udiv.0:66 D=BFDEV_ARRAY_MSIZE:8 D=DIVISION:1 matrix=LA:2,LB:2,PL:0-1,S1:1,D1:2,OP:1 timeout=300 bounds=as-for-the-division
//@ harness divremi entry=divrem property=C28 unwind=10 unwindset=vp_udiv.0:66 D=BFDEV_ARRAY_MSIZE:8 D=DIVISION:1 matrix=LA:0/3,LB:1,PL:0/1/3,S1:1,D1:2,OP:2-3 thorough.matrix=LA:0-3,LB:0-1,PL:0/1/3,S1:0-6,D1:0-3,OP:2-3 timeout=200 thorough.timeout=1200 bounds=dividends-of-up-to-3-words-with-two-free-bits-in-the-lowest-around-fixed-patterns,a-word-as-divisor
#ifdef DIVISION
# define QA (PL == 3 || PL == 5 ? 1 : PL == 4 || PL == 6 ? 2 : 0)
# define RA (PL == 1 || PL == 6 ? 1 : PL == 2 || PL == 5 ? 2 : 0)
static const w divs[4][2] = { { 3, 0x8000000000000000ull }, { 0xffffffffffffffffull, 1 }, { 0, 0x123456789abcdef1ull }, { 1, 0xffffffffffffffffull } };
void divrem(void)
{
    static bfdev_mpi_t mq, mr;
    bfdev_mpi_t *q = QA == 0 ? &mq : QA == 1 ? &ma : &mb, *r = RA == 0 ? &mr : RA == 1 ? &ma : &mb;
    w qv[R] = { 0 }, rv[R], res[R], sum[R];
    bool div = OP == 0 || OP == 2;
    int ret;

    if (OP >= 2)
        pb = true;
    /* free bits in the lowest word: with the rest known, so are the lengths of everything on the way */
    for (int k = 0; k < LA; ++k)
        va[k] = k ? word((S1 + 3 * k) % 7, 1) : few(S1 % 7);
    for (int k = 0; k < LB; ++k)
        vb[k] = LB == 1 ? divs[D1][D1 & 1 ? 0 : 1] : divs[D1][k];
    operands();
    number(&mq, NULL, 0, true);
    number(&mr, NULL, 0, true);
    switch (OP) {
        case 0: ret = bfdev_mpi_div(q, r, &ma, &mb); break;
        case 1: ret = bfdev_mpi_mod(r, &ma, &mb); break;
        case 2: ret = bfdev_mpi_divi(q, r, &ma, LB ? vb[0] : 0); break;
        case 3: ret = bfdev_mpi_modi(r, &ma, LB ? vb[0] : 0); break;
    }
    if (!LB) {
        VP_ASSERT(ret < 0, "division by zero is refused");
        VP_ASSERT(same(&ma, va, LA, pa) && same(&mb, vb, 0, true), "and changes nothing");
    } else {
        VP_ASSERT(!ret, "succeeds");
        for (int k = 0; k < R; ++k)
            rv[k] = at(r, k);
        VP_ASSERT(canonical(r), "no leading zeros, zero is positive");
        VP_ASSERT(rcmp(rv, vb) < 0, "remainder below the divisor");
        VP_ASSERT(r->plus == pa || !r->value.index, "sign of the remainder");
        if (div) {
            VP_ASSERT(canonical(q), "no leading zeros, zero is positive");
            VP_ASSERT(q->value.index <= (LA < LB ? 0 : LA - LB + 1), "size of the quotient");
            for (int k = 0; k < LA; ++k)
                qv[k] = at(q, k);
            VP_ASSERT(q->plus == (pa == pb) || !q->value.index, "sign of the quotient");
            rmul(res, qv, LA, vb, LB);
            radd(sum, res, rv);
            for (int k = 0; k < R; ++k)
                VP_ASSERT(sum[k] == va[k], "quotient times divisor plus remainder");
        } else {
            if (LB == 2) {
                /* the quotient is below 16 here */
                w rem[R];
                for (int k = 0; k < R; ++k)
                    rem[k] = va[k];
                for (int i = 0; i < 16; ++i)
                    if (rcmp(rem, vb) >= 0)
                        rsub(rem, rem, vb);
                for (int k = 0; k < R; ++k)
                    VP_ASSERT(rv[k] == rem[k], "the remainder");
            } else {
            /* the remainder the division leaves, which is checked on its own */
            bfdev_mpi_t na, nb, nq, nr;
            number(&na, va, LA, pa);
            number(&nb, vb, LB, pb);
            number(&nq, NULL, 0, true);
            number(&nr, NULL, 0, true);
            VP_ASSERT(!bfdev_mpi_div(&nq, &nr, &na, &nb), "succeeds");
            for (int k = 0; k < R; ++k)
                VP_ASSERT(rv[k] == at(&nr, k), "the remainder");
            bfdev_mpi_release(&na);
            bfdev_mpi_release(&nb);
            bfdev_mpi_release(&nq);
            bfdev_mpi_release(&nr);
            }
        }
    }
    VP_ASSERT((div && QA == 1) || RA == 1 || same(&ma, va, LA, pa), "dividend as it was");
    VP_ASSERT((div && QA == 2) || RA == 2 || same(&mb, vb, LB, pb), "divisor as it was");
    bfdev_mpi_release(&mq);
    bfdev_mpi_release(&mr);
    finish();
}
#endif
