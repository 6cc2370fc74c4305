//@ src src/popcount.c src/bitrev.c src/bcd.c
#include "vp.h"
#include <bfdev/bitops.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/bits.h>
#include <bfdev/bitfield.h>
#include <bfdev/bitflags.h>
#include <bfdev/log2.h>
#include <bfdev/align.h>
#include <bfdev/math.h>
#include <bfdev/minmax.h>
#include <bfdev/popcount.h>
#include <bfdev/bitrev.h>
#include <bfdev/bcd.h>
#include <bfdev/swab.h>
#include <bfdev/byteorder.h>
#include <bfdev/unaligned.h>
#include <bfdev/overflow.h>
#include <bfdev/uplower.h>
#include <bfdev/circle.h>
#include <bfdev/hash.h>
#include <bfdev/limits.h>

/* specifications, written as loops over single bits */
static unsigned int s_first(uint64_t v) { unsigned int i; for (i = 0; i < 64; ++i) if ((v >> i) & 1) return i; return 64; }
static unsigned int s_last(uint64_t v) { unsigned int i; for (i = 64; i; --i) if ((v >> (i - 1)) & 1) return i - 1; return 64; }
static unsigned int s_count(uint64_t v, unsigned int w) { unsigned int i, n = 0; for (i = 0; i < w; ++i) n += (v >> i) & 1; return n; }

//@ property C02
//@ harness bitscan unwind=66 timeout=200 bounds=all-64-bit-words
#ifdef VP_H_bitscan
void bitscan(void)
{
    uint64_t v = vp_u64();
    unsigned int f = s_first(v), l = s_last(v);
    unsigned int zf = s_first(~v), zl = s_last(~v);

    VP_ASSERT(bfdev_ffs(v) == (v ? f + 1 : 0), "ffs: position of the lowest set bit, counted from 1, 0 if none");
    VP_ASSERT(bfdev_fls(v) == (v ? l + 1 : 0), "fls: position of the highest set bit, counted from 1, 0 if none");
    VP_ASSERT(bfdev_ffz(v) == (~v ? zf + 1 : 0), "ffz: lowest clear bit");
    VP_ASSERT(bfdev_flz(v) == (~v ? zl + 1 : 0), "flz: highest clear bit");
    VP_ASSERT(bfdev_ffs64(v) == bfdev_ffs(v) && bfdev_fls64(v) == bfdev_fls(v), "64-bit forms agree");
    VP_ASSERT(bfdev_ffz64(v) == bfdev_ffz(v) && bfdev_flz64(v) == bfdev_flz(v), "64-bit forms agree");
    if (v) {
        VP_ASSERT(bfdev_ffsuf(v) == f && bfdev_ffsuf64(v) == f, "ffsuf: index of the lowest set bit");
        VP_ASSERT(bfdev_flsuf(v) == l && bfdev_flsuf64(v) == l, "flsuf: index of the highest set bit");
        VP_ASSERT(bfdev_ctz(v) == f && bfdev_ctz64(v) == f, "ctz: trailing zeros");
        VP_ASSERT(bfdev_clz(v) == 63 - l && bfdev_clz64(v) == 63 - l, "clz: leading zeros");
    }
    if (~v) {
        VP_ASSERT(bfdev_ffzuf(v) == zf && bfdev_ffzuf64(v) == zf, "ffzuf: index of the lowest clear bit");
        VP_ASSERT(bfdev_flzuf(v) == zl && bfdev_flzuf64(v) == zl, "flzuf: index of the highest clear bit");
    }
    VP_REACH("end");
}
#endif

/* one step of an induction over the rank: dropping the outermost wanted bit takes one off the rank;
   rank zero is the outermost wanted bit, none is wanted in an empty word */
//@ harness bitnth unwind=11 timeout=300 matrix=WHICH:0-3,SC:0-1 bounds=all-64-bit-words-with-rank<=3,all-ranks-on-words-with-8-candidates-anywhere
//@ harness bitnth_ones entry=bitnth unwind=67 timeout=300 D=SC:2 matrix=WHICH:0-3 bounds=all-ranks-on-the-all-ones-word
#if defined(VP_H_bitnth) || defined(VP_H_bitnth_ones)
#if WHICH == 0
# define NTH(v, nr) bfdev_ffns(v, nr)
#elif WHICH == 1
# define NTH(v, nr) bfdev_flns(v, nr)
#elif WHICH == 2
# define NTH(v, nr) bfdev_ffnz(~(v), nr)
#else
# define NTH(v, nr) bfdev_flnz(~(v), nr)
#endif
void bitnth(void)
{
#if SC == 0
    uint64_t v = vp_u64(), out;
    unsigned int nr = vp_uint(0, 3), b;
#elif SC == 1
    uint64_t v = (uint64_t)vp_u8() << vp_range(0, 63), out;
    unsigned int nr = vp_u32(), b;
#else
    uint64_t v = ~0UL;
    unsigned int nr = vp_u32(), b;
    b = NTH(v, nr);
    VP_ASSERT(nr > 63 ? b >= 64 : b == ((WHICH & 1) ? 63 - nr : nr), "rank in the all-ones word");
#endif

#if SC != 2
    b = NTH(v, nr);
    if (!v)
        VP_ASSERT(b >= 64, "no such bit in an empty word");
    else {
        out = (WHICH & 1) ? 63 - __builtin_clzl(v) : __builtin_ctzl(v);
        if (!nr)
            VP_ASSERT(b == out, "rank zero is the outermost such bit");
        else
            VP_ASSERT(b == NTH(v & ~(1UL << out), nr - 1), "rank nr is rank nr-1 of the word without its outermost such bit");
    }
#endif
    VP_REACH("end");
}
#endif

//@ harness bitops unwind=66 timeout=200 bounds=all-states-of-two-words,every-bit-index
#ifdef VP_H_bitops
#define CHK(d, expr, ret, A)                                            \
    do {                                                                \
        unsigned long w[2] = { a, b }, e[2] = { a, b };                 \
        bool r = 0, old = (e[bit / 64] >> (bit % 64)) & 1;              \
        unsigned long m = 1UL << (bit % 64);                            \
        unsigned long *p = &e[bit / 64];                                \
        (void)r; (void)m; (void)p; (void)old;                           \
        expr;                                                           \
        A;                                                              \
        VP_ASSERT(w[0] == e[0] && w[1] == e[1], d ": exactly the named bit changes");     \
        if (ret)                                                        \
            VP_ASSERT(r == old, d ": previous value returned");         \
    } while (0)
BFDEV_BITFLAGS(plain, 5)
struct fl { int x; unsigned long flags; };
BFDEV_BITFLAGS_STRUCT(infl, struct fl, flags, 63)
void bitops(void)
{
    unsigned long a = vp_u64(), b = vp_u64();
    unsigned int bit = vp_uint(0, 127);
    bool val = vp_bool();
    struct fl fl = { 0, a };

    CHK("set", bfdev_bit_set(w, bit), 0, *p |= m);
    CHK("clr", bfdev_bit_clr(w, bit), 0, *p &= ~m);
    CHK("flip", bfdev_bit_flip(w, bit), 0, *p ^= m);
    CHK("change", bfdev_bit_change(w, bit, val), 0, *p = val ? *p | m : *p & ~m);
    CHK("test", r = bfdev_bit_test(w, bit), 1, (void)0);
    CHK("test_clr", r = bfdev_bit_test_clr(w, bit), 1, *p &= ~m);
    CHK("test_set", r = bfdev_bit_test_set(w, bit), 1, *p |= m);
    CHK("test_flip", r = bfdev_bit_test_flip(w, bit), 1, *p ^= m);
    CHK("test_change", r = bfdev_bit_test_change(w, bit, val), 1, *p = val ? *p | m : *p & ~m);
    CHK("atomic_set", bfdev_bit_atomic_set(w, bit), 0, *p |= m);
    CHK("atomic_clr", bfdev_bit_atomic_clr(w, bit), 0, *p &= ~m);
    CHK("atomic_flip", bfdev_bit_atomic_flip(w, bit), 0, *p ^= m);
    CHK("atomic_change", bfdev_bit_atomic_change(w, bit, val), 0, *p = val ? *p | m : *p & ~m);
    CHK("atomic_test", r = bfdev_bit_atomic_test(w, bit), 1, (void)0);
    CHK("atomic_test_clr", r = bfdev_bit_atomic_test_clr(w, bit), 1, *p &= ~m);
    CHK("atomic_test_set", r = bfdev_bit_atomic_test_set(w, bit), 1, *p |= m);
    CHK("atomic_test_flip", r = bfdev_bit_atomic_test_flip(w, bit), 1, *p ^= m);
    CHK("atomic_test_change", r = bfdev_bit_atomic_test_change(w, bit, val), 1, *p = val ? *p | m : *p & ~m);
    /* little and big endian bit order address bytes as an external format does */
    CHK("set_le", bfdev_bit_set_le(w, bit), 0, ((uint8_t *)e)[bit / 8] |= 1 << (bit % 8));
    CHK("clr_le", bfdev_bit_clr_le(w, bit), 0, ((uint8_t *)e)[bit / 8] &= ~(1 << (bit % 8)));
    CHK("flip_le", bfdev_bit_flip_le(w, bit), 0, ((uint8_t *)e)[bit / 8] ^= 1 << (bit % 8));
    CHK("set_be", bfdev_bit_set_be(w, bit), 0, ((uint8_t *)e)[(bit / 64) * 8 + 7 - bit % 64 / 8] |= 1 << (bit % 8));
    CHK("clr_be", bfdev_bit_clr_be(w, bit), 0, ((uint8_t *)e)[(bit / 64) * 8 + 7 - bit % 64 / 8] &= ~(1 << (bit % 8)));
    /* generated flag accessors */
    VP_ASSERT(plain_test(&a) == ((a >> 5) & 1), "flag test");
    infl_set(&fl);
    VP_ASSERT(fl.flags == (a | (1UL << 63)) && infl_test(&fl), "flag set");
    VP_ASSERT(infl_test_clr(&fl) && fl.flags == (a & ~(1UL << 63)), "flag test and clear");
    VP_ASSERT(!infl_test_set(&fl) && infl_test_flip(&fl) && !infl_test(&fl), "flag test and set, flip");
    infl_flip(&fl);
    infl_clr(&fl);
    VP_ASSERT(fl.flags == (a & ~(1UL << 63)), "flag clear");
    VP_REACH("end");
}
#endif

//@ harness rotate unwind=66 timeout=120 bounds=all-values,all-32-bit-shift-counts
#ifdef VP_H_rotate
void rotate(void)
{
    uint64_t v = vp_u64();
    unsigned int s = vp_u32(), i = vp_uint(0, 63);

#define ROT(w) do { \
    unsigned int k = i % w; \
    VP_ASSERT(((bfdev_rol##w((uint##w##_t)v, s) >> ((k + s) % w)) & 1) == (((uint##w##_t)v >> k) & 1), "rol" #w); \
    VP_ASSERT(((bfdev_ror##w((uint##w##_t)v, (k + s) % w) >> 0) & 1) == (((uint##w##_t)v >> ((k + s) % w)) & 1), "ror" #w); \
    VP_ASSERT(bfdev_ror##w(bfdev_rol##w((uint##w##_t)v, s), s) == (uint##w##_t)v, "ror" #w " undoes rol" #w); \
} while (0)
    ROT(8); ROT(16); ROT(32); ROT(64);
    VP_REACH("end");
}
#endif

//@ harness log2 unwind=66 timeout=200 bounds=all-64-bit-values
#ifdef VP_H_log2
void log2(void)
{
    uint64_t v = vp_u64();
    uint32_t w = vp_u32();
    unsigned int l = s_last(v), lw = s_last(w);
    unsigned long r;

    VP_ASSERT(bfdev_ilog2(v) == (v < 2 ? 0 : l), "ilog2 of a 64-bit value");
    VP_ASSERT(bfdev_ilog2(w) == (w < 2 ? 0 : lw), "ilog2 of a 32-bit value");
    VP_ASSERT(bfdev_ilog2_dynamic(v) == (v < 2 ? 0 : l), "ilog2_dynamic");
    VP_ASSERT(bfdev_ilog2_64_dynamic(v) == (v < 2 ? 0 : l), "ilog2_64_dynamic");
    VP_ASSERT(bfdev_pow2_check(v) == (s_count(v, 64) == 1), "power of two test");
    if (v <= 1UL << 63) {
        r = bfdev_pow2_roundup(v);
        if (v)
            VP_ASSERT(s_count(r, 64) == 1 && r >= v && (r == 1 || r / 2 < v), "smallest power of two not below");
    }
    r = bfdev_pow2_rounddown(v);
    if (v)
        VP_ASSERT(s_count(r, 64) == 1 && r <= v && v - r < r, "largest power of two not above");
    VP_REACH("end");
}
#endif

//@ property C03
//@ harness align unwind=4 timeout=200 bounds=all-values,every-power-of-two-alignment
#ifdef VP_H_align
void align(void)
{
    unsigned long v = vp_u64(), a = 1UL << vp_uint(0, 63), x, hi, lo;
    unsigned long n = vp_u64(), d = vp_u64();

    VP_ASSERT(bfdev_align_check(v, a) == (v % a == 0), "alignment test");
    lo = bfdev_align_low(v, a);
    VP_ASSERT(lo % a == 0 && lo <= v && v - lo < a, "aligned down");
    VP_ASSERT(bfdev_round_down(v, a) == lo, "round down");
    x = v; bfdev_align_low_adj(x, a);
    VP_ASSERT(x == lo, "aligned down in place");
    if (v <= -a) {
        hi = bfdev_align_high(v, a);
        VP_ASSERT(hi % a == 0 && hi >= v && hi - v < a, "aligned up");
        x = v; bfdev_align_high_adj(x, a);
        VP_ASSERT(x == hi, "aligned up in place");
        VP_ASSERT(bfdev_round_up(v, a) == hi, "round up");
    }
    VP_ASSERT(bfdev_align_ptr_check((void *)v, a) == (v % a == 0), "pointer alignment test");
    VP_ASSERT((unsigned long)bfdev_align_ptr_low((char *)v, a) == lo, "pointer aligned down");
    VP_REACH("end");
}
#endif

//@ harness divround unwind=4 timeout=300 solver=z3 tiers=thorough bounds=all-16-bit-values
//@ harness divround_small entry=divround unwind=4 timeout=200 D=DV:uint8_t,DS:int8_t bounds=all-8-bit-values-in-64-bit-arithmetic
#if defined(VP_H_divround) || defined(VP_H_divround_small)
#ifndef DV
# define DV uint16_t
# define DS int16_t
#endif
void divround(void)
{
    unsigned long n = (DV)vp_u16(), d = (DV)vp_u16(), q, r;
    long sn = (DS)vp_u16(), sd = (DS)vp_u16(), sq, e, ae, ad;

    VP_ASSUME(d && sd);
    q = BFDEV_DIV_ROUND_UP(n, d);
    VP_ASSERT(q * d >= n && (!q || (q - 1) * d < n), "division rounded up");
    q = BFDEV_DIV_ROUND_CLOSEST(n, d);
    r = q * d > n ? q * d - n : n - q * d;
    VP_ASSERT(2 * r <= d, "division rounded to the closest, unsigned");
    sq = BFDEV_DIV_ROUND_CLOSEST(sn, sd);
    e = sq * sd - sn;
    ae = e < 0 ? -e : e;
    ad = sd < 0 ? -sd : sd;
    VP_ASSERT(2 * ae <= ad, "division rounded to the closest, signed");
    VP_REACH("end");
}
#endif

//@ harness minmax unwind=4 timeout=100 bounds=all-64-bit-values
#ifdef VP_H_minmax
void minmax(void)
{
    long a = vp_u64(), b = vp_u64(), v = vp_u64(), x;
    unsigned long ua = a, ub = b;
    unsigned long head = vp_u64(), tail = vp_u64(), size = 1UL << vp_uint(0, 62), cnt, sp, c2;

    VP_ASSERT(bfdev_min(a, b) == (a < b ? a : b) && bfdev_max(a, b) == (a < b ? b : a), "signed min and max");
    VP_ASSERT(bfdev_min(ua, ub) == (ua < ub ? ua : ub) && bfdev_max(ua, ub) == (ua < ub ? ub : ua), "unsigned min and max");
    if (a <= b) {
        x = bfdev_clamp(v, a, b);
        VP_ASSERT(x >= a && x <= b && (v < a || v > b || x == v) && (v >= a || x == a) && (v <= b || x == b), "clamp");
        x = v; bfdev_clamp_adj(x, a, b);
        VP_ASSERT(x == bfdev_clamp(v, a, b), "clamp in place");
    }
    x = v; bfdev_min_adj(x, a);
    VP_ASSERT(x == (v < a ? v : a), "min in place");
    x = v; bfdev_max_adj(x, a);
    VP_ASSERT(x == (v > a ? v : a), "max in place");
    VP_ASSERT(bfdev_upper_32_bits(ua) == ua >> 32 && bfdev_lower_32_bits(ua) == (uint32_t)ua, "halves of 64");
    VP_ASSERT(bfdev_upper_16_bits((uint32_t)ua) == ((uint32_t)ua) >> 16 && bfdev_lower_16_bits(ua) == (uint16_t)ua, "halves of 32");
    VP_REACH("end");
}
#endif

//@ harness circle unwind=4 timeout=200 bounds=all-indices,every-power-of-two-size<=2^62
#ifdef VP_H_circle
void circle(void)
{
    unsigned long size = 1UL << vp_uint(1, 62), head = vp_u64(), tail = vp_u64(), cnt, sp, ce, se;

    VP_ASSUME(head < size && tail < size);
    cnt = BFDEV_CIRCLE_CNT(head, tail, size);
    sp = BFDEV_CIRCLE_SPACE(head, tail, size);
    VP_ASSERT(cnt == (head >= tail ? head - tail : size - tail + head), "elements held");
    VP_ASSERT(cnt + sp == size - 1, "one slot stays free");
    ce = BFDEV_CIRCLE_CNT_END(head, tail, size);
    VP_ASSERT(ce <= cnt && tail + ce <= size && (ce == cnt || tail + ce == size), "elements up to the buffer end");
    se = BFDEV_CIRCLE_SPACE_END(head, tail, size);
    VP_ASSERT(se <= sp && head + se <= size && (se == sp || head + se == size), "space up to the buffer end");
    VP_REACH("end");
}
#endif

//@ harness fields unwind=66 timeout=100 bounds=every-contiguous-mask,all-values
#ifdef VP_H_fields
void fields(void)
{
    unsigned int lo = vp_uint(0, 63), hi = vp_uint(0, 63);
    unsigned long v = vp_u64(), reg = vp_u64(), mask = 0, k;
    unsigned int i, n = vp_uint(1, 64), m = vp_uint(0, 63);

    VP_ASSUME(lo <= hi);
    for (i = 0; i < 64; ++i)
        if (i >= lo && i <= hi)
            mask |= 1UL << i;
    VP_ASSERT(BFDEV_BIT_RANGE(hi, lo) == mask && BFDEV_BIT_RANGE_ULL(hi, lo) == mask, "bit range mask");
    VP_ASSERT(BFDEV_FIELD_GET(mask, reg) == (reg & mask) >> lo, "field read");
    k = BFDEV_FIELD_PREP(mask, v);
    VP_ASSERT((k & ~mask) == 0 && k == ((v << lo) & mask), "field placed inside its mask");
    VP_ASSERT(BFDEV_FIELD_MAX(mask) == mask >> lo, "largest field value");
    if (BFDEV_FIELD_FIT(mask, v) && v <= (ULONG_MAX >> lo))
        VP_ASSERT(BFDEV_FIELD_GET(mask, BFDEV_FIELD_PREP(mask, v)) == v, "a value that fits survives");
    VP_ASSERT(BFDEV_BIT_LOW_MASK(n) == (n == 64 ? ULONG_MAX : (1UL << n) - 1), "low mask of n bits");
    VP_ASSERT(BFDEV_BIT_HIGH_MASK(m) == ~((1UL << m) - 1), "high mask from bit m");
    VP_REACH("end");
}
#endif

//@ harness overflow unwind=4 timeout=200 bounds=all-32-bit-operands-of-all-types
#ifdef VP_H_overflow
void overflow(void)
{
    int32_t a = vp_u32(), b = vp_u32(), d;
    uint32_t ua = a, ub = b, ud;
    int64_t t;
    uint64_t la = vp_u64(), lb = vp_u64(), ld;

    VP_ASSERT(bfdev_overflow_check_add(a, b, &d) == ((int64_t)a + b != (int32_t)((int64_t)a + b)) && d == (int32_t)((int64_t)a + b), "signed add");
    VP_ASSERT(bfdev_overflow_check_sub(a, b, &d) == ((int64_t)a - b != (int32_t)((int64_t)a - b)) && d == (int32_t)((int64_t)a - b), "signed sub");
    VP_ASSERT(bfdev_overflow_check_add(ua, ub, &ud) == ((uint64_t)ua + ub > UINT32_MAX) && ud == (uint32_t)(ua + ub), "unsigned add");
    VP_ASSERT(bfdev_overflow_check_sub(ua, ub, &ud) == (ua < ub) && ud == (uint32_t)(ua - ub), "unsigned sub");
    VP_ASSERT(bfdev_overflow_check_add(la, lb, &ld) == (la + lb < la) && ld == la + lb, "64-bit add");
    VP_ASSERT(bfdev_overflow_check_sub(la, lb, &ld) == (la < lb) && ld == la - lb, "64-bit sub");
    VP_ASSERT(bfdev_overflow_add_u32(ua, ub) == ((uint64_t)ua + ub > UINT32_MAX ? UINT32_MAX : ua + ub), "saturating add");
    VP_ASSERT(bfdev_overflow_sub_u32(ua, ub) == (ua < ub ? UINT32_MAX : ua - ub), "saturating sub marks underflow");
    VP_ASSERT(bfdev_overflow_add_u64(la, lb) == (la + lb < la ? UINT64_MAX : la + lb), "saturating 64-bit add");
    {
        uint16_t x = la, y = lb, z;
        uint8_t p = la, q = lb, z8;
        int8_t s = la, u = lb, z9;
        VP_ASSERT(bfdev_overflow_check_mul(x, y, &z) == ((uint32_t)x * y > UINT16_MAX) && z == (uint16_t)((uint32_t)x * y), "16-bit multiply");
        VP_ASSERT(bfdev_overflow_mul_u8(p, q) == ((uint32_t)p * q > 255 ? 255 : p * q), "saturating multiply");
        VP_ASSERT(bfdev_overflow_check_mul(s, u, &z9) == ((int)s * u != (int8_t)(s * u)), "signed multiply");
        VP_ASSERT(bfdev_overflow_add_s8(s, u) == (s + u != (int8_t)(s + u) ? -1 : s + u), "signed saturating add marks overflow");
        VP_ASSERT(bfdev_overflow_sub_u8(p, q) == (p < q ? 255 : p - q), "u8 sub");
    }
    VP_REACH("end");
}
#endif

//@ property C04
//@ harness swab unwind=9 timeout=200 bounds=all-values
#ifdef VP_H_swab
#define B(v, i) ((uint8_t)((v) >> (8 * (i))))
void swab(void)
{
    uint64_t v = vp_u64(), t, arr[2], src[2];
    uint32_t w = v;
    uint16_t h = v;
    unsigned int i = vp_uint(0, 7);
    uint16_t a16[3]; uint32_t a32[3]; uint64_t a64[3]; unsigned long al[3];
    unsigned int n = vp_uint(0, 3), k;

    VP_ASSERT(B(bfdev_swab64(v), i) == B(v, 7 - i) && B(bfdev_swab64_const(v), i) == B(v, 7 - i) && B(bfdev_fswab64(v), i) == B(v, 7 - i), "swab64");
    VP_ASSERT(B(bfdev_swab32(w), i & 3) == B(w, 3 - (i & 3)) && B(bfdev_fswab32(w), i & 3) == B(w, 3 - (i & 3)) && bfdev_swab32_const(w) == bfdev_swab32(w), "swab32");
    VP_ASSERT(B(bfdev_swab16(h), i & 1) == B(h, 1 - (i & 1)) && B(bfdev_fswab16(h), i & 1) == B(h, 1 - (i & 1)) && bfdev_swab16_const(h) == bfdev_swab16(h), "swab16");
    VP_ASSERT(bfdev_swab(v) == bfdev_swab64(v), "swab of a long");
    VP_ASSERT(B(bfdev_swahb64(v), i) == B(v, i ^ 1) && B(bfdev_swahb32(w), i & 3) == B(w, (i & 3) ^ 1), "bytes swapped in half words");
    VP_ASSERT(B(bfdev_swahw64(v), i) == B(v, i ^ 2) && B(bfdev_swahw32(w), i & 3) == B(w, (i & 3) ^ 2), "half words swapped");
    VP_ASSERT(B(bfdev_swahl64(v), i) == B(v, i ^ 4), "words swapped");
    VP_ASSERT(bfdev_swab64p(&v) == bfdev_swab64(v) && bfdev_swab32p(&w) == bfdev_swab32(w) && bfdev_swab16p(&h) == bfdev_swab16(h), "swab through a pointer");
    VP_ASSERT(bfdev_swahb32p(&w) == bfdev_swahb32(w) && bfdev_swahw32p(&w) == bfdev_swahw32(w) && bfdev_swahb64p(&v) == bfdev_swahb64(v) &&
              bfdev_swahw64p(&v) == bfdev_swahw64(v) && bfdev_swahl64p(&v) == bfdev_swahl64(v), "half word forms through a pointer");
    { uint64_t x = v; bfdev_swab64s(&x); VP_ASSERT(x == bfdev_swab64(v), "swab64 in place"); }
    { uint32_t x = w; bfdev_swab32s(&x); VP_ASSERT(x == bfdev_swab32(w), "swab32 in place"); }
    { uint16_t x = h; bfdev_swab16s(&x); VP_ASSERT(x == bfdev_swab16(h), "swab16 in place"); }
    { unsigned long x = v; bfdev_swabs(&x); VP_ASSERT(x == bfdev_swab64(v), "swab in place"); }
    { uint32_t x = w; bfdev_swahb32s(&x); VP_ASSERT(x == bfdev_swahb32(w), "swahb32 in place"); x = w; bfdev_swahw32s(&x); VP_ASSERT(x == bfdev_swahw32(w), "swahw32 in place"); }
    { uint64_t x = v; bfdev_swahb64s(&x); VP_ASSERT(x == bfdev_swahb64(v), "swahb64 in place"); x = v; bfdev_swahw64s(&x); VP_ASSERT(x == bfdev_swahw64(v), "swahw64 in place");
      x = v; bfdev_swahl64s(&x); VP_ASSERT(x == bfdev_swahl64(v), "swahl64 in place"); }
    for (k = 0; k < 3; ++k) {
        a16[k] = h + k; a32[k] = w + k; a64[k] = v + k; al[k] = v - k;
    }
    bfdev_swab16_array(a16, n); bfdev_swab32_array(a32, n); bfdev_swab64_array(a64, n); bfdev_swab_array(al, n);
    k = i % 3;
    VP_ASSERT(a16[k] == (k < n ? bfdev_swab16((uint16_t)(h + k)) : (uint16_t)(h + k)), "swab16 array");
    VP_ASSERT(a32[k] == (k < n ? bfdev_swab32((uint32_t)(w + k)) : (uint32_t)(w + k)), "swab32 array");
    VP_ASSERT(a64[k] == (k < n ? bfdev_swab64(v + k) : v + k), "swab64 array");
    VP_ASSERT(al[k] == (k < n ? bfdev_swab64(v - k) : v - k), "swab array");
    VP_REACH("end");
}
#endif

//@ harness endian unwind=9 timeout=200 bounds=all-values,every-buffer-offset<8
#ifdef VP_H_endian
void endian(void)
{
    uint64_t v = vp_u64(), o;
    uint32_t w = v;
    uint16_t h = v;
    uint8_t buf[24], pre[24];
    unsigned int off = vp_uint(0, 7), i = vp_uint(0, 23), k = vp_uint(0, 7);

    vp_bytes(buf, 24);
    memcpy(pre, buf, 24);
#define CONV(W, val, T) do { \
        T le = bfdev_cpu_to_le##W(val), be = bfdev_cpu_to_be##W(val); \
        VP_ASSERT(((uint8_t *)&le)[k % sizeof(T)] == (uint8_t)((val) >> (8 * (k % sizeof(T)))), "cpu_to_le" #W " lays out low byte first"); \
        VP_ASSERT(((uint8_t *)&be)[k % sizeof(T)] == (uint8_t)((val) >> (8 * (sizeof(T) - 1 - k % sizeof(T)))), "cpu_to_be" #W " lays out high byte first"); \
        VP_ASSERT(bfdev_le##W##_to_cpu(le) == (val) && bfdev_be##W##_to_cpu(be) == (val), "byte order round trip " #W); \
    } while (0)
    CONV(16, h, uint16_t); CONV(32, w, uint32_t); CONV(64, v, uint64_t);
#define UN(name, W, T, val, order) do { \
        memcpy(buf, pre, 24); \
        bfdev_unaligned_set_##name(buf + off, (val)); \
        VP_ASSERT(buf[off + k % sizeof(T)] == (uint8_t)((val) >> (8 * (order ? sizeof(T) - 1 - k % sizeof(T) : k % sizeof(T)))), "unaligned store " #name); \
        if (i < off || i >= off + sizeof(T)) VP_ASSERT(buf[i] == pre[i], "unaligned store touches only its bytes " #name); \
        VP_ASSERT(bfdev_unaligned_get_##name(buf + off) == (T)(val), "unaligned load " #name); \
    } while (0)
    UN(u16, 16, uint16_t, h, 0); UN(u32, 32, uint32_t, w, 0); UN(u64, 64, uint64_t, v, 0);
    UN(le16, 16, uint16_t, h, 0); UN(le32, 32, uint32_t, w, 0); UN(le64, 64, uint64_t, v, 0);
    UN(be16, 16, uint16_t, h, 1); UN(be32, 32, uint32_t, w, 1); UN(be64, 64, uint64_t, v, 1);
    UN(uint, 32, uint32_t, w, 0); UN(ulong, 64, uint64_t, v, 0);
    VP_REACH("end");
}
#endif

//@ harness bitcount unwind=66 timeout=200 matrix=WID:8/16/32/64,WHAT:0-1 bounds=all-values-of-each-width
#ifdef VP_H_bitcount
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define CAT3(a, b, c) CAT(CAT(a, b), c)
typedef CAT3(uint, WID, _t) val_t;
#if WHAT == 0
/* one step of an induction over the value: clearing the lowest set bit takes one off the count;
   with the value zero counting zero this fixes the count of every value */
void bitcount(void)
{
    val_t v = (val_t)vp_u64(), w = v & (val_t)(v - 1);

    VP_ASSERT(CAT(bfdev_popcount, WID)((val_t)0) == 0 && CAT3(bfdev_popcount, WID, _const)(0) == 0 && CAT3(bfdev_popcount, WID, _dynamic)((val_t)0) == 0, "nothing set, count zero");
    VP_ASSERT(CAT(bfdev_popparity, WID)((val_t)0) == 0 && CAT3(bfdev_popparity, WID, _const)(0) == 0 && CAT3(bfdev_popparity, WID, _dynamic)((val_t)0) == 0, "nothing set, parity even");
    VP_ASSUME(v);
    VP_ASSERT(CAT(bfdev_popcount, WID)(v) == CAT(bfdev_popcount, WID)(w) + 1, "popcount counts each set bit once");
    VP_ASSERT(CAT3(bfdev_popcount, WID, _const)(v) == CAT3(bfdev_popcount, WID, _const)(w) + 1, "constant popcount counts each set bit once");
    VP_ASSERT(CAT3(bfdev_popcount, WID, _dynamic)(v) == CAT3(bfdev_popcount, WID, _dynamic)(w) + 1, "table popcount counts each set bit once");
    VP_ASSERT(CAT(bfdev_popparity, WID)(v) == !CAT(bfdev_popparity, WID)(w), "parity flips with each set bit");
    VP_ASSERT(CAT3(bfdev_popparity, WID, _const)(v) == !CAT3(bfdev_popparity, WID, _const)(w), "constant parity flips with each set bit");
    VP_ASSERT(CAT3(bfdev_popparity, WID, _dynamic)(v) == !CAT3(bfdev_popparity, WID, _dynamic)(w), "table parity flips with each set bit");
    VP_REACH("end");
}
#else
void bitcount(void)
{
    val_t v = (val_t)vp_u64();
    unsigned int i = vp_uint(0, WID - 1);
    val_t want = (v >> (WID - 1 - i)) & 1;

    VP_ASSERT(((CAT(bfdev_bitrev, WID)(v) >> i) & 1) == want, "bit order reversed");
    VP_ASSERT(((CAT3(bfdev_bitrev, WID, _const)(v) >> i) & 1) == want, "bit order reversed, constant form");
    VP_ASSERT(((CAT3(bfdev_bitrev, WID, _dynamic)(v) >> i) & 1) == want, "bit order reversed, table form");
    VP_REACH("end");
}
#endif
#endif

//@ harness bcd unwind=4 timeout=60 bounds=all-values-0..99
#ifdef VP_H_bcd
void bcd(void)
{
    uint8_t n = vp_uint(0, 99), b;

    b = bfdev_bin2bcd(n);
    VP_ASSERT((b >> 4) == n / 10 && (b & 15) == n % 10, "two decimal digits");
    VP_ASSERT(bfdev_bin2bcd_const(n) == b && bfdev_bin2bcd_dynamic(n) == b, "constant and table forms agree");
    VP_ASSERT(bfdev_bcd2bin(b) == n && bfdev_bcd2bin_const(b) == n && bfdev_bcd2bin_dynamic(b) == n, "and back");
    VP_REACH("end");
}
#endif
