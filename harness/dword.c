//@ src src/dword.c
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/dword.h>
#include <bfdev/bitops.h>

typedef unsigned __int128 u128;

/* A word whose bits are: RUN ones or zeros, then three symbolic bits at POS, then fill. */
static bfdev_uw_t few(int shape)
{
    bfdev_uw_t v = vp_u64() & 7;
    switch (shape) {
        case 0: return v;                           /* small */
        case 1: return ~(bfdev_uw_t)0 - v;          /* close to the greatest */
        case 2: return (v << 61) | 1;               /* top bits */
        case 3: return (v << 61) | (~(bfdev_uw_t)0 >> 3);
        case 4: return ((bfdev_uw_t)1 << 63) + v;
        case 5: return (v << 31) - 1;
        case 6: return ((bfdev_uw_t)1 << 63) - 1 - v;
        default: return 0x123456789abcdef1ull * (v + 1);
    }
}

/* divisors that make the estimates of the digits wrong in each direction */
static const bfdev_uw_t divs[] = { 1, 3, 10, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x1ffffffffull,
    0x7fffffffffffffffull, 0x8000000000000000ull, 0x80000000ffffffffull, 0xffffffff00000000ull,
    0xffffffffffffffffull, 0x123456789abcdef1ull, 0x8000000000000001ull, 0, 2 };

/* quotient and remainder of two words by one */
//@ harness udiv property=C27 unwind=4 matrix=SN:1/7,SH:0/2/7,SD:0/2/3/4/5/7/8/9/10/11/12 thorough.matrix=SN:0-7,SH:0-7,SD:0-13 timeout=300 bounds=dividends-with-three-free-bits-in-each-word,around-8-patterns,14-divisors
#ifdef VP_H_udiv
void udiv(void)
{
    bfdev_uw_t n[2] = { few(SN), few(SH) }, d = divs[SD], q[2] = { 1, 2 }, r = 3;
    u128 quot;

    bfdev_dword_udiv(q, &r, n, d);
    quot = ((u128)q[1] << 64) | q[0];
    VP_ASSERT(r < d, "remainder below the divisor");
    VP_ASSERT(quot * d + r == (((u128)n[1] << 64) | n[0]), "quotient times divisor plus remainder");
    VP_ASSERT((u128)q[1] * d <= n[1], "the product does not overflow");
    VP_REACH("end");
}
#endif

/* only one of them asked for */
//@ harness udiv_part property=C27 unwind=4 matrix=SH:0/3,SD:2/9,WHICH:0-3 timeout=300 bounds=three-free-bits-in-each-word
#ifdef VP_H_udiv_part
void udiv_part(void)
{
    bfdev_uw_t n[2] = { few(7), few(SH) }, d = divs[SD], q[2], r, q2[2] = { 5, 6 }, r2[2] = { 7, 8 };
    bfdev_uw_t dd[2] = { divs[SD], SH }, qd[2], rd[2];

    if (WHICH < 2) {
        bfdev_dword_udiv(q, &r, n, d);
        bfdev_dword_udiv(WHICH == 1 ? q2 : NULL, WHICH == 1 ? NULL : r2, n, d);
        VP_ASSERT(WHICH == 1 ? q2[0] == q[0] && q2[1] == q[1] : r2[0] == r && r2[1] == 8, "the same when asked for alone");
    } else {
        bfdev_dword_udivd(qd, rd, n, dd);
        bfdev_dword_udivd(WHICH == 2 ? q2 : NULL, WHICH == 2 ? NULL : r2, n, dd);
        VP_ASSERT(WHICH == 2 ? q2[0] == qd[0] && q2[1] == qd[1] : r2[0] == rd[0] && r2[1] == rd[1], "the same when asked for alone");
    }
    bfdev_dword_udiv(NULL, NULL, n, d);
    bfdev_dword_udivd(NULL, NULL, n, dd);
    VP_REACH("end");
}
#endif

/* two words by two */
//@ harness udivd property=C27 unwind=4 matrix=SN:1/7,SH:0/2/4/7,SL:0/11/12,SD:1/3/7/8/9/11/12/14 thorough.matrix=SN:0-7,SH:0-7,SL:0/7/11/12,SD:0-15 timeout=300 bounds=two-or-three-free-bits-in-each-word,around-8-patterns-each
#ifdef VP_H_udivd
void udivd(void)
{
    bfdev_uw_t n[2] = { few(SN), few(SH) }, d[2] = { divs[SL], divs[SD] }, q[2] = { 1, 2 }, r[2] = { 3, 4 };
    u128 quot, value, rem, div;

    value = ((u128)n[1] << 64) | n[0];
    div = ((u128)d[1] << 64) | d[0];
    bfdev_dword_udivd(q, r, n, d);
    quot = ((u128)q[1] << 64) | q[0];
    rem = ((u128)r[1] << 64) | r[0];
    VP_ASSERT(rem < div, "remainder below the divisor");
    VP_ASSERT(quot * div + rem == value, "quotient times divisor plus remainder");
    VP_ASSERT(!d[1] || !q[1], "a divisor of two words leaves a quotient of one");
    VP_ASSERT(d[1] ? (u128)q[0] * d[1] <= value >> 64 : (u128)q[1] * d[0] <= n[1], "the product does not overflow");
    VP_REACH("end");
}
#endif
