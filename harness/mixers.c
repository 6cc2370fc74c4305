/* RC4, jhash, pjw hash, golden ratio hash, BCD */
#include "vp.h"
#include <bfdev/arc4.h>
#include <bfdev/jhash.h>
#include <bfdev/hash.h>
#include <bfdev/stringhash.h>
#include <bfdev/bcd.h>
//@ property C26
//@ src src/crypto/arc4.c src/jhash.c src/stringhash.c src/bcd.c

//@ harness arc4_trans unwind=258 matrix=N:1-2,CUT:0-1,PA:1/255 thorough.matrix=N:1-3,CUT:0-2,PA:0/1/128/254/255 timeout=600 bounds=any-second-index,up-to-2-(thorough:3)-bytes-in-two-calls
#ifdef VP_H_arc4_trans
static bfdev_arc4_ctx_t c;
static uint8_t S[256];
void arc4_trans(void)
{
    uint8_t in[N], out[N + 1], a, b;

    for (int k = 0; k < 256; ++k)
        S[k] = c.box[k] = (uint8_t)(k * 7 + 3);
    a = c.proa = PA;
    b = c.prob = vp_u8();
    vp_bytes(in, N);
    out[N] = 0x5a;
    bfdev_arc4_trans(&c, out, in, CUT < N ? CUT : N);
    bfdev_arc4_trans(&c, out + (CUT < N ? CUT : N), in + (CUT < N ? CUT : N), CUT < N ? N - CUT : 0);
    for (int i = 0; i < N; ++i) {
        uint8_t t = S[a], u;
        b += t;
        u = S[b];
        S[a] = u;
        S[b] = t;
        VP_ASSERT(out[i] == (in[i] ^ S[(uint8_t)(t + u)]), "the bytes of the key stream in turn");
        ++a;
    }
    VP_ASSERT(out[N] == 0x5a, "nothing behind them");
    VP_REACH("end");
}
#endif

//@ harness arc4_key unwind=258 matrix=KLEN:5,AT:0/4 thorough.matrix=KLEN:1/5/16/256,AT:0/4/15 timeout=300 bounds=keys-with-one-free-bits
#ifdef VP_H_arc4_key
void arc4_key(void)
{
    static bfdev_arc4_ctx_t c;
    static uint8_t S[256];
    uint8_t key[KLEN], j = 0;

    for (int i = 0; i < KLEN; ++i)
        key[i] = (uint8_t)(i * 91 + 17);
    if (AT < KLEN)
        key[AT] ^= vp_bool() ? 0x80 : 0;
    bfdev_arc4_setkey(&c, key, KLEN);
    for (int i = 0; i < 256; ++i)
        S[i] = (uint8_t)i;
    for (int i = 0; i < 256; ++i) {
        uint8_t t = S[i];
        j += t + key[i % KLEN];
        S[i] = S[j];
        S[j] = t;
    }
    for (int i = 0; i < 256; ++i)
        VP_ASSERT(c.box[i] == S[i], "the box of the key");
    VP_ASSERT(c.proa == 1 && c.prob == 0, "ready for the first byte");
    VP_REACH("end");
}
#endif

//@ harness jhash unwind=27 matrix=LEN:0-13/24/25,OFF:0/1 timeout=200 bounds=data-of-up-to-25-bytes-with-any-four-bits-of-each-byte-in-turn entry=jhash_all
#ifdef VP_H_jhash
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
void jhash_all(void)
{
    static uint32_t room[8];
    uint8_t *d = (uint8_t *)room + OFF, m[40] = {0};
    uint32_t a, b, c, init = 0x1234567, r;
    int n = LEN, o = 0;

    for (int i = 0; i < LEN; ++i)
        m[i] = d[i] = (uint8_t)(i * 59 + 101);
    if (LEN) {
        uint8_t x = vp_u8(), p = vp_u8();
        VP_ASSUME(p < LEN);
        for (int i = 0; i < LEN; ++i)
            if (i == p)
                m[i] = d[i] = d[i] ^ (x & 0xf1);
    } else
        init = (uint32_t)vp_u64();
    r = bfdev_jhash(d, LEN, init);
    a = b = c = 0xdeadbeef + (uint32_t)LEN + init;
    for (;;) {
        uint32_t w[3];
        for (int k = 0; k < 3; ++k)
            w[k] = m[o + 4*k] | m[o + 4*k + 1] << 8 | m[o + 4*k + 2] << 16 | (uint32_t)m[o + 4*k + 3] << 24;
        if (n == 0)
            break;
        a += w[0]; b += w[1]; c += w[2];
        if (n <= 12) {
            c ^= b; c -= rol(b, 14);
            a ^= c; a -= rol(c, 11);
            b ^= a; b -= rol(a, 25);
            c ^= b; c -= rol(b, 16);
            a ^= c; a -= rol(c, 4);
            b ^= a; b -= rol(a, 14);
            c ^= b; c -= rol(b, 24);
            break;
        }
        a -= c; a ^= rol(c, 4); c += b;
        b -= a; b ^= rol(a, 6); a += c;
        c -= b; c ^= rol(b, 8); b += a;
        a -= c; a ^= rol(c, 16); c += b;
        b -= a; b ^= rol(a, 19); a += c;
        c -= b; c ^= rol(b, 4); b += a;
        n -= 12;
        o += 12;
    }
    VP_ASSERT(r == c, "lookup3 of the bytes");
    VP_REACH("end");
}
#endif

//@ harness pjw unwind=14 matrix=LEN:0-11 timeout=200 bounds=any-string-of-up-to-11-characters
#ifdef VP_H_pjw
void pjw(void)
{
    static char s[LEN + 1];
    uint64_t h = 0;

    for (int i = 0; i < LEN; ++i) {
        s[i] = (char)vp_u8();
        VP_ASSUME(s[i]);
    }
    for (int i = 0; i < LEN; ++i) {
        h = (h << 4) + (uint8_t)s[i];
        h = (h ^ (h >> 24 & 0xf0)) & 0xfffffff;
    }
    VP_ASSERT(bfdev_pjwhash(s) == h, "the hash of the string, of 28 bits");
    VP_REACH("end");
}
#endif

//@ harness golden unwind=2 solver=cvc5 bounds=any-value,any-number-of-bits
#ifdef VP_H_golden
void golden(void)
{
    uint64_t v = vp_u64();
    unsigned int b = vp_u8();

    VP_ASSUME(b >= 1 && b <= 64);
    VP_ASSERT(bfdev_hash64(v, b) == (v * 0x61c8864680b583ebull) >> (64 - b), "top bits of the product");
    VP_ASSERT(b == 64 || bfdev_hash64(v, b) < 1ull << b, "as many bits as asked for");
    VP_ASSERT(b > 32 || bfdev_hash32((uint32_t)v, b) == (uint32_t)v * 0x61c88647u >> (32 - b), "top bits of the product");
    VP_REACH("end");
}
#endif

//@ harness bcd unwind=2 bounds=any-value
#ifdef VP_H_bcd
void bcd(void)
{
    uint8_t v = vp_u8(), b = vp_u8();

    VP_ASSUME(v < 100 && (b & 15) < 10 && b >> 4 < 10);
    VP_ASSERT(bfdev_bin2bcd_dynamic(v) == (v / 10 << 4 | v % 10), "two digits");
    VP_ASSERT(bfdev_bcd2bin_dynamic(b) == (b >> 4) * 10 + (b & 15), "value of two digits");
    VP_ASSERT(bfdev_bin2bcd_const(v) == bfdev_bin2bcd_dynamic(v) && bfdev_bcd2bin_const(b) == bfdev_bcd2bin_dynamic(b), "same for constants");
    VP_ASSERT(bfdev_bcd2bin(bfdev_bin2bcd(v)) == v, "there and back");
    VP_REACH("end");
}
#endif
