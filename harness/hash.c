/* MD5, SHA-1, SHA-2: how the message is cut and padded, and the digest; RC4; jhash, pjw, bcd */
#include "vp.h"
//@ property C25
//@ src src/crypto/md5.c src/crypto/sha1.c src/crypto/sha2.c

#if defined(VP_H_blocks) || defined(VP_H_blocks_long) || defined(VP_H_digest)
# if ALG == 0
#  include <bfdev/crypto/md5-base.h>
typedef bfdev_md5_ctx_t ctx_t;
#  define BUF(c) ((uint8_t *)(c)->block)
#  define STATE(c) ((c)->digest)
#  define UPDATE bfdev_md5_base_update
#  define FINAL bfdev_md5_base_finalize
#  define UPD bfdev_md5_update
#  define INIT bfdev_md5_init
#  define FIN bfdev_md5_finish
#  define WORDS 4
# elif ALG == 1
#  include <bfdev/crypto/sha1-base.h>
typedef bfdev_sha1_ctx_t ctx_t;
#  define UPDATE bfdev_sha1_base_update
#  define FINAL bfdev_sha1_base_finalize
#  define UPD bfdev_sha1_update
#  define INIT bfdev_sha1_init
#  define FIN bfdev_sha1_finish
#  define WORDS 5
# else
#  include <bfdev/crypto/sha2-base.h>
typedef bfdev_sha2_ctx_t ctx_t;
#  define UPDATE bfdev_sha2_base_update
#  define FINAL bfdev_sha2_base_finalize
#  define UPD bfdev_sha2_update
#  if ALG == 2
#   define INIT bfdev_sha224_init
#   define FIN bfdev_sha224_finish
#   define WORDS 7
#  else
#   define INIT bfdev_sha256_init
#   define FIN bfdev_sha256_finish
#   define WORDS 8
#  endif
# endif
# if ALG
#  define BUF(c) ((c)->buffer)
#  define STATE(c) ((c)->state)
# endif
#endif

//@ harness blocks unwind=130 matrix=ALG:0-2,P:0/1/55/56/63,N1:0/7/65/130,N2:0/3,BEF:2 thorough.matrix=ALG:0-2,P:0/1/7/54/55/56/62/63,N1:0/1/8/9/56/63/64/65/127/128/130,N2:0/1/3/9/63/64/65,BEF:0-3 timeout=200 bounds=up-to-270-bytes-in-two-pieces-after-many-bytes,any-data
//@ harness blocks_long entry=blocks unwind=130 matrix=ALG:0-2,P:55/60,N1:3,N2:0,BEF:0-3 bounds=messages-of-up-to-2^56-bytes
#if defined(VP_H_blocks) || defined(VP_H_blocks_long)
#define TOTAL (P + N1 + N2)
#define PADDED ((TOTAL + 9 + 63) / 64 * 64)
static uint8_t want[PADDED];
static unsigned int at;
static void block(const uint8_t *b)
{
    VP_ASSERT(at < PADDED, "no more blocks than the message has");
    for (int i = 0; i < 64; ++i)
        if (at + i < PADDED)
            VP_ASSERT(b[i] == want[at + i], "the blocks are the message, a one bit, zeros and its length");
    at += 64;
}
# if ALG == 0
static void recv(ctx_t *c) { block(BUF(c)); }
# else
static void recv(ctx_t *c, const void *src, size_t n)
{
    VP_ASSERT(n <= 4, "no more blocks than the message has");
    VP_ASSUME(n <= 4);
    for (size_t i = 0; i < n; ++i)
        block((const uint8_t *)src + 64 * i);
}
# endif
void blocks(void)
{
    static ctx_t c;
    static uint8_t data[N1 + N2 + 1];
    static const uint64_t many[4] = { 0, 0x1fffffc0, 0xffffffc0, 0x12345678abcdec0 };
    const uint64_t before = many[BEF];
    uint64_t bits;

    bits = (before + TOTAL) * 8;
    for (int i = 0; i < TOTAL; ++i) {
        want[i] = vp_u8();
        if (i < P)
            BUF(&c)[i] = want[i];
        else
            data[i - P] = want[i];
    }
    want[TOTAL] = 0x80;
    for (int i = 0; i < 8; ++i)
        want[PADDED - 8 + i] = (uint8_t)(bits >> (ALG ? 56 - 8 * i : 8 * i));
    c.count = before + P;
    UPDATE(&c, data, N1, recv);
    VP_ASSERT(at == (P + N1) / 64 * 64, "each full block at once");
    UPDATE(&c, data + N1, N2, recv);
    FINAL(&c, recv);
    VP_ASSERT(at == PADDED, "all blocks");
    VP_REACH("end");
}
#endif

//@ harness digest unwind=130 matrix=ALG:0-3,LEN:1/55/64/70,AT:0/54 thorough.matrix=ALG:0-3,LEN:0/1/2/3/55/56/63/64/70/119/120/128,AT:0/1/2/9/33/54/55/60/63/64/69 timeout=300 bounds=messages-with-any-four-bits-of-one-byte
#ifdef VP_H_digest
#define PADDED ((LEN + 9 + 63) / 64 * 64)
static uint8_t msg[PADDED];
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static uint32_t ror(uint32_t x, int n) { return rol(x, 32 - n); }
static uint32_t h[8];
# if ALG == 0
static const uint32_t first[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
static const uint32_t K[64] = {
    0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,
    0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
    0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,
    0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
    0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,
    0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
    0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,
    0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
static const int rot[4][4] = { {7,12,17,22}, {5,9,14,20}, {4,11,16,23}, {6,10,15,21} };
static void ref(const uint8_t *m)
{
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) {
        int r = i / 16, g = r == 0 ? i : r == 1 ? (5 * i + 1) % 16 : r == 2 ? (3 * i + 5) % 16 : 7 * i % 16;
        uint32_t w = m[4*g] | m[4*g+1] << 8 | m[4*g+2] << 16 | (uint32_t)m[4*g+3] << 24;
        uint32_t f = r == 0 ? (b & c) | (~b & d) : r == 1 ? (d & b) | (~d & c) : r == 2 ? b ^ c ^ d : c ^ (b | ~d);
        uint32_t t = a + f + K[i] + w;
        a = d; d = c; c = b;
        b += rol(t, rot[r][i % 4]);
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
}
# elif ALG == 1
static const uint32_t first[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
static void ref(const uint8_t *m)
{
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], w[80];
    for (int i = 0; i < 80; ++i) {
        uint32_t f, k, t;
        w[i] = i < 16 ? (uint32_t)m[4*i] << 24 | m[4*i+1] << 16 | m[4*i+2] << 8 | m[4*i+3] :
            rol(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
        if (i < 20) f = (b & c) | (~b & d), k = 0x5a827999;
        else if (i < 40) f = b ^ c ^ d, k = 0x6ed9eba1;
        else if (i < 60) f = (b & c) | (b & d) | (c & d), k = 0x8f1bbcdc;
        else f = b ^ c ^ d, k = 0xca62c1d6;
        t = rol(a, 5) + f + e + k + w[i];
        e = d; d = c; c = rol(b, 30); b = a; a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
# else
#  if ALG == 2
static const uint32_t first[8] = { 0xc1059ed8,0x367cd507,0x3070dd17,0xf70e5939,0xffc00b31,0x68581511,0x64f98fa7,0xbefa4fa4 };
#  else
static const uint32_t first[8] = { 0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19 };
#  endif
static const uint32_t K[64] = {
    0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
    0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
    0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
    0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
    0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
    0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
    0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
    0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
static void ref(const uint8_t *m)
{
    uint32_t v[8], w[64];
    for (int i = 0; i < 8; ++i)
        v[i] = h[i];
    for (int i = 0; i < 64; ++i) {
        uint32_t t1, t2;
        w[i] = i < 16 ? (uint32_t)m[4*i] << 24 | m[4*i+1] << 16 | m[4*i+2] << 8 | m[4*i+3] :
            (ror(w[i-2], 17) ^ ror(w[i-2], 19) ^ w[i-2] >> 10) + w[i-7] +
            (ror(w[i-15], 7) ^ ror(w[i-15], 18) ^ w[i-15] >> 3) + w[i-16];
        t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i];
        t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        for (int k = 7; k > 0; --k)
            v[k] = v[k - 1];
        v[4] += t1;
        v[0] = t1 + t2;
    }
    for (int i = 0; i < 8; ++i)
        h[i] += v[i];
}
# endif
void digest(void)
{
    static ctx_t c;
    uint8_t out[36];

    for (int i = 0; i < LEN; ++i)
        msg[i] = (uint8_t)(i * 59 + 101);
    if (AT < LEN)
        msg[AT] ^= (vp_u8() & 3) | (vp_u8() & 3) << 6;
    for (int i = 0; i < 36; ++i)
        out[i] = 0x5a;
    INIT(&c);
    UPD(&c, (char *)msg, LEN);
    FIN(&c, out);
    msg[LEN] = 0x80;
    for (int i = 0; i < 8; ++i)
        msg[PADDED - 8 + i] = (uint8_t)((uint64_t)LEN * 8 >> (ALG ? 56 - 8 * i : 8 * i));
    for (int i = 0; i < 8; ++i)
        h[i] = i < (int)(sizeof(first) / sizeof(*first)) ? first[i] : 0;
    for (int i = 0; i < PADDED; i += 64)
        ref(msg + i);
    for (int i = 0; i < WORDS * 4; ++i)
        VP_ASSERT(out[i] == (uint8_t)(ALG ? h[i / 4] >> (24 - i % 4 * 8) : h[i / 4] >> (i % 4 * 8)), "the digest of the standard");
    for (int i = WORDS * 4; i < 36; ++i)
        VP_ASSERT(out[i] == 0x5a, "nothing behind it");
    VP_REACH("end");
}
#endif
