/* CRCs: bit by bit definition against the table driven code, whole and in parts */
#include "vp.h"
#include <bfdev/crc.h>
//@ property C24
//@ src src/crypto/crc4.c

#if KIND == 0
# include <../src/crypto/crc7.c>
typedef uint8_t T;
# define CRC bfdev_crc7
# define POLY 0x12u         /* x^7 + x^3 + 1, at the top of the byte */
# define MSB 1
#elif KIND == 1
# include <../src/crypto/crc8.c>
typedef uint8_t T;
# define CRC bfdev_crc8
# define POLY 0x07u
# define MSB 1
#elif KIND == 2
# include <../src/crypto/crc16.c>
typedef uint16_t T;
# define CRC bfdev_crc16
# define POLY 0xa001u
# define MSB 0
#elif KIND == 3
# include <../src/crypto/crc-ccitt.c>
typedef uint16_t T;
# define CRC bfdev_crc_ccitt
# define POLY 0x8408u
# define MSB 0
#elif KIND == 4
# include <../src/crypto/crc-itut.c>
typedef uint16_t T;
# define CRC bfdev_crc_itut
# define POLY 0x1021u
# define MSB 1
#elif KIND == 5
# include <../src/crypto/crc-t10dif.c>
typedef uint16_t T;
# define CRC bfdev_crc_t10dif
# define POLY 0x8bb7u
# define MSB 1
#elif KIND == 6
# include <../src/crypto/crc32.c>
typedef uint32_t T;
# define CRC bfdev_crc32
# define POLY 0xedb88320u
# define MSB 0
#elif KIND == 7
# include <../src/crypto/crc64.c>
typedef uint64_t T;
# define CRC bfdev_crc64
# define POLY 0x42f0e1eba9ea3693ull
# define MSB 1
#else
# include <../src/crypto/crc-rocksoft.c>
typedef uint64_t T;
# define CRC bfdev_crc_rocksoft
# define POLY 0x9a6c9329ac4bc9b5ull
# define MSB 0
#endif
#define BITS (8 * (int)sizeof(T))

static T step(T crc, uint8_t byte)
{
    if (MSB)
        crc ^= (T)byte << (BITS - 8);
    else
        crc ^= byte;
    for (int i = 0; i < 8; ++i) {
        if (MSB)
            crc = (T)(crc << 1) ^ ((crc >> (BITS - 1)) & 1 ? (T)POLY : 0);
        else
            crc = (crc >> 1) ^ (crc & 1 ? (T)POLY : 0);
    }
    return crc;
}

//@ harness crc_byte unwind=10 unwindset=bfdev_crc7_inline.0:5,bfdev_crc7_inline.1:4,bfdev_crc7_inline.2:9,bfdev_crc8_inline.0:5,bfdev_crc8_inline.1:4,bfdev_crc8_inline.2:9,bfdev_crc16_inline.0:5,bfdev_crc16_inline.1:4,bfdev_crc16_inline.2:9,bfdev_crc_ccitt_inline.0:5,bfdev_crc_ccitt_inline.1:4,bfdev_crc_ccitt_inline.2:9,bfdev_crc_itut_inline.0:5,bfdev_crc_itut_inline.1:4,bfdev_crc_itut_inline.2:9,bfdev_crc_t10dif_inline.0:5,bfdev_crc_t10dif_inline.1:4,bfdev_crc_t10dif_inline.2:9,bfdev_crc32_inline.0:5,bfdev_crc32_inline.1:4,bfdev_crc32_inline.2:9,bfdev_crc64_inline.0:5,bfdev_crc64_inline.1:4,bfdev_crc64_inline.2:9,bfdev_crc_rocksoft_inline.0:5,bfdev_crc_rocksoft_inline.1:4,bfdev_crc_rocksoft_inline.2:9 matrix=KIND:0-8 timeout=300 bounds=any-crc-so-far,any-byte
#ifdef VP_H_crc_byte
static uint32_t room[2];
void crc_byte(void)
{
    uint8_t *data = (uint8_t *)room;
    T init = (T)vp_u64();

    data[0] = vp_u8();
    VP_ASSERT(CRC(data, 1, init) == step(init, data[0]), "the remainder by the polynomial");
    VP_REACH("end");
}
#endif

//@ harness crc_long unwind=40 unwindset=bfdev_crc7_inline.0:5,bfdev_crc7_inline.1:4,bfdev_crc7_inline.2:9,bfdev_crc8_inline.0:5,bfdev_crc8_inline.1:4,bfdev_crc8_inline.2:9,bfdev_crc16_inline.0:5,bfdev_crc16_inline.1:4,bfdev_crc16_inline.2:9,bfdev_crc_ccitt_inline.0:5,bfdev_crc_ccitt_inline.1:4,bfdev_crc_ccitt_inline.2:9,bfdev_crc_itut_inline.0:5,bfdev_crc_itut_inline.1:4,bfdev_crc_itut_inline.2:9,bfdev_crc_t10dif_inline.0:5,bfdev_crc_t10dif_inline.1:4,bfdev_crc_t10dif_inline.2:9,bfdev_crc32_inline.0:5,bfdev_crc32_inline.1:4,bfdev_crc32_inline.2:9,bfdev_crc64_inline.0:5,bfdev_crc64_inline.1:4,bfdev_crc64_inline.2:9,bfdev_crc_rocksoft_inline.0:5,bfdev_crc_rocksoft_inline.1:4,bfdev_crc_rocksoft_inline.2:9 matrix=KIND:0-8,LEN:11,POS:0-10/12/15/16,OFF:0 thorough.matrix=KIND:0-8,LEN:0/7/8/11/17,POS:0-18,OFF:0/1/3 timeout=300 bounds=11(thorough:0-17)-bytes,any-value-of-each-one-byte-of-data-or-crc
//@ harness crc_more entry=crc_long unwind=40 unwindset=bfdev_crc7_inline.0:5,bfdev_crc7_inline.1:4,bfdev_crc7_inline.2:9,bfdev_crc8_inline.0:5,bfdev_crc8_inline.1:4,bfdev_crc8_inline.2:9,bfdev_crc16_inline.0:5,bfdev_crc16_inline.1:4,bfdev_crc16_inline.2:9,bfdev_crc_ccitt_inline.0:5,bfdev_crc_ccitt_inline.1:4,bfdev_crc_ccitt_inline.2:9,bfdev_crc_itut_inline.0:5,bfdev_crc_itut_inline.1:4,bfdev_crc_itut_inline.2:9,bfdev_crc_t10dif_inline.0:5,bfdev_crc_t10dif_inline.1:4,bfdev_crc_t10dif_inline.2:9,bfdev_crc32_inline.0:5,bfdev_crc32_inline.1:4,bfdev_crc32_inline.2:9,bfdev_crc64_inline.0:5,bfdev_crc64_inline.1:4,bfdev_crc64_inline.2:9,bfdev_crc_rocksoft_inline.0:5,bfdev_crc_rocksoft_inline.1:4,bfdev_crc_rocksoft_inline.2:9 matrix=KIND:0-8,LEN:16,POS:4/13,OFF:1 timeout=300 bounds=16-bytes-not-aligned
#if defined(VP_H_crc_long) || defined(VP_H_crc_more)
static uint32_t room[6];
void crc_long(void)
{
    uint8_t *data = (uint8_t *)room + OFF;
    T init = (T)0x9d3f27c15b864ae0ull, want;

    for (int i = 0; i < LEN; ++i)
        data[i] = (uint8_t)(i * 37 + 11);
    if (POS < LEN)
        data[POS] = vp_u8();
    else
        init ^= (T)vp_u8() << (8 * (POS % sizeof(T)));
    want = init;
    for (int i = 0; i < LEN; ++i)
        want = step(want, data[i]);
    VP_ASSERT(CRC(data, LEN, init) == want, "the remainder by the polynomial");
    VP_REACH("end");
}
#endif

//@ harness crc4 entry=crc4_bits unwind=34 D=KIND:0 matrix=LEN:0-5/8/9 timeout=300 bounds=up-to-9-bytes,any-data,any-crc
#ifdef VP_H_crc4
void crc4_bits(void)
{
    uint8_t data[10], init = vp_u8() & 0xf, want = init;

    vp_bytes(data, LEN);
    for (int i = 0; i < LEN; ++i)
        for (int b = 7; b >= 0; --b) {
            int top = (want >> 3 ^ data[i] >> b) & 1;
            want = (uint8_t)((want << 1 & 0xf) ^ (top ? 0x7 : 0));
        }
    VP_ASSERT(bfdev_crc4(data, LEN * 8, init) == want, "the remainder by the polynomial");
    VP_REACH("end");
}
#endif
