//@ property C23
//@ src src/crypto/base64.c src/crypto/base32.c src/crypto/ascii85.c
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/base64.h>
#include <bfdev/base32.h>
#include <bfdev/ascii85.h>

static const char a64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char a32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";

/* bits of the data, most significant first, zero behind its end */
static unsigned int take(const uint8_t *d, size_t size, size_t bit, int n)
{
    unsigned int v = 0;
    for (int i = 0; i < n; ++i, ++bit)
        v = v << 1 | (bit / 8 < size ? d[bit / 8] >> (7 - bit % 8) & 1 : 0);
    return v;
}

#define EL64 ((SIZE + 2) / 3 * 4)
#define EL32 ((SIZE + 4) / 5 * 8)

//@ harness enc64 unwind=26 matrix=SIZE:0-7 thorough.matrix=SIZE:0-13 timeout=200 bounds=any-data-of-up-to-7(thorough:13)-bytes
#ifdef VP_H_enc64
void enc64(void)
{
    uint8_t data[SIZE + 1], enc[EL64 + 1], dec[EL64 / 4 * 3 + 1];

    vp_bytes(data, SIZE);
    enc[EL64] = 0x5a;
    VP_ASSERT(bfdev_base64_encode_length(SIZE) == EL64, "length");
    bfdev_base64_encode(enc, data, SIZE);
    for (size_t i = 0; i < EL64; ++i)
        VP_ASSERT(enc[i] == (i * 6 < SIZE * 8 ? a64[take(data, SIZE, i * 6, 6)] : '='), "as RFC 4648 says");
    VP_ASSERT(enc[EL64] == 0x5a, "nothing behind the end");
    dec[EL64 / 4 * 3] = 0x5a;
    VP_ASSERT(bfdev_base64_decode_length(EL64) == EL64 / 4 * 3, "length");
    VP_ASSERT(!bfdev_base64_decode(dec, enc, EL64), "decodes");
    for (size_t i = 0; i < SIZE; ++i)
        VP_ASSERT(dec[i] == data[i], "what was encoded");
    VP_ASSERT(dec[EL64 / 4 * 3] == 0x5a, "nothing behind the end");
    VP_REACH("end");
}
#endif

//@ harness enc32 unwind=42 matrix=SIZE:0-6/10 thorough.matrix=SIZE:0-16 timeout=200 bounds=any-data-of-up-to-10(thorough:16)-bytes
#ifdef VP_H_enc32
void enc32(void)
{
    uint8_t data[SIZE + 1], enc[EL32 + 1], dec[EL32 / 8 * 5 + 1];

    vp_bytes(data, SIZE);
    enc[EL32] = 0x5a;
    VP_ASSERT(bfdev_base32_encode_length(SIZE) == EL32, "length");
    bfdev_base32_encode(enc, data, SIZE);
    for (size_t i = 0; i < EL32; ++i)
        VP_ASSERT(enc[i] == (i * 5 < SIZE * 8 ? a32[take(data, SIZE, i * 5, 5)] : '='), "as RFC 4648 says");
    VP_ASSERT(enc[EL32] == 0x5a, "nothing behind the end");
    dec[EL32 / 8 * 5] = 0x5a;
    VP_ASSERT(bfdev_base32_decode_length(EL32) == EL32 / 8 * 5, "length");
    VP_ASSERT(!bfdev_base32_decode(dec, enc, EL32), "decodes");
    for (size_t i = 0; i < SIZE; ++i)
        VP_ASSERT(dec[i] == data[i], "what was encoded");
    VP_ASSERT(dec[EL32 / 8 * 5] == 0x5a, "nothing behind the end");
    VP_REACH("end");
}
#endif

/* Any text: refused exactly if a character that is not of the alphabet comes before the padding. */
//@ harness base_decode unwind=26 matrix=B:32/64,SIZE:0-9 timeout=200 bounds=any-text-of-up-to-9-characters
#ifdef VP_H_base_decode
#define ROOM (B == 64 ? (SIZE + 3) / 4 * 3 : (SIZE + 7) / 8 * 5)
static bool in(char c)
{
    if (B == 32)
        return (c >= 'A' && c <= 'Z') || (c >= '2' && c <= '7');
    return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/';
}
void base_decode(void)
{
    uint8_t text[SIZE + 1], dec[ROOM + 1];
    bool bad = false, end = false;
    int r;

    vp_bytes(text, SIZE);
    dec[ROOM] = 0x5a;
    for (size_t i = 0; i < SIZE && !end && !bad; ++i) {
        if (text[i] == '=')
            end = true;
        else if (!in(text[i]))
            bad = true;
    }
    r = B == 64 ? bfdev_base64_decode(dec, text, SIZE) : bfdev_base32_decode(dec, text, SIZE);
    VP_ASSERT(r == (bad ? -BFDEV_EINVAL : 0), "refused exactly if not of the alphabet");
    VP_ASSERT(dec[ROOM] == 0x5a, "nothing behind the end");
    VP_REACH("end");
}
#endif

#define E85 ((SIZE + 3) / 4 * 5)
//@ harness enc85 unwind=18 matrix=SIZE:0-4/7 thorough.matrix=SIZE:0-8 timeout=300 solver=cvc5 bounds=any-data-of-up-to-8-bytes
#ifdef VP_H_enc85
void enc85(void)
{
    uint8_t *data = malloc(SIZE ? SIZE : 1), enc[E85 + 1];
    size_t len, o = 0;

    VP_ASSUME(data);
    vp_bytes(data, SIZE);
    for (size_t i = 0; i < E85 + 1; ++i)
        enc[i] = 0x5a;
    VP_ASSERT(bfdev_ascii85_encode_length(SIZE) == E85, "length");
    bfdev_ascii85_encode(enc, data, &len, SIZE);
    for (size_t g = 0; g < SIZE; g += 4) {
        uint32_t v = take(data, SIZE, g * 8, 32), w = v;
        if (!v) {
            VP_ASSERT(enc[o] == 'z', "zero is short");
            o += 1;
        } else {
            for (int i = 5; i-- > 0; w /= 85)
                VP_ASSERT(enc[o + i] == '!' + w % 85, "five digits of base 85 that make four bytes");
            o += 5;
        }
    }
    VP_ASSERT(len == o, "length told");
    for (size_t i = 0; i <= E85; ++i)
        VP_ASSERT(i < o || enc[i] == 0x5a, "nothing behind the end");
    VP_REACH("end");
    free(data);
}
#endif

//@ harness text85a unwind=50 D=SECOND:117 entry=text85 D=VP_H_text85:1 matrix=SIZE:0/1/4/5/6,FIRST:122/33/79/115/116/117/118/32 timeout=300 bounds=any-text-of-up-to-6-characters-with-the-first-of-a-group-from-a-list
//@ harness text85 unwind=50 matrix=SIZE:7/10/11/12,FIRST:122/40,SECOND:122/115 timeout=300 bounds=any-text-of-up-to-12-characters-with-the-first-of-a-group-from-a-list
#ifdef VP_H_text85
void text85(void)
{
    uint8_t text[SIZE + 1], dec[SIZE * 4 + 1];
    size_t len = 77, i = 0, o = 0;
    bool bad = false, part = false, zero = false;
    int r;

    vp_bytes(text, SIZE);
    /* the first character of each group in turn, so that where groups start is known */
    for (int g = 0; i < SIZE; ++g) {
        text[i] = g & 1 ? SECOND : FIRST;
        i += text[i] == 'z' ? 1 : 5;
    }
    for (i = 0; i < SIZE * 4 + 1; ++i)
        dec[i] = 0x5a;
    r = bfdev_ascii85_decode(dec, text, &len, SIZE);
    i = 0;
    for (size_t step = 0; step <= SIZE && i < SIZE && !bad && !part; ++step) {
        uint64_t v = 0;
        if (text[i] == 'z') {
            zero = true;
            i++;
        }
        else if (SIZE - i < 5)
            part = true;
        else {
            for (int k = 0; k < 5; ++k) {
                bad |= text[i + k] < '!' || text[i + k] > 'u';
                v = v * 85 + (text[i + k] - '!');
            }
            bad |= v > 0xffffffff;
            i += 5;
        }
        if (!bad && !part) {
            if (!r)
                for (int k = 0; k < 4; ++k)
                    VP_ASSERT(dec[o + k] == (uint8_t)(v >> (24 - 8 * k)), "four bytes of each group");
            o += 4;
        }
    }
    VP_ASSERT(!!r == (bad || part), "refused exactly if it is not whole groups of the alphabet");
    VP_ASSERT(r || len == o, "length told");
    for (i = 0; i < SIZE * 4 + 1; ++i)
        VP_ASSERT(i < o || dec[i] == 0x5a, "nothing behind the end");
    /* known finding: the length told is too small for texts with the short form of zero */
    VP_ASSERT(zero || bfdev_ascii85_decode_length(SIZE) >= o, "the length that is said to suffice does");
    VP_REACH("end");
}
#endif
