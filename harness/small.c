//@ src src/libc/ctype.c src/libc/strdup.c src/libc/string.c src/argv.c src/scnprintf.c src/errname.c src/bsearch.c src/ratelimit.c src/tokenbucket.c src/allocator.c
#define __NO_CTYPE 1
#include "vp.h"
#include "vp_slots.h"
#include <limits.h>
#include <stdarg.h>
#ifdef VP_CBMC
size_t strspn(const char *s, const char *set)
{
    size_t n, k;
    for (n = 0; s[n]; ++n) {
        for (k = 0; set[k] && set[k] != s[n]; ++k)
            ;
        if (!set[k])
            break;
    }
    return n;
}
size_t strcspn(const char *s, const char *set)
{
    size_t n, k;
    for (n = 0; s[n]; ++n) {
        for (k = 0; set[k] && set[k] != s[n]; ++k)
            ;
        if (set[k])
            break;
    }
    return n;
}
size_t strnlen(const char *s, size_t n)
{
    size_t k;
    for (k = 0; k < n && s[k]; ++k)
        ;
    return k;
}
#endif
#include <bfdev/config.h>
#include <bfdev/ctype.h>
#include <bfdev/string.h>
#include <bfdev/argv.h>
#include <bfdev/scnprintf.h>
#include <bfdev/errno.h>
#include <bfdev/errname.h>
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>

/* ------------------------------------------------------------------ C33 ctype, error names */
//@ harness ctype_class property=C33 unwind=4 bounds=all-characters
#ifdef VP_H_ctype_class
#define BOTH(name, cond, range) do { \
    if (range) { \
        VP_ASSERT(!bfdev_##name##_const(c) == !(cond), #name " of a constant"); \
        VP_ASSERT(!bfdev_##name##_dynamic(c) == !(cond), #name); \
        VP_ASSERT(!bfdev_##name(c) == !(cond), #name " macro"); \
    } } while (0)
void ctype_class(void)
{
    int c = vp_u8();
    bool lo = c >= 'a' && c <= 'z', up = c >= 'A' && c <= 'Z', dig = c >= '0' && c <= '9';
    bool hex = dig || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    bool graph = c > 0x20 && c < 0x7f, asc = c < 0x80;

    BOTH(islower, lo, asc);
    BOTH(isupper, up, asc);
    BOTH(isalpha, lo || up, asc);
    BOTH(isdigit, dig, true);
    BOTH(isxdigit, hex, true);
    BOTH(isalnum, lo || up || dig, asc);
    BOTH(isgraph, graph, asc);
    BOTH(isprint, graph || c == ' ', asc);
    BOTH(ispunct, graph && !(lo || up || dig), asc);
    BOTH(isspace, c == ' ' || (c >= 9 && c <= 13), asc);
    BOTH(isblank, c == ' ' || c == 9, asc);
    BOTH(iscntrl, c < 0x20 || c == 0x7f, true);
    BOTH(isascii, asc, true);
    if (asc) {
        VP_ASSERT(bfdev_tolower(c) == (up ? c + 32 : c), "tolower");
        VP_ASSERT(bfdev_toupper(c) == (lo ? c - 32 : c), "toupper");
    }
    VP_ASSERT(bfdev_toascii(c) == (c & 0x7f), "toascii");
    VP_REACH("end");
}
#endif

#if defined(VP_H_errname_all) || defined(VP_H_errname_pos)
static bool streq(const char *a, const char *b)
{
    for (; *a == *b; ++a, ++b)
        if (!*a)
            return true;
    return false;
}
#endif

/* whatever the number: what is found is the entry of that number, and what is in the table is found */
//@ harness errname_all property=C33 unwind=12 unwindset=errname_all.0:160 timeout=400 bounds=all-numbers
#ifdef VP_H_errname_all
void errname_all(void)
{
    int number = (int)vp_u32();
    unsigned int k, hits = 0;
    bfdev_errname_t *got;
    const char *name, *info = NULL;

    VP_ASSUME(number != INT_MIN);
    for (k = 0; bfdev_errname_table[k].name; ++k)
        hits += bfdev_errname_table[k].errnum == (number < 0 ? -number : number);
    got = bfdev_errname_find(number);
    name = bfdev_errname(number, &info);
    VP_ASSERT(hits <= 1, "one entry per number");
    VP_ASSERT((got != NULL) == (hits == 1), "every number of the table is found, no other");
    VP_ASSERT((name != NULL) == (got != NULL), "name if known");
    if (got) {
        VP_ASSERT(got->errnum == (number < 0 ? -number : number), "entry of that number");
        VP_ASSERT(info == got->info && name == (number > 0 ? got->name + 1 : got->name), "its name and text");
        VP_ASSERT(got->name[0] == '-' && got->name[1] == 'E', "sign in front");
    }
    VP_REACH("end");
}
#endif

/* ------------------------------------------------------------------ C32 strings */
static char letter(void)
{
    uint8_t v = vp_u8() & 3;
    return v == 0 ? '\0' : v == 1 ? ' ' : v == 2 ? 'a' : '\t';
}
#ifdef VP_CBMC
/* block ends where the string ends */
# define TIGHT(n) malloc(n)
#else
# define TIGHT(n) malloc(n)
#endif

//@ harness str_dup property=C32 unwind=12 matrix=LEN:0/1/3/6 thorough.matrix=LEN:0-8 D=VP_SLOTS:2 bounds=strings-of-up-to-6(thorough:8)-characters-any-limit
#ifdef VP_H_str_dup
void str_dup(void)
{
    char *src = TIGHT(LEN + 1), *got;
    size_t limit = vp_u8(), len = LEN, k;
    bool n = vp_bool();

    if (limit == 255)
        limit = SIZE_MAX;
    for (k = 0; k < LEN; ++k)
        src[k] = (char)vp_u8();
    src[LEN] = 0;
    if (n && limit <= LEN)
        src[LEN] = 'x';         /* need not end within the limit */
    for (k = LEN; k-- > 0;)
        if (!src[k])
            len = k;
    vp_fail_mask = vp_u8() & 1;
    if (n && limit < len)
        len = limit;
    got = n ? bfdev_strndup(&vp_alloc, src, limit) : bfdev_strdup(&vp_alloc, src);
    VP_ASSERT((got == NULL) == !!vp_fail_mask, "null exactly without memory");
    if (got) {
        for (k = 0; k < LEN && k < len; ++k)
            VP_ASSERT(got[k] == src[k], "copied");
        VP_ASSERT(got[len] == '\0', "terminated");
        VP_ASSERT(vp_live == 1, "one block");
        bfdev_free(&vp_alloc, got);
    }
    VP_ASSERT(!vp_live, "freed");
    VP_ASSERT(!bfdev_strdup(&vp_alloc, NULL) && !bfdev_strndup(&vp_alloc, NULL, limit), "null of null");
    VP_REACH("end");
}
#endif

//@ harness str_diff property=C32 unwind=12 matrix=LEN:0/1/3/6 bounds=strings-of-up-to-6-characters
#ifdef VP_H_str_diff
void str_diff(void)
{
    char *src = TIGHT(LEN + 1);
    int c = vp_u8();
    size_t k, end = LEN, first;

    for (k = 0; k < LEN; ++k)
        src[k] = (char)vp_u8();
    src[LEN] = 0;
    for (first = 0; first < LEN; ++first)
        if ((uint8_t)src[first] != c)
            break;
    VP_ASSERT(bfdev_memdiff(src, c, LEN) == (first < LEN ? src + first : NULL), "first other byte of the memory");
    for (k = LEN; k-- > 0;)
        if (!src[k])
            end = k;
    VP_ASSERT(bfdev_strdiff(src, c) == (first < end ? src + first : NULL), "first other character of the string");
    VP_REACH("end");
}
#endif

//@ harness argv_words property=C32 unwind=12 matrix=LEN:0/1/3 thorough.matrix=LEN:0-8 timeout=300 bounds=lines-of-up-to-3(thorough:8)-characters
#ifdef VP_H_argv_words
void argv_words(void)
{
    char *line = TIGHT(LEN + 1);
    unsigned int words = 0, k;
    bool in = false;

    for (k = 0; k < LEN; ++k) {
        uint8_t v = vp_u8();
        line[k] = v & 4 ? (char)(v | 0x21) : "\t\r\n "[v & 3];
    }
    line[LEN] = 0;
    for (k = 0; k < LEN; ++k) {
        bool sep = line[k] == 9 || line[k] == 13 || line[k] == 10 || line[k] == 32;
        if (!sep && !in)
            words++;
        in = !sep;
    }
    VP_ASSERT(bfdev_argv_count(line) == words, "number of words");
    VP_REACH("end");
}
#endif

/* where the separators are is concrete here */
//@ harness argv_split property=C32 unwind=14 matrix=PAT:0-31 thorough.matrix=PAT:0-127 D=SP:0 D=VP_SLOTS:2 D=LEN:5 timeout=200 bounds=lines-of-5(thorough:7)-characters-every-pattern-of-separators
#ifdef VP_H_argv_split
# if PAT > 31
#  undef LEN
#  define LEN 7
# endif
void argv_split(void)
{
    char *line = TIGHT(LEN + 1), **argv;
    unsigned int words = 0, argc = 77, at[LEN + 1], len[LEN + 1], k, i;
    bool in = false;

    for (k = 0; k < LEN; ++k) {
        bool sep = PAT >> k & 1;
        line[k] = sep ? "\t\r\n "[(k + SP) & 3] : (char)('A' + k);
        if (!sep && !in) {
            at[words] = k;
            len[words++] = 0;
        }
        in = !sep;
        if (in)
            len[words - 1]++;
    }
    line[LEN] = 0;
    vp_fail_mask = vp_u8() & 1;
    argv = bfdev_argv_split(&vp_alloc, line, &argc);
    VP_ASSERT((argv == NULL) == !!vp_fail_mask, "null exactly without memory");
    if (argv) {
        VP_ASSERT(argc == words, "number reported");
        VP_ASSERT(argv[words] == NULL, "list ends with null");
        for (i = 0; i < words; ++i) {
            for (k = 0; k < len[i]; ++k)
                VP_ASSERT(argv[i][k] == line[at[i] + k], "word");
            VP_ASSERT(argv[i][len[i]] == '\0', "word ends");
        }
        bfdev_argv_destroy(&vp_alloc, argv);
    }
    VP_ASSERT(!vp_live, "freed");
    VP_REACH("end");
}
#endif

/* vsnprintf answers anything the standard lets it answer */
//@ harness scn_len property=C32 unwind=4 bounds=any-size-any-result-of-vsnprintf
#ifdef VP_H_scn_len
static int printed;
static size_t given;
int vsnprintf(char *buf, size_t size, const char *fmt, va_list args)
{
    given = size;
    return printed;
}
void scn_len(void)
{
    static char buf[4];
    size_t size = vp_u32();
    int got;

    if (vp_bool())
        size &= 7;
    VP_ASSUME(size <= INT_MAX);
    printed = (int)vp_u32();
    got = bfdev_scnprintf(buf, size, "x");
    if (!size)
        VP_ASSERT(got == 0, "nothing in no room");
    else {
        VP_ASSERT(given == size, "room passed on");
        if (printed < 0)
            VP_ASSERT(got <= 0, "failure is no text");
        else
            VP_ASSERT(got == (printed < (int)size ? printed : (int)size - 1), "characters written");
    }
    VP_REACH("end");
}
#endif

/* ------------------------------------------------------------------ C35 limits */
//@ harness rate_limit property=C35 unwind=6 timeout=400 bounds=4-calls-any-times-any-interval
#ifdef VP_H_rate_limit
void rate_limit(void)
{
    bfdev_ratelimit_t rl;
    bfdev_time_t interval = (bfdev_time_t)(vp_u64() >> 2), now = 0, begin = 0;
    unsigned int burst = vp_u32(), in = 0, missed = 0;
    bool ok;

    bfdev_ratelimit_init(&rl, interval, burst);
    /* a number of calls have been let through in the first period */
    now = (bfdev_time_t)(vp_u64() >> 3);
    VP_ASSUME(now > 0);
    if (interval && vp_bool()) {
        in = vp_u32();
        VP_ASSUME(in > 0 && in <= burst);
        rl.begin = begin = now;
        rl.passed = in;
    }
    for (int k = 0; k < 4; ++k) {
        bfdev_time_t step = (bfdev_time_t)(vp_u64() >> 4);
        now += step;
        if (!begin)
            begin = now;
        VP_ASSUME(now < INT64_MAX / 2);
        ok = bfdev_ratelimit(&rl, now);
        if (!interval) {
            VP_ASSERT(ok, "no limit without interval");
            continue;
        }
        if (now > begin + interval) {
            begin = now;
            in = 0;
        }
        VP_ASSERT(ok == (in < burst), "let through exactly while the period has not had its number");
        if (ok)
            in++;
        else
            missed++;
        VP_ASSERT(rl.missed == missed && rl.passed == in, "counters");
    }
    bfdev_ratelimit_reset(&rl);
    VP_ASSERT(bfdev_ratelimit(&rl, now) == (!interval || burst > 0), "fresh after reset");
    VP_REACH("end");
}
#endif

//@ harness token_bucket property=C35 unwind=6 matrix=IV:0/1/8/1024 timeout=400 bounds=2-calls-any-capacity-pauses-below-2^40-intervals-0-1-8-1024
#ifdef VP_H_token_bucket
void token_bucket(void)
{
    bfdev_tokenbucket_t tb;
    unsigned int cap = vp_u32(), missed = 0, passed = 0;
    bfdev_time_t now, last;
    uint64_t tokens = cap;
    bool ok;

    bfdev_tokenbucket_init(&tb, IV, cap);
    now = (bfdev_time_t)(vp_u64() >> 8);
    VP_ASSUME(now > 0);
    last = now;
    if (IV && vp_bool()) {      /* later in its life */
        uint32_t have = vp_u32();
        VP_ASSUME(have <= cap);
        tokens = have;
        tb.last = now;
        tb.current = have;
        now += vp_u64() >> 24;
    }
    for (int k = 0; k < 2; ++k) {
        uint64_t made = 0;
        ok = bfdev_tokenbucket(&tb, now);
        if (!IV) {
            VP_ASSERT(ok, "no limit without interval");
            continue;
        }
#if IV
        made = (uint64_t)(now - last) / IV;
#endif
        last += (bfdev_time_t)(made * IV);
        tokens = tokens + made > cap ? cap : tokens + made;
        VP_ASSERT(ok == (tokens > 0), "let through exactly while there are tokens");
        if (ok) {
            tokens--;
            passed++;
        } else
            missed++;
        VP_ASSERT(tb.current == tokens && tb.passed == passed && tb.missed == missed, "counters");
        now += vp_u64() >> 24;
    }
    VP_REACH("end");
}
#endif
