//@ property C13
//@ src src/memalloc.c src/list-debug.c
#include "vp.h"
#include <bfdev/config.h>
#include <bfdev/memalloc.h>
#include <bfdev/allocpool.h>
#include <bfdev/allocator.h>

#define HDR sizeof(bfdev_memalloc_chunk_t)
#define MAXB 7
typedef bfdev_memalloc_chunk_t chunk;

/* Heaps in any state are sequences of used and free chunks, no two free ones side by side; L
   picks one. Negative: free. Sizes are multiples of 32, except that of the last chunk. */
static const short LAY[10][5] = {
    { -160 },
    { 32, -200 },
    { -96, 64, -40 },
    { 32, -64, 96, -70 },
    { 32, 74 },
    { -64, 32, -96, 64 },
    { 64, -64, 32, -160 },
    { 32, -128, 32 },
    { -32, 32, -32, 32, -32 },
    { 96, 32, -70 },
};
static char arena[512] __attribute__((aligned(64)));
#define BASE arena
static bfdev_memalloc_head_t M;
static chunk *C[5];
static unsigned int num;
static size_t total;

static void setup(void)
{
    size_t off = 0, avail = 0;
    unsigned int i;

    M.find = FIT == 0 ? bfdev_memalloc_first_fit : FIT == 1 ? bfdev_memalloc_best_fit : bfdev_memalloc_worst_fit;
    bfdev_list_head_init(&M.block_list);
    bfdev_list_head_init(&M.free_list);
    for (i = 0; i < 5; ++i) {
        int s = LAY[L][i];
        if (!s)
            break;
        C[i] = (chunk *)(BASE + off);
        C[i]->usize = s < 0 ? -s : s | 1;
        bfdev_list_add_prev(&M.block_list, &C[i]->block);
        if (s < 0) {
            avail += -s;
            if (ORD)
                bfdev_list_add_prev(&M.free_list, &C[i]->free);
            else
                bfdev_list_add(&M.free_list, &C[i]->free);
        } else
            bfdev_list_head_init(&C[i]->free);
        off += HDR + (s < 0 ? -s : s);
        num++;
    }
    total = off;
    M.avail = avail;
}

static size_t bo[MAXB], bs[MAXB];
static bool bu[MAXB];
static unsigned int nb;
static bfdev_list_head_t *fn[MAXB + 1], *fp[MAXB + 1], *fa[MAXB + 1];
/* reads the heap back, and checks that it is sound (loads at constant addresses only) */
static void sound(void)
{
    bfdev_list_head_t *w = &M.block_list, *next = M.block_list.next;
    size_t off, cur = 0, avail = 0;
    unsigned int i, k, nfree = 0, f = 0;

    nb = 0;
    for (off = 0; off < total; off += 8) {
        chunk *c = (chunk *)(BASE + off);
        if (off != cur)
            continue;
        VP_ASSERT(nb < MAXB && next == &c->block && c->block.prev == w, "chunks follow each other without gap or overlap");
        VP_ASSUME(nb < MAXB);
        w = &c->block;
        next = c->block.next;
        bo[nb] = off;
        bs[nb] = c->usize & ~(size_t)1;
        bu[nb] = c->usize & 1;
        VP_ASSERT(bs[nb] <= total - off - HDR, "inside the array");
        VP_ASSUME(bs[nb] <= total - off - HDR);
        cur = off + HDR + bs[nb];
        if (!bu[nb]) {
            fa[nfree] = &c->free;
            fn[nfree] = c->free.next;
            fp[nfree] = c->free.prev;
            nfree++;
            avail += bs[nb];
            VP_ASSERT(!nb || bu[nb - 1], "free chunks side by side are one");
        } else
            VP_ASSERT(c->free.next == &c->free, "a used chunk is not on the free list");
        nb++;
    }
    VP_ASSERT(cur == total && next == &M.block_list && M.block_list.prev == w, "chunks cover the array");
    w = &M.free_list;
    next = M.free_list.next;
    for (k = 0; k < MAXB; ++k) {
        unsigned int j = MAXB;
        if (next == &M.free_list)
            break;
        for (i = 0; i < MAXB; ++i)
            if (i < nfree && fa[i] == next)
                j = i;
        VP_ASSERT(j < MAXB && fp[j] == w, "the free list holds free chunks, linked both ways");
        VP_ASSUME(j < MAXB);
        w = fa[j];
        next = fn[j];
        f++;
    }
    VP_ASSERT(next == &M.free_list && M.free_list.prev == w && f == nfree, "the free list holds every free chunk once");
    VP_ASSERT(M.avail == avail, "the free bytes are counted right");
}
static int at(size_t off)
{
    int r = -1;
    for (unsigned int i = 0; i < MAXB; ++i)
        if (i < nb && bo[i] == off)
            r = i;
    return r;
}
/* used chunks other than skip are where they were, with what was in them */
static uint8_t fill(unsigned int i, size_t k) { return (uint8_t)(i * 67 + k * 13 + 7); }
static void paint(void)
{
    for (unsigned int i = 0; i < num; ++i)
        if (LAY[L][i] > 0)
            for (int k = 0; k < LAY[L][i]; ++k)
                C[i]->data[k] = fill(i, k);
}
static void kept(int skip)
{
    for (unsigned int i = 0; i < num; ++i)
        if (LAY[L][i] > 0 && (int)i != skip) {
            size_t off = (char *)C[i] - BASE;
            int b = at(off);
            VP_ASSERT(b >= 0 && bu[b] && bs[b] == (size_t)LAY[L][i], "another block keeps its place and size");
            for (int k = 0; k < LAY[L][i]; ++k)
                VP_ASSERT((uint8_t)BASE[off + HDR + k] == fill(i, k), "another block keeps its contents");
        }
}
static bool fits(size_t size)
{
    for (unsigned int i = 0; i < num; ++i)
        if (LAY[L][i] < 0 && (size_t)-LAY[L][i] >= ((size + 31) & ~(size_t)31))
            return true;
    return false;
}

//@ harness ma_alloc unwind=300 unwindset=bfdev_memalloc_first_fit.0:5,bfdev_memalloc_best_fit.0:5,bfdev_memalloc_worst_fit.0:5 object_bits=6 matrix=L:2/5/8,FIT:0-2,ORD:0 thorough.matrix=L:0-9,FIT:0-2,ORD:0-1 timeout=300 bounds=heap-states-of-up-to-5-chunks,any-request
#ifdef VP_H_ma_alloc
void ma_alloc(void)
{
    size_t size, off;
    char *p;
    int b;

    setup();
    paint();
    size = vp_bool() ? vp_range(1, 256) : vp_u64();
    VP_ASSUME(size);
    p = bfdev_memalloc_alloc(&M, size);
    sound();
    kept(-1);
    VP_ASSERT(!!p == (size <= 4096 && fits(size)), "granted exactly if a free chunk is large enough");
    if (p) {
        off = p - BASE - HDR;
        b = at(off);
        VP_ASSERT(b >= 0 && bu[b] && bs[b] >= size, "a used block, as large as asked for");
        for (unsigned int i = 0; i < num; ++i)
            VP_ASSERT(LAY[L][i] < 0 || off != (size_t)((char *)C[i] - BASE), "a block that nobody has");
        /* which one: the first on the free list, the smallest that fits, the largest */
        int pick = -1;
        for (unsigned int k = 0; k < num; ++k) {
            unsigned int i = ORD ? k : num - 1 - k;
            if (LAY[L][i] > 0 || (size_t)-LAY[L][i] < ((size + 31) & ~(size_t)31))
                continue;
            if (pick < 0 || (FIT == 1 && -LAY[L][i] < -LAY[L][pick]) || (FIT == 2 && -LAY[L][i] > -LAY[L][pick]))
                pick = i;
        }
        for (unsigned int i = 0; i < num; ++i)
            if (off == (size_t)((char *)C[i] - BASE))
                VP_ASSERT(FIT ? LAY[L][i] == LAY[L][pick] : (int)i == pick, "the chunk that the strategy picks");
    }
    VP_REACH("end");
}
#endif

//@ harness ma_free unwind=300 extra=--max-field-sensitivity-array-size,1024 object_bits=6 matrix=L:3/6/8,FIT:0,W:0-3,ORD:0 thorough.matrix=L:1-9,FIT:0,W:0-3,ORD:0-1 timeout=300 bounds=heap-states-of-up-to-5-chunks,any-used-block-freed
#ifdef VP_H_ma_free
void ma_free(void)
{
    int b;
    setup();
    paint();
    if (LAY[L][W] > 0) {
        bfdev_memalloc_free(&M, C[W]->data);
        sound();
        kept(W);
        b = at((char *)C[W] - BASE);
        VP_ASSERT(b < 0 || !bu[b], "freed");
    }
    VP_REACH("end");
}
#endif

/* SZ 0: any new size, with the search for another chunk coming up empty; else that size */
//@ harness ma_realloc unwind=300 extra=--max-field-sensitivity-array-size,1024 unwindset=bfdev_memalloc_first_fit.0:5,sound.1:8,sound.2:8 object_bits=6 matrix=L:3/6,FIT:0,W:0-2,ORD:0,SZ:33/64/97/200 thorough.matrix=L:1-9,FIT:0,W:0-3,ORD:0,SZ:1/32/33/40/64/65/96/97/128/129/160/192/200/256 timeout=400 bounds=heap-states-of-up-to-5-chunks,any-used-block,new-sizes-around-each-limit,any-contents
//@ harness ma_resize unwind=300 extra=--max-field-sensitivity-array-size,1024 unwindset=bfdev_memalloc_first_fit.0:5,sound.1:8,sound.2:8 object_bits=6 matrix=L:3/6,FIT:0,W:0-1,ORD:0,SZ:0 thorough.matrix=L:1-9,FIT:0,W:0-3,ORD:0,SZ:0 timeout=400 entry=ma_realloc bounds=heap-states-of-up-to-5-chunks,any-used-block,any-new-size-in-place
#if defined(VP_H_ma_realloc) || defined(VP_H_ma_resize)
static chunk *find_none(bfdev_memalloc_head_t *head, size_t size) { return NULL; }

void ma_realloc(void)
{
    size_t size, off, own = 0;
    uint8_t data[100];
    char *p;
    int b;

    setup();
    paint();
    if (LAY[L][W] > 0) {
        bool tail = W + 1 < (int)num && LAY[L][W + 1] < 0;
        size_t old = LAY[L][W], up;
        size = SZ ? SZ : vp_bool() ? vp_range(1, 300) : vp_u64();
        VP_ASSUME(size);
        if (!SZ)
            M.find = find_none;
        for (size_t k = 0; k < old; ++k)
            C[W]->data[k] = data[k] = SZ ? vp_u8() : 1;
        up = (size + 31) & ~(size_t)31;
        own = (char *)C[W] - BASE;
        p = bfdev_memalloc_realloc(&M, C[W]->data, size);
        sound();
        kept(W);
        VP_ASSERT(!!p == (size <= old || (size <= 4096 && ((SZ && fits(size)) ||
            (tail && up - old <= HDR + (size_t)-LAY[L][W + 1])))), "granted exactly if it fits in place or elsewhere");
        off = p ? (size_t)(p - BASE - HDR) : own;
        b = at(off);
        VP_ASSERT(b >= 0 && bu[b] && bs[b] >= (p && size > old ? size : old), "a used block, as large as asked for");
        if (p && size <= old)
            VP_ASSERT(off == own, "a block that is large enough stays");
        for (int i = 0; i < (int)num; ++i)
            VP_ASSERT(LAY[L][i] < 0 || i == W || off != (size_t)((char *)C[i] - BASE), "a block that nobody else has");
        for (size_t k = 0; k < old; ++k)
            if (SZ && k < size)
                VP_ASSERT((uint8_t)BASE[off + HDR + k] == data[k], "contents kept");
        if (off != own) {
            b = at(own);
            VP_ASSERT(b < 0 || !bu[b], "the old block is freed");
        }
    }
    VP_REACH("end");
}
#endif

//@ harness ma_init unwind=300 extra=--max-field-sensitivity-array-size,1024 object_bits=6 matrix=L:0,FIT:0,ORD:0,SZ:64/72/101/128/300/504 bounds=array-sizes
#ifdef VP_H_ma_init
void ma_init(void)
{
    bfdev_memalloc_init(&M, bfdev_memalloc_best_fit, arena, SZ);
    total = SZ & ~1;
    sound();
    VP_ASSERT(nb == 1 && !bu[0] && M.find == bfdev_memalloc_best_fit, "all free");
    VP_REACH("end");
}
#endif

//@ harness pool unwind=6 matrix=L:0,FIT:0,ORD:0,SH:0/1/3/8 bounds=3-requests-of-any-size-and-alignment-up-to-64
#ifdef VP_H_pool
void pool(void)
{
    bfdev_allocpool_t p;
    size_t sz[3], al[3], end = 0, psize = vp_range(0, 200);
    char *r[3];
    bool none;

    bfdev_allocpool_init(&p, arena + SH, psize);
    for (int i = 0; i < 3; ++i) {
        sz[i] = vp_bool() ? vp_range(0, 200) : vp_u64();
        al[i] = vp_range(0, 64);
        VP_ASSUME(!(al[i] & (al[i] - 1)));
        r[i] = bfdev_allocpool_alloc(&p, sz[i], al[i]);
        size_t a = al[i] > 8 ? al[i] : 8;
        size_t start = ((SH + end + a - 1) & ~(a - 1)) - SH;
        none = !sz[i] || start > psize || sz[i] > psize - start;
        VP_ASSERT(!r[i] == none, "granted exactly if it fits behind the last one");
        if (!none) {
            VP_ASSERT(r[i] == arena + SH + start, "aligned, behind the blocks before it");
            end = start + sz[i];
        }
    }
    int n = !!r[0] + !!r[1] + !!r[2];
    VP_ASSERT(p.count == (unsigned long)n, "blocks are counted");
    for (int i = 0; i < n; ++i) {
        VP_ASSERT(p.last == end, "the space is back once every block is freed, not before");
        bfdev_allocpool_free(&p, arena);
    }
    VP_ASSERT(!n || !p.last, "the space is back once every block is freed");
    VP_REACH("end");
}
#endif

/* The front end hands each request to the allocator it was given. */
//@ harness front unwind=4 matrix=L:0,FIT:0,ORD:0,OPS:0-15,ESZ:0/1/8/100 thorough.matrix=L:0,FIT:0,ORD:0,OPS:0-15,ESZ:0/1/3/8/24/100/1000000 bounds=any-request,every-subset-of-operations-given
#ifdef VP_H_front
static int hit;
static void *seen_data;
static size_t seen_size;
static void *seen_blk;
static void *my_alloc(size_t size, void *d) { hit |= 1; seen_size = size; seen_data = d; return arena + 1; }
static void *my_zalloc(size_t size, void *d) { hit |= 2; seen_size = size; seen_data = d; return arena + 2; }
static void *my_realloc(void *b, size_t size, void *d) { hit |= 4; seen_blk = b; seen_size = size; seen_data = d; return arena + 4; }
static void my_free(void *b, void *d) { hit |= 8; seen_blk = b; seen_data = d; }

void front(void)
{
    bfdev_alloc_ops_t ops = { OPS & 1 ? my_alloc : NULL, OPS & 2 ? my_zalloc : NULL,
        OPS & 4 ? my_realloc : NULL, OPS & 8 ? my_free : NULL };
    bfdev_alloc_t al = BFDEV_ALLOC_INIT(&ops, &hit);
    uint64_t size = ESZ, nr = vp_u64();
    bool ovf = nr && size > (size_t)-1 / nr;
    bool small = !ovf && size * nr <= 16;
    char *p;

    /* no request of nothing ever reaches an allocator, nor one that overflows */
    hit = 0; seen_size = 0;
    if ((OPS & 1) || small) {
        p = bfdev_malloc_array(&al, nr, size);
        if (ovf || !(nr * size))
            VP_ASSERT(!p && !hit, "refused");
        else if (OPS & 1)
            VP_ASSERT(p == arena + 1 && hit == 1 && seen_size == nr * size && seen_data == &hit, "handed on");
        else {
            VP_ASSERT(!hit, "default");
            if (p) { p[0] = p[nr * size - 1] = 1; free(p); }
        }
    }
    hit = 0; seen_size = 0;
    if ((OPS & 2) || small) {
        p = bfdev_zalloc_array(&al, nr, size);
        if (ovf || !(nr * size))
            VP_ASSERT(!p && !hit, "refused");
        else if (OPS & 2)
            VP_ASSERT(p == arena + 2 && hit == 2 && seen_size == nr * size && seen_data == &hit, "handed on");
        else {
            VP_ASSERT(!hit && (!p || (!p[0] && !p[nr * size - 1])), "default");
            if (p) free(p);
        }
    }
    if (OPS & 4) {
        hit = 0; seen_blk = NULL;
        if ((OPS & 8) || nr * size || ovf) {
            p = bfdev_realloc_array(&al, arena + 9, nr, size);
            if (ovf)
                VP_ASSERT(!p && !hit, "refused");
            else if (!(nr * size))
                VP_ASSERT(!p && hit == 8 && seen_blk == arena + 9, "a new size of nothing frees");
            else
                VP_ASSERT(p == arena + 4 && hit == 4 && seen_blk == arena + 9 && seen_size == nr * size && seen_data == &hit, "handed on");
        }
        hit = 0;
        if (OPS & 1) {
            p = bfdev_realloc_array(&al, NULL, nr, size);
            VP_ASSERT(ovf || !(nr * size) ? !p && !hit : p == arena + 1 && hit == 1 && seen_size == nr * size, "no block yet allocates");
        }
    } else if (small && nr * size) {
        char *q = malloc(2);
        VP_ASSUME(q);
        q[0] = 5;
        hit = 0;
        p = bfdev_realloc(&al, q, nr * size);
        VP_ASSERT(!hit && (!p || p[0] == 5), "default keeps the contents");
        free(p ? p : q);
    }
    if (OPS & 8) {
        hit = 0;
        bfdev_free(&al, NULL);
        VP_ASSERT(!hit, "freeing nothing does nothing");
        bfdev_free(&al, arena + 3);
        VP_ASSERT(hit == 8 && seen_blk == arena + 3 && seen_data == &hit, "handed on");
    }
    VP_REACH("end");
}
#endif
