/* Transfers beyond the reach of an int: more elements, or more bytes, than INT_MAX, and strides above it (P01, P02). */
#include "hc.h"
#include "rma_forms.h"
#define G 64                    /* guard bytes */
static inline uint64_t pat(uint64_t i, uint64_t k) { return (i + 1) * 0x9e3779b97f4a7c15ull ^ (k * 0xd1342543de82ef95ull); }

static void fill(void *p, size_t bytes, uint64_t k)
{
    uint64_t *w = p;
    for (size_t i = 0; i < bytes / 8; i++)
        w[i] = pat(i, k);
    hc_tick("fill");
}

static size_t differ(const void *p, size_t bytes, uint64_t k)
{
    const uint64_t *w = p;
    for (size_t i = 0; i < bytes / 8; i++)
        if (w[i] != pat(i, k))
            return i * 8 + 1;
    hc_tick("compare");
    return 0;
}

static void guards(const unsigned char *blk, size_t bytes, const char *what)
{
    for (int i = 0; i < G; i++)
        if (blk[i] != 0xa5 || blk[G + bytes + i] != 0xa5)
            FAIL("huge-guard", "PE %d: %s of %zu bytes changed memory next to its destination", hc_me, what, bytes);
}

static form_t *pick(rng_t * r, int put)
{
    for (;;) {
        form_t *f = &forms[rndn(r, (uint64_t) nforms)];
        if (f->vs != f->es && f->vs)
            continue;
        if (f->ctx || (f->es != 1 && f->es != 2 && f->es != 8))
            continue;
        if (put ? f->k == F_PUT || f->k == F_PUTNBI : f->k == F_GET || f->k == F_GETNBI)
            return f;
    }
}

SCENARIO(huge)
{
    size_t bytes = (size_t) hc_arg("bytes", (1l << 31) + 8 * 513);
    shmem_init();
    hc_attach();
    int put = (int) hc_arg("put", 1), get = (int) hc_arg("get", 1), str = (int) hc_arg("str", 1);
    rng_t all = rng_of(0, 4242);
    unsigned char *blk = shmem_malloc(bytes + 2 * G), *mine = NULL;
    int last = hc_np - 1, self = (int) hc_arg("self", 0), to = self ? 0 : last;
    if (!blk)
        FAIL("huge-alloc", "PE %d: no block of %zu bytes from a heap of %ld", hc_me, bytes, hc_arg("heap", 0));
    unsigned char *h = blk + G;
    if (hc_me == 0 && (put || get)) {
        mine = malloc(bytes + 2 * G);
        memset(mine, 0xa5, G);
        memset(mine + G + bytes, 0xa5, G);
    }
    if (hc_me == to) {
        memset(blk, 0xa5, G);
        memset(h + bytes, 0xa5, G);
    }
    for (int round = 0; round < (put || get ? 2 : 0); round++) {
        form_t *f = pick(&all, 1), *g = pick(&all, 0);
        size_t n = bytes / (size_t) f->es;
        if (!put)
            goto gets;
        if (hc_me == 0)
            fill(mine + G, bytes, (uint64_t) round * 2);
        hc_barrier_poll();
        hc_where(f->name, (long) n, to, 0);
        if (hc_me == 0) {
            f->fn(SHMEM_CTX_DEFAULT, h, mine + G, 1, 1, n, to);
            hc_tick("put");
            if (f->k == F_PUTNBI)
                shmem_quiet();
            hc_tick("quiet");
        }
        shmem_barrier_all();
        if (hc_me == to) {
            size_t at = differ(h, bytes, (uint64_t) round * 2);
            if (at)
                FAIL("huge-data", "%s of %zu elements to PE %d: wrong from byte %zu", f->name, n, to, at - 1);
            guards(blk, bytes, f->name);
        }
        STAT("transfers", 1);
        COVER(f - forms, self, n > INT32_MAX);
      gets:
        if (!get)
            continue;
        if (hc_me == to)
            fill(h, bytes, (uint64_t) round * 2 + 1);
        hc_barrier_poll();
        n = bytes / (size_t) g->es;
        hc_where(g->name, (long) n, to, 0);
        if (hc_me == 0) {
            g->fn(SHMEM_CTX_DEFAULT, mine + G, h, 1, 1, n, to);
            hc_tick("get");
            if (g->k == F_GETNBI)
                shmem_quiet();
            size_t at = differ(mine + G, bytes, (uint64_t) round * 2 + 1);
            if (at)
                FAIL("huge-data", "%s of %zu elements from PE %d: wrong from byte %zu", g->name, n, to, at - 1);
            guards(mine, bytes, g->name);
        }
        STAT("transfers", 1);
        COVER(g - forms, self, n > INT32_MAX);
        hc_barrier_poll();
    }
    /* a stride above INT_MAX */
    for (int round = 0; round < (str ? 2 : 0); round++) {
        ptrdiff_t st = (1l << 31) + rndr(&all, 0, 4000);
        unsigned char two[4] = { (unsigned char) (round * 4 + 10), 77, (unsigned char) (round * 4 + 11), 78 }, back[4] = { 1, 2, 3, 4 };
        if (hc_me == to) {
            memset(h, 0, 16);
            memset(h + st - 8, 0, 16);
        }
        shmem_barrier_all();
        if (hc_me == 0)
            shmem_uchar_iput(h, two, st, 2, 2, to);
        shmem_barrier_all();
        if (hc_me == to)
            for (int i = -8; i < 8; i++) {
                if (h[st + i] != (i ? 0 : two[2]))
                    FAIL("huge-stride", "iput with stride %ld to PE %d: byte %ld is %d", (long) st, to, (long) st + i, h[st + i]);
                if (i >= 0 && h[i] != (i ? 0 : two[0]))
                    FAIL("huge-stride", "iput with stride %ld to PE %d: byte %d is %d", (long) st, to, i, h[i]);
            }
        if (hc_me == 0) {
            shmem_uchar_iget(back, h, 3, st, 2, to);
            if (back[0] != two[0] || back[3] != two[2] || back[1] != 2 || back[2] != 3)
                FAIL("huge-stride", "iget with stride %ld from PE %d: got %d %d %d %d", (long) st, to, back[0], back[1], back[2], back[3]);
        }
        STAT("strides", 1);
        COVER(7, st, self);
        shmem_barrier_all();
    }
    free(mine);
    shmem_free(blk);
    hc_detach();
    shmem_finalize();
}
