/* The symmetric heap (P14): random collective allocation histories against a model allocator. */
#include "hc.h"
#define MAXPE 16
#define MAXB 64
typedef struct { int live; char *p; size_t n; uint64_t seed; } blk_t;
static blk_t B[MAXB];
static char *anchor;
static long heap, cnt, issued;
static struct { volatile long entered[MAXPE]; } *sh;
static long opno;
static int bad_layout;

static uint64_t pseed(uint64_t s, int pe) { return hc_mix(s * 16 + (uint64_t) pe); }
static void traffic(rng_t * r)
{
    int n = (int) rndn(r, 3);
    for (int i = 0; i < n; i++) {
        if (rndn(r, 2))
            shmem_long_atomic_fetch_add(&cnt, 1, (int) rndn(r, (uint64_t) hc_np));
        else
            shmem_long_atomic_add(&cnt, 1, (int) rndn(r, (uint64_t) hc_np));
        issued++;
    }
    if (rndn(r, 3) == 0)
        hc_jitter(r);
}
static void enter(void)
{
    opno++;
    __atomic_store_n(&sh->entered[hc_me], opno, __ATOMIC_SEQ_CST);
}
/* the call synchronised: every PE has entered it */
static void left(const char *what)
{
    for (int i = 0; i < hc_np; i++) {
        long e = __atomic_load_n(&sh->entered[i], __ATOMIC_SEQ_CST);
        if (e < opno)
            FAIL("heap-sync", "PE %d: %s returned before PE %d had called it", hc_me, what, i);
    }
    STAT("allocator_calls", 1);
}
/* all PEs agree on null, and on the offset */
static int same(char *p, const char *what, size_t n)
{
    long off = p ? (long) (p - anchor) : -0x7fffffffffffL;
    hc_barrier_poll();
    long mx = hc_max(off), mn = -hc_max(-off);
    if (mx != mn) {
        bad_layout = 1;
        FAIL("heap-symmetric", "PE %d: %s of %zu bytes gives offset %ld here and %ld..%ld elsewhere", hc_me, what, n, off, mn, mx);
        return 0;
    }
    return p != NULL;
}
static void placed(char *p, size_t n, size_t al, const char *what, const blk_t * except)
{
    if ((uintptr_t) p % al)
        FAIL("heap-align", "PE %d: %s of %zu bytes with alignment %zu gives %p", hc_me, what, n, al, p);
    for (int i = 0; i < MAXB; i++)
        if (B[i].live && &B[i] != except && p < B[i].p + B[i].n && B[i].p < p + n)
            FAIL("heap-overlap", "PE %d: %s gives [%ld,%ld) overlapping live block [%ld,%ld)", hc_me, what, (long) (p - anchor),
                 (long) (p - anchor + (long) n), (long) (B[i].p - anchor), (long) (B[i].p - anchor + (long) B[i].n));
    /* inside the heap: what every PE can reach */
    if (shmem_addr_accessible(p, hc_me) != 1 || shmem_addr_accessible(p + n - 1, (hc_me + 1) % hc_np) != 1)
        FAIL("heap-reach", "PE %d: %s gives %zu bytes at %ld that are not accessible to remote operations", hc_me, what, n, (long) (p - anchor));
}
static unsigned char *buf;
/* the left neighbour writes this block on its right neighbour with remote operations */
static void fill(blk_t * b, rng_t * r, const char *how)
{
    int t = (hc_me + 1) % hc_np;
    hc_fill(buf, b->n, pseed(b->seed, t));
    size_t o = 0;
    while (o < b->n) {
        size_t k = rndn(r, 3) ? b->n - o : 1 + rndn(r, b->n - o);
        switch (rndn(r, 4)) {
            case 0:
                shmem_putmem_nbi(b->p + o, buf + o, k, t);
                shmem_quiet();
                break;
            case 1:
                shmem_char_p(b->p + o, (char) buf[o], t);
                k = 1;
                break;
            default:
                shmem_putmem(b->p + o, buf + o, k, t);
        }
        o += k;
    }
    (void) how;
}
static void verify(const blk_t * b, size_t n, const char *when)
{
    hc_fill(buf, n, pseed(b->seed, hc_me));
    long d = hc_diff(b->p, buf, n);
    STAT("blocks_verified", 1);
    if (d >= 0)
        FAIL("heap-content", "PE %d: block [%ld,+%zu) changed at byte %ld (is %02x, was %02x) %s", hc_me, (long) (b->p - anchor), b->n, d,
             (unsigned char) b->p[d], buf[d], when);
}
static int pick(rng_t * g)
{
    int c[MAXB], n = 0;
    for (int i = 0; i < MAXB; i++)
        if (B[i].live)
            c[n++] = i;
    return n ? c[rndn(g, (uint64_t) n)] : -1;
}
static int freeslot(void)
{
    for (int i = 0; i < MAXB; i++)
        if (!B[i].live)
            return i;
    return -1;
}
static size_t rsize(rng_t * g)
{
    switch (rndn(g, 8)) {
        case 0: return 1 + rndn(g, 16);
        case 1: return 1 + rndn(g, (uint64_t) heap / 2);
        case 2: return 1 + rndn(g, (uint64_t) heap / 8);
        case 3: return (size_t) 1 << rndn(g, 14);
        case 4: return 4096 * (1 + rndn(g, 8)) - rndn(g, 64);
        default: return 1 + rndn(g, 3000);
    }
}
static size_t toobig(rng_t * g)
{
    switch (rndn(g, 7)) {
        case 0: return (size_t) heap + 8192 + rndn(g, 100000);
        case 1: return (size_t) heap * 2;
        case 2: return (size_t) 1 << (40 + rndn(g, 23));
        case 3: return (size_t) -1 - rndn(g, 200);
        case 4: return (size_t) heap + ((size_t) 4 << 32);
        case 5: return ((size_t) 1 << 63) + rndn(g, 5000);
        default: return (size_t) heap * 4 + rndn(g, 1 << 20);
    }
}
static void newblock(int k, char *p, size_t n, rng_t * g)
{
    B[k].live = 1;
    B[k].p = p;
    B[k].n = n;
    B[k].seed = rnd(g);
}
static void all_free(rng_t * g, rng_t * r)
{
    int k;
    while ((k = pick(g)) >= 0) {
        verify(&B[k], B[k].n, "before the final frees");
        traffic(r);
        enter();
        shmem_free(B[k].p);
        left("shmem_free");
        B[k].live = 0;
    }
}
/* with everything freed the whole configured size can be had in one piece, twice, at the same place */
static void whole(const char *when, rng_t * r)
{
    enter();
    char *p = shmem_malloc((size_t) heap);
    left("shmem_malloc");
    if (!p) {
        FAIL("heap-size", "PE %d: a block of the configured heap size (%ld) is refused %s", hc_me, heap, when);
        return;
    }
    blk_t b = { 1, p, (size_t) heap, 77 };
    anchor = anchor ? anchor : p;
    if (same(p, "shmem_malloc", b.n)) {
        placed(p, b.n, 16, "shmem_malloc", NULL);
        fill(&b, r, "whole");
        shmem_barrier_all();
        verify(&b, b.n, "whole heap");
    }
    hc_barrier();
    enter();
    shmem_free(p);
    left("shmem_free");
}
SCENARIO(heap)
{
    int rounds = (int) hc_arg("rounds", 120), bigalign = (int) hc_arg("bigalign", 0);
    heap = hc_arg("heap", 1 << 18);
    sh = hc_shared(sizeof *sh);
    shmem_init();
    hc_attach();
    rng_t g = rng_of(1, 0), r = rng_of(2, (uint64_t) hc_me);
    buf = malloc((size_t) heap + 64);
    whole("at the start", &r);
    for (long rd = 0; rd < rounds && !bad_layout; rd++) {
        hc_where("heap round", rd, 0, 0);
        int act = (int) rndn(&g, 16), k = pick(&g), s = freeslot();
        if (s < 0)
            act = 10;
        if (k < 0 && act >= 8 && act < 14)
            act = 0;
        size_t n = rsize(&g);
        if (act < 8) {
            /* allocate */
            char *p = NULL;
            size_t al = 16;
            const char *what = "shmem_malloc";
            int early = (int) rndn(&g, 2), zero = 0, big = rndn(&g, 10) == 0;
            if (big)
                n = toobig(&g);
            if (rndn(&r, 2))
                traffic(&r);
            enter();
            if (act < 2)
                p = shmem_malloc(n);
            else if (act < 3) {
                what = "shmem_malloc_with_hints";
                p = shmem_malloc_with_hints(n, rndn(&g, 2) ? SHMEM_MALLOC_ATOMICS_REMOTE : 0);
            } else if (act < 5) {
                size_t c = 1 + rndn(&g, 9), e = n / c;
                what = "shmem_calloc";
                if (!big) {
                    e = e ? e : 1;
                    n = c * e;
                } else if (rndn(&g, 2)) {
                    /* the product wraps to something small */
                    int k = 1 + (int) rndn(&g, 36);
                    e = (size_t) 1 << k;
                    c = ((size_t) 1 << (64 - k)) + 1 + rndn(&g, 3);
                    if (rndn(&g, 2)) {
                        size_t x = c;
                        c = e;
                        e = x;
                    }
                } else {
                    c = 1;
                    e = n;
                }
                zero = 1;
                p = shmem_calloc(c, e);
            } else if (act < 7) {
                al = (size_t) 8 << rndn(&g, 10);
                if (bigalign && rndn(&g, 2))
                    al = (size_t) 8192 << rndn(&g, 4);
                what = "shmem_align";
                p = shmem_align(al, n);
            } else {
                what = "shmem_realloc(NULL)";
                p = shmem_realloc(NULL, n);
            }
            left(what);
            if (big && p)
                FAIL("heap-too-big", "PE %d: %s of %zu bytes on a heap of %ld gives %p", hc_me, what, n, heap, p);
            /* without waiting for anyone the neighbour's new block can be written */
            if (p && !big) {
                newblock(s, p, n, &g);
                int ok = 1;
                if (zero && rndn(&g, 2)) {
                    for (size_t i = 0; i < n && ok; i++)
                        if (p[i]) {
                            FAIL("heap-zero", "PE %d: byte %zu of %zu from shmem_calloc is %02x", hc_me, i, n, (unsigned char) p[i]);
                            ok = 0;
                        }
                    hc_barrier();
                    early = 0;
                }
                if (early)
                    fill(&B[s], &r, "early");
                if (!same(p, what, n)) {
                    B[s].live = 0;
                    continue;
                }
                placed(p, n, al, what, &B[s]);
                if (!early)
                    fill(&B[s], &r, "late");
                shmem_barrier_all();
                verify(&B[s], n, "right after it was written");
            } else {
                same(p, what, n);
                if (p)
                    break;
                STAT("refused", 1);
            }
            COVER(1, act, big, p != NULL, n < 64 ? n : 64 + __builtin_clzl(n), al, early);
        } else if (act < 12) {
            /* free, with updates to the block still on their way */
            verify(&B[k], B[k].n, "before it was freed");
            hc_barrier();
            if (rndn(&g, 2)) {
                shmem_putmem_nbi(B[k].p, buf, B[k].n, (hc_me + 1) % hc_np);
                COVER(2, 1, B[k].n);
            }
            traffic(&r);
            enter();
            if (rndn(&g, 12) == 0)
                shfree(B[k].p);
            else
                shmem_free(B[k].p);
            left("shmem_free");
            B[k].live = 0;
        } else if (act < 14) {
            /* resize; updates of the contents may still be on their way */
            size_t o = B[k].n;
            int how = (int) rndn(&g, 8);
            if (how == 0)
                n = toobig(&g);
            else if (how < 3)
                n = 1 + rndn(&g, o);
            else if (how < 5)
                n = o + rndn(&g, o + 64);
            else if (how == 5)
                n = 0;
            blk_t old = B[k];
            verify(&old, o, "before it was resized");
            hc_barrier();
            B[k].seed = rnd(&g);
            fill(&B[k], &r, "pending");         /* not completed: the resize waits for everyone */
            if (rndn(&r, 2))
                hc_jitter(&r);
            traffic(&r);
            enter();
            char *p = shmem_realloc(B[k].p, n);
            left("shmem_realloc");
            if (how == 0 && p)
                FAIL("heap-too-big", "PE %d: shmem_realloc to %zu bytes on a heap of %ld gives %p", hc_me, n, heap, p);
            if (n == 0) {
                /* the block is freed */
                B[k].live = 0;
                if (p) {
                    FAIL("heap-realloc0", "PE %d: shmem_realloc to size 0 gives a block", hc_me);
                    shmem_free(p);
                }
            } else if (!p) {
                same(p, "shmem_realloc", n);
                verify(&B[k], o, "after its resizing was refused");
                STAT("refused", 1);
            } else if (how) {
                if (!same(p, "shmem_realloc", n))
                    continue;
                B[k].p = p;
                B[k].n = n;
                placed(p, n, 16, "shmem_realloc", &B[k]);
                verify(&B[k], n < o ? n : o, "after resizing");
                hc_barrier();
                fill(&B[k], &r, "resized");
                shmem_barrier_all();
                verify(&B[k], n, "after resizing and filling");
            }
            COVER(3, how, n < 64 ? n : 64 + __builtin_clzl(n | 1), o < 64 ? o : 64 + __builtin_clzl(o), p == old.p);
        } else if (act == 14) {
            /* nothing to do */
            if (shmem_malloc(0) || shmem_calloc(0, n) || shmem_calloc(n, 0) || shmem_realloc(NULL, 0))
                FAIL("heap-null", "PE %d: an allocation of size 0 gives a block", hc_me);
            enter();
            shmem_free(NULL);
        } else {
            /* exhaust: fill up with equal blocks until refused */
            size_t e = (size_t) heap / (6 + rndn(&g, 12)) + 1;
            int got = 0;
            while ((s = freeslot()) >= 0) {
                enter();
                char *p = shmem_malloc(e);
                left("shmem_malloc");
                uint64_t sd = rnd(&g);
                if (!same(p, "shmem_malloc", e))
                    break;
                B[s].live = 1;
                B[s].p = p;
                B[s].n = e;
                B[s].seed = sd;
                placed(p, e, 16, "shmem_malloc", &B[s]);
                fill(&B[s], &r, "exhaust");
                shmem_barrier_all();
                got++;
                if ((long) got * (long) e > heap + 65536)
                    FAIL("heap-too-big", "PE %d: %d blocks of %zu bytes given out by a heap of %ld", hc_me, got, e, heap);
            }
            COVER(4, got, e);
        }
        for (int i = 0; i < 2; i++)
            if ((k = pick(&r)) >= 0)
                verify(&B[k], B[k].n, "while other blocks came and went");
        hc_barrier();
        hc_tick("heap");
    }
    if (bad_layout) {
        /* nothing after this can be relied on */
        hc_done();
        fflush(NULL);
        hc_barrier();
        _exit(0);
    }
    all_free(&g, &r);
    whole("after everything was freed", &r);
    shmem_barrier_all();
    hc_barrier();
    long v = shmem_long_atomic_fetch(&cnt, hc_me), tot = hc_sum(issued), have = hc_sum(v);
    if (tot != have)
        FAIL("heap-traffic", "PE %d: %ld atomic increments issued around the allocations, %ld counted", hc_me, tot, have);
    hc_detach();
    shmem_finalize();
    hc_done();
}
