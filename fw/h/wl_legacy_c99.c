/* A program of the time before C11 (P23): compiled as C99, start_pes, deprecated names and constants only. */
#include "hc.h"
#ifdef HC_NO_LEGACY
SCENARIO(legacy)
{
    shmem_init();
    FAIL("legacy-compile", "a pre-C11 program with the deprecated names does not compile");
    shmem_finalize();
}
#else
static long pSync[4][_SHMEM_BARRIER_SYNC_SIZE + _SHMEM_BCAST_SYNC_SIZE + _SHMEM_COLLECT_SYNC_SIZE + _SHMEM_REDUCE_SYNC_SIZE + 4];
static long pWrk[_SHMEM_REDUCE_MIN_WRKDATA_SIZE + 8];
static long flag, twin[2], src[64], dst[1024];
static int iflag;
static short sflag;
static long long qflag;
static long *arr, *late;
#define SAME(a, b) do { STAT("twins_compared", 1); if ((long) (a) != (long) (b)) FAIL("legacy-constant", "%s is %ld, %s is %ld", #a, (long) (a), #b, (long) (b)); } while (0)

/* all names of waiting for a change: none may return before it, each must after */
static void waits(rng_t * g, int k)
{
    int w = k % 6, to = (hc_me + 1) % _num_pes(), from = (hc_me + _num_pes() - 1) % _num_pes();
    long v = 5 + (long) rndn(g, 1000);
    long *told = &late[k * hc_np];
    /* any old value, negative ones too, known to every PE */
    long old = rndn(g, 3) ? -(long) rndn(g, 32000) - 1 : (long) rndn(g, 3);
    flag = iflag = (int) old, sflag = (short) old, qflag = old;
    shmem_barrier_all();
    if (rndn(g, 2))
        hc_jitter(g);
    __atomic_store_n(&told[hc_me], v, __ATOMIC_SEQ_CST);
    switch (w) {
        case 0: case 1: case 2: shmem_long_p(&flag, v, to); break;
        case 3: shmem_int_p(&iflag, (int) v, to); break;
        case 4: shmem_short_p(&sflag, (short) v, to); break;
        case 5: shmem_longlong_p(&qflag, v, to); break;
    }
    shmem_quiet();
    switch (w) {
        case 0: shmem_wait(&flag, old); break;
        case 1: shmem_wait_until(&flag, _SHMEM_CMP_GT, 4); break;
        case 2: shmem_long_wait(&flag, old); break;
        case 3: shmem_int_wait(&iflag, (int) old); break;
        case 4: shmem_short_wait(&sflag, (short) old); break;
        case 5: shmem_longlong_wait(&qflag, old); break;
    }
    long want = __atomic_load_n(&told[from], __ATOMIC_SEQ_CST), got = w < 3 ? flag : w == 3 ? iflag : w == 4 ? sflag : (long) qflag;
    STAT("waits", 1);
    COVER(1, w);
    if (got != want || !want)
        FAIL("legacy-wait", "PE %d: wait number %d returned with %ld, the peer put %ld", hc_me, w, got, want);
    shmem_barrier_all();
}
static void sets(rng_t * g, int k)
{
    int s = (int) rndn(g, (uint64_t) hc_np), l = (int) rndn(g, 2), z = 1 + (int) rndn(g, (uint64_t) ((hc_np - 1 - s) >> l) + 1);
    int w = (int) rndn(g, 6), pos = (hc_me - s) >> l, in = hc_me >= s && (hc_me - s) % (1 << l) == 0 && pos < z;
    if (z > ((hc_np - 1 - s) >> l) + 1)
        z = ((hc_np - 1 - s) >> l) + 1, in = in && pos < z;
    long sd = (long) rndn(g, 1000), bad = 0;
    rng_t own = rng_of(141 + (uint64_t) k, (uint64_t) hc_me);
    memset(dst, 0, sizeof dst);
    for (int i = 0; i < 64; i++)
        src[i] = sd + 100 * hc_me + i;
    shmem_barrier_all();
    if (in) {
        if (rndn(&own, 3) == 0)
            hc_jitter(&own);
        __atomic_fetch_add(&arr[k], 1, __ATOMIC_SEQ_CST);
        STAT("collectives", 1);
        COVER(2, w, z, s, l);
        switch (w) {
            case 0:
            case 1:
                if (w == 0)
                    shmem_sync(s, l, z, pSync[0]);
                else
                    shmem_barrier(s, l, z, pSync[0]);
                bad = __atomic_load_n(&arr[k], __ATOMIC_SEQ_CST) != z;
                break;
            case 2:
                shmem_broadcast64(dst, src, 5, z - 1, s, l, z, pSync[0]);
                if (pos != z - 1)
                    for (int i = 0; i < 5; i++)
                        bad |= dst[i] != sd + 100 * (s + ((z - 1) << l)) + i;
                break;
            case 3:
                shmem_fcollect64(dst, src, 4, s, l, z, pSync[0]);
                for (int p = 0; p < z; p++)
                    for (int i = 0; i < 4; i++)
                        bad |= dst[4 * p + i] != sd + 100 * (s + (p << l)) + i;
                break;
            case 4:
                shmem_long_max_to_all(dst, src, 3, s, l, z, pWrk, pSync[0]);
                for (int i = 0; i < 3; i++)
                    bad |= dst[i] != sd + 100 * (s + ((z - 1) << l)) + i;
                break;
            case 5:
                shmem_collect64(dst, src, (size_t) (1 + pos), s, l, z, pSync[0]);
                for (int p = 0, o = 0; p < z; p++)
                    for (int i = 0; i <= p; i++, o++)
                        bad |= dst[o] != sd + 100 * (s + (p << l)) + i;
                break;
        }
        if (bad)
            FAIL("legacy-coll", "PE %d: collective %d on the set (%d,%d,%d) is wrong in a C99 program", hc_me, w, s, l, z);
    }
    shmem_barrier_all();
}
static void memory(rng_t * g)
{
    size_t n = 64 + 8 * rndn(g, 500), a = (size_t) 16 << rndn(g, 6), m = 64 + 8 * rndn(g, 900);
    char *p = (char *) shmalloc(n), *q = (char *) shmemalign(a, n);
    STAT("blocks", 2);
    if (!p || !q || (uintptr_t) q % a) {
        FAIL("legacy-heap", "PE %d: shmalloc(%zu) gives %p, shmemalign(%zu) %p", hc_me, n, (void *) p, a, (void *) q);
        return;
    }
    if (!shmem_addr_accessible(p, (hc_me + 1) % hc_np) || !shmem_pe_accessible(hc_np - 1))
        FAIL("legacy-heap", "PE %d: a shmalloc block is not accessible", hc_me);
    memset(p, 0x31, n);
    memset(q, 0x32, n);
    shmem_barrier_all();
    hc_fill(dst, 64, 7u + (uint64_t) hc_me);
    shmem_putmem(p, dst, 64, (hc_me + 1) % hc_np);
    shmem_barrier_all();
    p = (char *) shrealloc(p, m);
    if (!p)
        FAIL("legacy-heap", "PE %d: shrealloc(%zu) gives NULL", hc_me, m);
    else
        for (size_t i = 0; i < 64; i++)
            if ((unsigned char) p[i] != hc_byte(7u + (uint64_t) ((hc_me + hc_np - 1) % hc_np), i)) {
                FAIL("legacy-heap", "PE %d: byte %zu of a block that shrealloc moved is wrong", hc_me, i);
                break;
            }
    shmem_barrier_all();
    shfree(q);
    if (p)
        shfree(p);
}
/* deprecated atomics on one object, their successors on another */
static void atomics(rng_t * g)
{
    int to = (hc_me + 1) % hc_np;
    long v = (long) rndn(g, 50);
    twin[0] = twin[1] = 3;
    shmem_barrier_all();
    for (int i = 0; i < 12; i++) {
        long a = 0, b = 0, w = (long) rndn(g, 8);
        switch (w) {
            case 0: a = shmem_long_fadd(&twin[0], v, to), b = shmem_long_atomic_fetch_add(&twin[1], v, to); break;
            case 1: a = shmem_long_finc(&twin[0], to), b = shmem_long_atomic_fetch_inc(&twin[1], to); break;
            case 2: shmem_long_add(&twin[0], v, to), shmem_long_atomic_add(&twin[1], v, to); break;
            case 3: shmem_long_inc(&twin[0], to), shmem_long_atomic_inc(&twin[1], to); break;
            case 4: a = shmem_long_cswap(&twin[0], 3, v, to), b = shmem_long_atomic_compare_swap(&twin[1], 3, v, to); break;
            case 5: a = shmem_long_swap(&twin[0], v, to), b = shmem_long_atomic_swap(&twin[1], v, to); break;
            case 6: a = shmem_long_fetch(&twin[0], to), b = shmem_long_atomic_fetch(&twin[1], to); break;
            case 7: shmem_long_set(&twin[0], v, to), shmem_long_atomic_set(&twin[1], v, to); break;
        }
        STAT("twins_compared", 1);
        COVER(3, w);
        if (a != b)
            FAIL("legacy-atomic", "PE %d: deprecated atomic %ld returns %ld, its successor %ld", hc_me, w, a, b);
        shmem_quiet();
    }
    shmem_barrier_all();
    if (twin[0] != twin[1])
        FAIL("legacy-atomic", "PE %d: deprecated atomics leave %ld, their successors %ld", hc_me, twin[0], twin[1]);
    shmem_barrier_all();
}
static void caches(rng_t * g)
{
    long a = (long) rnd(g), b = a;
    src[0] = a;
    shmem_set_cache_inv();
    shmem_set_cache_line_inv(&src[0]);
    shmem_clear_cache_line_inv(&src[0]);
    shmem_udcflush();
    shmem_udcflush_line(&src[0]);
    shmem_clear_cache_inv();
    if (src[0] != b)
        FAIL("legacy-cache", "PE %d: the cache routines change memory", hc_me);
}
SCENARIO(legacy)
{
    int rounds = (int) hc_arg("rounds", 40);
    rng_t g = rng_of(140, 0);
    start_pes(0);
    hc_attach();
    arr = (long *) hc_shared(sizeof(long) * (size_t) (rounds * (hc_np + 1)));
    late = arr + rounds;
    SAME(_my_pe(), shmem_my_pe());
    SAME(_num_pes(), shmem_n_pes());
    SAME(_SHMEM_CMP_EQ, SHMEM_CMP_EQ);
    SAME(_SHMEM_CMP_NE, SHMEM_CMP_NE);
    SAME(_SHMEM_CMP_GT, SHMEM_CMP_GT);
    SAME(_SHMEM_CMP_GE, SHMEM_CMP_GE);
    SAME(_SHMEM_CMP_LT, SHMEM_CMP_LT);
    SAME(_SHMEM_CMP_LE, SHMEM_CMP_LE);
    SAME(_SHMEM_SYNC_VALUE, SHMEM_SYNC_VALUE);
    SAME(_SHMEM_BCAST_SYNC_SIZE, SHMEM_BCAST_SYNC_SIZE);
    SAME(_SHMEM_BARRIER_SYNC_SIZE, SHMEM_BARRIER_SYNC_SIZE);
    SAME(_SHMEM_COLLECT_SYNC_SIZE, SHMEM_COLLECT_SYNC_SIZE);
    SAME(_SHMEM_REDUCE_SYNC_SIZE, SHMEM_REDUCE_SYNC_SIZE);
    SAME(_SHMEM_REDUCE_MIN_WRKDATA_SIZE, SHMEM_REDUCE_MIN_WRKDATA_SIZE);
#if defined(_SHMEM_MAJOR_VERSION) && defined(_SHMEM_MINOR_VERSION)
    SAME(_SHMEM_MAJOR_VERSION, SHMEM_MAJOR_VERSION);
    SAME(_SHMEM_MINOR_VERSION, SHMEM_MINOR_VERSION);
#endif
    if (_my_pe() != hc_me || _num_pes() != hc_np)
        FAIL("legacy-pe", "_my_pe() %d and _num_pes() %d, launched as %d of %d", _my_pe(), _num_pes(), hc_me, hc_np);
    for (int i = 0; i < 4; i++)
        for (unsigned j = 0; j < sizeof pSync[0] / sizeof(long); j++)
            pSync[i][j] = _SHMEM_SYNC_VALUE;
    for (int k = 0; k < rounds; k++) {
        rng_t own = rng_of(142 + (uint64_t) k, (uint64_t) hc_me);
        hc_where("legacy", k, 0, 0);
        waits(&own, k);
        sets(&g, k);
        memory(&g);
        atomics(&own);
        caches(&own);
        hc_tick("round");
    }
    hc_detach();
    shmem_finalize();
}
#endif
