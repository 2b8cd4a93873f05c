/* Progress (P18): random programs that are valid by construction. All PEs draw one global order of actions and each runs its own
   part of it; in that order nobody ever waits for something that comes later, so every call has to return. */
#include "hc.h"
#define NPM 12
#define NK 9                    /* ways to signal */
#define NF 10                   /* ways to fetch */
#define NL 3
#define NT 4
#define NPS 6
#define BIG 12288              /* elements of a large collective */
static long cell[NK][NPM];      /* what each PE has signalled to me */
static long ctr[NPM];           /* fetch-added by all */
static long data[64], lock[NL], sink[256], src[BIG * NPM], dst[BIG * NPM];
static long ps[NPS][SHMEM_ALLTOALL_SYNC_SIZE > SHMEM_REDUCE_SYNC_SIZE ? SHMEM_ALLTOALL_SYNC_SIZE + SHMEM_REDUCE_SYNC_SIZE + SHMEM_COLLECT_SYNC_SIZE + SHMEM_BARRIER_SYNC_SIZE
                    : 2 * SHMEM_REDUCE_SYNC_SIZE + SHMEM_COLLECT_SYNC_SIZE];
static long wrk[BIG + SHMEM_REDUCE_MIN_WRKDATA_SIZE];
static shmem_team_t team[NT];
static int tmem[NT][NPM], tn[NT], tst[NT], tsd[NT];
static long *heap;
static long issued[NK][NPM][NPM], added[NPM];
static int dirty;               /* I have signals that nothing has completed yet */
static int step;

static void settle(void)
{
    if (dirty) {
        shmem_quiet();
        dirty = 0;
    }
}
static void signal_(rng_t * r, int k, int q, long n)
{
    long *c = &cell[k][hc_me];
    switch (k) {
        case 0: shmem_long_atomic_inc(c, q); break;
        case 1: shmem_long_atomic_add(c, 1, q); break;
        case 2: (void) shmem_long_atomic_fetch_inc(c, q); break;
        case 3: shmem_fence(); sink[0] = n; shmem_long_put(c, &sink[0], 1, q); break;
        case 4: shmem_fence(); shmem_long_p(c, n, q); break;
        case 5: { static long o[1024]; static int i; settle(); o[i = (i + 1) % 1024] = n; shmem_long_put_nbi(c, &o[i], 1, q); shmem_quiet(); break; }
        case 6: shmem_fence(); shmem_long_atomic_set(c, n, q); break;
        case 7: shmem_fence(); (void) shmem_long_atomic_swap(c, n, q); break;
        case 8: shmem_fence(); { long o = shmem_long_atomic_compare_swap(c, n - 1, n, q); if (o != n - 1) FAIL("progress-cas", "PE %d: expected %ld found %ld", hc_me, n - 1, o); } break;
    }
    dirty = 1;
    if (rndn(r, 2))
        settle();
}
static void wait_(rng_t * r, int k, int p, long n)
{
    long *c = &cell[k][p];
    settle();
    switch (rndn(r, 5)) {
        case 0:
        case 1: shmem_long_wait_until(c, SHMEM_CMP_GE, n); break;
        case 2: while (!shmem_long_test(c, SHMEM_CMP_GE, n)) hc_jitter(r); break;
        case 3: while (shmem_long_atomic_fetch(c, hc_me) < n) ; break;
        case 4: shmem_long_wait_until(c, SHMEM_CMP_GT, n - 1); break;
    }
    if (*(volatile long *) c < n)
        FAIL("progress-early", "PE %d: a wait for %ld ends at %ld", hc_me, n, *c);
}
static void fetch_(rng_t * r, int f, int q)
{
    long x = 0, y[16];
    switch (f) {
        case 0: (void) shmem_long_g(&data[rndn(r, 64)], q); break;
        case 1: shmem_long_get(y, &data[rndn(r, 48)], 16, q); break;
        case 2: shmem_long_iget(y, data, 1, 3, 16, q); break;
        case 3: (void) shmem_long_atomic_fetch(&data[rndn(r, 64)], q); break;
        case 4: (void) shmem_ulong_atomic_fetch_or((unsigned long *) &data[1], 1, q); break;
        case 5: (void) shmem_long_atomic_compare_swap(&data[2], x, x, q); break;
        case 6: shmem_long_get_nbi(y, data, 16, q); shmem_quiet(); dirty = 0; break;
        case 7: (void) shmem_long_atomic_swap(&data[3], 7, q); break;
        case 8: for (int i = 0; i < 20; i++) (void) shmem_long_atomic_fetch_add(&data[4], 1, q); break;
        case 9: shmem_getmem(y, data, 100, q); break;
    }
}
static void world(rng_t * r, int w, long n)
{
    (void) r;
    switch (w) {
        case 0: shmem_barrier_all(); break;
        case 1: settle(); shmem_sync_all(); break;
        case 2: if (heap) { shmem_free(heap); heap = NULL; } else heap = shmem_malloc((size_t) n * 8); break;
        case 3: if (heap) heap = shmem_realloc(heap, (size_t) n * 8); else heap = shmem_calloc((size_t) n, 8); break;
        case 4: if (heap) shmem_free(heap); heap = shmem_align(64, (size_t) n * 8); break;
        case 5: {
            shmem_team_t t = SHMEM_TEAM_INVALID;
            int half = (hc_np + 1) / 2;
            shmem_team_split_strided(SHMEM_TEAM_WORLD, (int) (n % 2) * (hc_np - half), 1, half, NULL, 0, &t);
            if (t != SHMEM_TEAM_INVALID)
                shmem_team_destroy(t);
            break;
        }
        case 6: {
            shmemx_space_t s;
            shmemx_space_config_t cf;
            memset(&cf, 0, sizeof cf);
            cf.sheap_size = 20000;
            cf.num_contexts = (int) (n % 2);
            shmemx_space_create(cf, &s);
            shmemx_space_attach(s);
            long *p = shmemx_space_malloc(s, 800), *o = malloc(8);
            *p = 0;
            shmem_barrier_all();
            *o = hc_me + 1;
            shmem_long_put_nbi(p, o, 1, (hc_me + 1) % hc_np);
            (void) shmem_long_atomic_fetch_add(p + 1, 1, (hc_me + 1) % hc_np);
            shmem_free(p);
            free(o);
            shmemx_space_detach(s);
            shmemx_space_destroy(s);
            break;
        }
    }
    dirty = w == 1 || w == 5 ? dirty : 0;
}
/* some come late, and need a fellow member who may be inside already */
static int late(rng_t * r, int start, int stride, int size)
{
    if (rndn(r, 3))
        return 0;
    hc_jitter(r);
    if (rndn(r, 2))
        usleep((useconds_t) rndn(r, 4000));
    int f = (int) rndn(r, NF);
    fetch_(r, f, start + stride * (int) rndn(r, (uint64_t) size));
    return 1;
}
static void collective(rng_t * r, int w, int start, int ls, int size, long *P, long n, int root)
{
    (void) r;
    for (int i = 0; i < size; i++)
        src[i] = hc_me + i;
    switch (w) {
        case 0: shmem_barrier(start, ls, size, P); dirty = 0; break;
        case 1: settle(); shmem_sync(start, ls, size, P); break;
        case 2: settle(); shmem_broadcast64(dst, src, (size_t) n, root, start, ls, size, P); break;
        case 3: settle(); shmem_collect64(dst, src, (size_t) (n + hc_me) % BIG + 1, start, ls, size, P); break;
        case 4: settle(); shmem_fcollect64(dst, src, (size_t) n, start, ls, size, P); break;
        case 5: settle(); shmem_alltoall64(dst, src, (size_t) n, start, ls, size, P); break;
        case 6: settle(); shmem_long_sum_to_all(dst, src, (int) n, start, ls, size, wrk, P); break;
        case 7: settle(); shmem_long_max_to_all(dst, src, (int) n, start, ls, size, wrk, P); break;
    }
}
static void tcollective(rng_t * r, int w, shmem_team_t t, int np, long n, int root)
{
    (void) r;
    (void) np;
    settle();
    switch (w) {
        case 0:
        case 1: shmem_team_sync(t); break;
        case 2: shmem_long_broadcast(t, dst, src, (size_t) n, root); break;
        case 3: shmem_long_collect(t, dst, src, (size_t) (n + hc_me) % BIG + 1); break;
        case 4: shmem_long_fcollect(t, dst, src, (size_t) n); break;
        case 5: shmem_long_alltoall(t, dst, src, (size_t) n); break;
        case 6: shmem_long_sum_reduce(t, dst, src, (size_t) n); break;
        case 7: {
            shmem_team_t u = SHMEM_TEAM_INVALID;
            shmem_team_split_strided(t, 0, 1, 1, NULL, 0, &u);
            if (u != SHMEM_TEAM_INVALID)
                shmem_team_destroy(u);
            break;
        }
    }
}
SCENARIO(progress)
{
    int N = (int) hc_arg("steps", 160), heavy = (int) hc_arg("heavy", 0);
    rng_t g = rng_of(80, 0), r = rng_of(81, (uint64_t) hc_me);
    shmem_init();
    hc_attach();
    for (int i = 0; i < NPS; i++)
        for (size_t j = 0; j < sizeof ps[0] / sizeof(long); j++)
            ps[i][j] = SHMEM_SYNC_VALUE;
    for (int i = 0; i < NT; i++) {
        int st = (int) rndn(&g, (uint64_t) hc_np), sd = (int) rndr(&g, 1, 2), mx = (hc_np - 1 - st) / sd + 1, n = (int) rndr(&g, 1, mx);
        shmem_team_split_strided(SHMEM_TEAM_WORLD, st, sd, n, NULL, 0, &team[i]);
        for (int j = 0; j < n; j++)
            tmem[i][st + j * sd] = 1;
        tn[i] = n, tst[i] = st, tsd[i] = sd;
    }
    int nps = 0;
    shmem_barrier_all();
    hc_tick("init");
    for (step = 0; step < N; step++) {
        int a = (int) rndn(&g, 100);
        long n = rndr(&g, 1, 32);
        uint64_t x = rnd(&g), y = rnd(&g), z = rnd(&g);
        int p = (int) (x % (uint64_t) hc_np), q = (int) (y % (uint64_t) hc_np), w = (int) ((z >> 8) % 8);
        if (a < 24) {
            int k = (int) (z % NK);
            long m = ++issued[k][p][q];
            if (p == hc_me) {
                hc_where("signal", step, k, q);
                signal_(&r, k, q, m);
                STAT("signals", 1);
                COVER(1, k, p == q);
            }
        } else if (a < 46) {
            int k = (int) (z % NK);
            if (q == hc_me) {
                hc_where("wait", step, k, p);
                wait_(&r, k, p, issued[k][p][q]);
                STAT("waits", 1);
                COVER(2, k, p == q, issued[k][p][q] > 0);
            }
        } else if (a < 60) {
            int f = (int) (z % NF);
            if (p == hc_me) {
                hc_where("fetch", step, f, q);
                fetch_(&r, f, q);
                STAT("fetches", 1);
                COVER(3, f, p == q);
            }
        } else if (a < 70) {
            int l = (int) (z % NL), in = (int) ((z >> 8) % 4);
            added[q] += in;
            if (p == hc_me) {
                settle();
                hc_where("lock", step, l, q);
                if ((z >> 20) % 3)
                    shmem_set_lock(&lock[l]);
                else
                    while (shmem_test_lock(&lock[l]))
                        hc_jitter(&r);
                for (int i = 0; i < in; i++) {
                    (void) shmem_long_atomic_fetch_add(&ctr[q], 1, q);
                    if (heavy)
                        hc_jitter(&r);
                }
                shmem_clear_lock(&lock[l]);
                STAT("locks", 1);
                COVER(4, l, (z >> 20) % 3, in);
            }
        } else if (a < 76) {
            w = (int) (z % 7);
            hc_where("world collective", step, w, 0);
            world(&r, w, n);
            STAT("collectives", 1);
            COVER(5, w);
        } else if (a < 83) {
            int st = p, ls = (int) ((z >> 20) % 2), mx = (hc_np - 1 - st) / (1 << ls) + 1, sz = 1 + q % mx, in = 0;
            for (int j = 0; j < sz; j++)
                in |= st + j * (1 << ls) == hc_me;
            if (nps == NPS) {
                hc_where("barrier", step, 0, 0);
                shmem_barrier_all();
                dirty = 0;
                nps = 0;
            }
            if (in) {
                hc_where("active-set collective", step, w, sz);
                if ((z >> 30) % 3 == 0)
                    n = 512 + (long) ((z >> 33) % (BIG - 512));
                int l = late(&r, st, 1 << ls, sz);
                collective(&r, w, st, ls, sz, ps[nps], n, (int) (z % (uint64_t) sz));
                STAT("collectives", 1);
                COVER(6, w, sz, ls, l, n > 32);
            }
            nps++;
        } else if (a < 90) {
            int t = (int) (z % NT);
            if (tmem[t][hc_me]) {
                hc_where("team collective", step, w, t);
                if ((z >> 30) % 3 == 0)
                    n = 512 + (long) ((z >> 33) % (BIG - 512));
                int l = late(&r, tst[t], tsd[t], tn[t]);
                tcollective(&r, w, team[t], tn[t], n, (int) (y % (uint64_t) tn[t]));
                STAT("collectives", 1);
                COVER(7, w, tn[t], l, n > 32);
            }
        } else if (a < 95) {
            if (p == hc_me) {
                hc_where("storm", step, q, 0);
                for (int i = 0; i < (heavy ? 400 : 60); i++) {
                    shmem_long_put_nbi(&data[8], &src[0], 8, q);
                    shmem_long_atomic_add(&data[5], 1, q);
                    if (i % 16 == 3)
                        shmem_fence();
                }
                dirty = 1;
                STAT("storms", 1);
                COVER(8, p == q);
            }
        } else if (a < 97) {
            if (p == hc_me) {
                hc_where("quiet", step, 0, 0);
                shmem_quiet();
                dirty = 0;
            }
        } else if (p == hc_me)
            usleep((useconds_t) rndn(&r, 3000));
        hc_tick("step");
    }
    hc_where("end", step, 0, 0);
    shmem_barrier_all();
    for (int k = 0; k < NK; k++)
        for (int p = 0; p < hc_np; p++)
            if (cell[k][p] != issued[k][p][hc_me])
                FAIL("progress-lost", "PE %d: %ld signals (%d) of PE %d arrived of %ld", hc_me, cell[k][p], k, p, issued[k][p][hc_me]);
    if (ctr[hc_me] != added[hc_me])
        FAIL("progress-lost", "PE %d: %ld fetching additions arrived of %ld", hc_me, ctr[hc_me], added[hc_me]);
    for (int i = 0; i < NT; i++)
        if (team[i] != SHMEM_TEAM_INVALID)
            shmem_team_destroy(team[i]);
    hc_detach();
    shmem_finalize();
}
