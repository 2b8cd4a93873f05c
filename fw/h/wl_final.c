/* The end of the program (P22): finalize, explicit or implied, with operations of every kind still pending, and global exit. */
#include "hc.h"
#define NPM 12
#define NC 48
#define NREG 3                  /* static, heap, space */
static long SD[NPM][NC] = { { 1 } };
static long RO[NC] = { 5 };     /* read remotely */
static long counter = 1, lock;
static long *R[NREG];
static long copy[NREG][NPM * NC], copyro[NC];
static long got[NPM][NC];
typedef struct { volatile int ready[NPM], entered[NPM], out[NPM], go; volatile long late[NPM]; } sh_t;
static sh_t *sh;
static int nreg = 2, late_ops, endk;
static shmem_ctx_t C = SHMEM_CTX_DEFAULT;
static int have_ctx;

static long init_of(int q, int r, int p, int c) { return (long) hc_mix(hc_seed ^ (uint64_t) (((q * 7 + r) * 11 + p) * 1000 + c)); }
enum { K_PUT, K_PUTNBI, K_P, K_IPUT, K_ADD, K_INC, K_SET, K_OR, K_XOR, K_AND, K_CSWAP, K_ADDCTX, K_PUTCTX, K_GETNBI, NK };

/* what p does to its cells at q in region r; the same walk issues it and predicts it */
static void walk(int p, int q, int r, int issue, long *want, long *wantget)
{
    rng_t g = rng_of(700 + (uint64_t) r, (uint64_t) (p * 16 + q));
    /* the origin must survive until completion: it does */
    static long org[NREG][NPM][NC * 3];
    int c = 0;
    int few = (int) rndn(&g, 3) == 0;
    while (c < NC) {
        int k = (int) rndn(&g, NK), n = 1;
        int skip = few && rndn(&g, 4);
        long *at = R[r] + p * NC + c, v = (long) rnd(&g), w = (long) rnd(&g);
        long *o = &org[r][q][c * 3];
        shmem_ctx_t cx = r == 2 && have_ctx && k != K_ADD && (v & 1) ? C : SHMEM_CTX_DEFAULT;
        if (k == K_PUT || k == K_PUTNBI || k == K_PUTCTX || k == K_GETNBI)
            n = (int) rndr(&g, 1, NC - c);
        if (k == K_IPUT)
            n = (int) rndr(&g, 1, (NC - c + 1) / 2);
        if (skip) {
            c += k == K_IPUT ? 2 * n - 1 : n;
            continue;
        }
        if (issue) {
            STAT("pending_ops", 1);
            COVER(1, k, r, q == p, cx != SHMEM_CTX_DEFAULT, endk);
        }
        for (int i = 0; i < n; i++) {
            long x = v + i * w;
            switch (k) {
                case K_PUT: case K_PUTNBI: case K_PUTCTX: case K_P: case K_SET: want[c + i] = x; break;
                case K_IPUT: want[c + 2 * i] = x; break;
                case K_ADD: case K_ADDCTX: want[c] = (long) ((unsigned long) want[c] + 3ul * (unsigned long) (v >> 3)); break;
                case K_INC: want[c] = (long) ((unsigned long) want[c] + 2); break;
                case K_OR: want[c] |= v; break;
                case K_XOR: want[c] ^= v; break;
                case K_AND: want[c] &= v; break;
                case K_CSWAP: want[c] = v; break;
            }
            o[i] = x;
        }
        if (issue)
            switch (k) {
                case K_PUT: shmem_ctx_long_put(cx, at, o, (size_t) n, q); break;
                case K_PUTNBI:
                case K_PUTCTX: shmem_ctx_long_put_nbi(cx, at, o, (size_t) n, q); break;
                case K_P: shmem_ctx_long_p(cx, at, v, q); break;
                case K_IPUT: shmem_ctx_long_iput(cx, at, o, 2, 1, (size_t) n, q); break;
                case K_ADD:
                case K_ADDCTX: for (int i = 0; i < 3; i++) shmem_ctx_long_atomic_add(cx, at, v >> 3, q); break;
                case K_INC: shmem_ctx_long_atomic_inc(cx, at, q); shmem_ctx_long_atomic_inc(cx, at, q); break;
                case K_SET: shmem_ctx_long_atomic_set(cx, at, v, q); break;
                case K_OR: shmem_ctx_ulong_atomic_or(cx, (unsigned long *) at, (unsigned long) v, q); break;
                case K_XOR: shmem_ctx_ulong_atomic_xor(cx, (unsigned long *) at, (unsigned long) v, q); break;
                case K_AND: shmem_ctx_ulong_atomic_and(cx, (unsigned long *) at, (unsigned long) v, q); break;
                case K_CSWAP: {
                    long old = shmem_ctx_long_atomic_compare_swap(cx, at, init_of(q, r, p, c), v, q);
                    if (old != init_of(q, r, p, c))
                        FAIL("final-fetch", "PE %d: compare-and-swap at PE %d finds %lx", hc_me, q, old);
                    break;
                }
                case K_GETNBI:
                    if (r == 0)
                        shmem_long_get_nbi(&got[q][c], &RO[c], (size_t) n, q);
                    break;
            }
        if (k == K_GETNBI && r == 0 && wantget)
            for (int i = 0; i < n; i++)
                wantget[c + i] = init_of(q, 9, 0, c + i);
        c += k == K_IPUT ? 2 * n - 1 : n;
    }
}
/* wait, without the library, until n of the flags are up */
static int flags(volatile int *f, int n, double sec)
{
    uint64_t t = hc_now() + (uint64_t) (sec * 1e9);
    while (1) {
        int k = 0;
        for (int i = 0; i < hc_np; i++)
            k += f[i];
        if (k >= n)
            return 1;
        if (hc_now() > t)
            return 0;
        usleep(200);
    }
}
static void verify(void)
{
    static const char *const RN[NREG] = { "static", "heap", "space" };
    for (int i = 0; i < hc_np; i++)
        if (!sh->entered[i])
            FAIL("final-early", "PE %d: finalize returns although PE %d has not reached it", hc_me, i);
    for (int r = 0; r < nreg; r++) {
        const char *when = hc_watched(R[r]);
        if (!when) {
            FAIL("final-unseen", "PE %d: the library never let go of the %s memory", hc_me, RN[r]);
            continue;
        }
        for (int pass = 0; pass < (r == 0 ? 2 : 1); pass++) {
            long *have = pass ? &SD[0][0] : copy[r];
            for (int p = 0; p < hc_np; p++) {
                long want[NC];
                for (int c = 0; c < NC; c++)
                    want[c] = init_of(hc_me, r, p, c);
                walk(p, hc_me, r, 0, want, NULL);
                STAT("cells_checked", NC);
                for (int c = 0; c < NC; c++)
                    if (have[p * NC + c] != want[c]) {
                        FAIL("final-lost", "PE %d: %s cell %d written by PE %d is %lx %s%s, should be %lx", hc_me, RN[r], c, p,
                             have[p * NC + c], pass ? "after finalize" : "at ", pass ? "" : when, want[c]);
                        break;
                    }
            }
        }
    }
    for (int q = 0; q < hc_np; q++) {
        long want[NC], dummy[NC];
        memset(want, 0, sizeof want);
        memset(dummy, 0, sizeof dummy);
        walk(hc_me, q, 0, 0, dummy, want);
        for (int c = 0; c < NC; c++)
            if (got[q][c] != want[c]) {
                FAIL("final-get", "PE %d: pending get of cell %d from PE %d left %lx, should be %lx", hc_me, c, q, got[q][c], want[c]);
                break;
            }
    }
    if (hc_me == 0) {
        long n = 1;
        for (int p = 0; p < hc_np; p++)
            n += sh->late[p];
        if (counter != n)
            FAIL("final-lost", "PE 0: counter is %ld after finalize, should be %ld", counter, n);
    }
}
static int verified;
static void at_exit_check(void)
{
    if (verified++)
        return;
    hc_tick("exit");
    if (!flags(sh->entered, hc_np, 20))
        FAIL("final-early", "PE %d: exit handlers run although not all PEs have ended", hc_me);
    int f = 0;
    PMPI_Finalized(&f);
    if (!f)
        FAIL("final-implicit", "PE %d: the program ends without finalize", hc_me);
    else
        verify();
    hc_done();
    /* the launcher ends the others when one fails: all together */
    sh->out[hc_me] = 1;
    flags(sh->out, hc_np, 20);
}
static void late_work(rng_t * r)
{
    int n = (int) rndr(r, 2, 12);
    for (int i = 0; i < n; i++) {
        int q = (int) rndn(r, (uint64_t) hc_np);
        STAT("late_ops", 1);
        hc_where("late op", i, q, 0);
        switch (rndn(r, 6)) {
            case 0:
                (void) shmem_long_atomic_fetch_add(&counter, 1, 0);
                sh->late[hc_me]++;
                break;
            case 1: {
                long x = -1, c = (long) rndn(r, NC);
                shmem_long_get(&x, &RO[c], 1, q);
                if (x != init_of(q, 9, 0, (int) c))
                    FAIL("final-late", "PE %d: a get from PE %d, already in finalize, gives %lx", hc_me, q, x);
                break;
            }
            case 2: {
                long c = (long) rndn(r, NC), x = shmem_long_atomic_fetch(&RO[c], q);
                if (x != init_of(q, 9, 0, (int) c))
                    FAIL("final-late", "PE %d: a fetch from PE %d, already in finalize, gives %lx", hc_me, q, x);
                break;
            }
            case 3:
                shmem_set_lock(&lock);
                shmem_clear_lock(&lock);
                break;
            case 4:
                shmem_quiet();
                break;
            default: {
                long c = (long) rndn(r, NC), x = shmem_long_g(&RO[c], q);
                if (x != init_of(q, 9, 0, (int) c))
                    FAIL("final-late", "PE %d: a shmem_g from PE %d, already in finalize, gives %lx", hc_me, q, x);
            }
        }
        hc_tick("late");
    }
}
/* end: 0 finalize, 1 finalize twice, 2 start_pes and return, 3 start_pes and exit, 4 start_pes and finalize */
SCENARIO(final)
{
    endk = (int) hc_arg("end", 0);
    int status = (int) hc_arg("status", 0), space = (int) hc_arg("space", 1), team = (int) hc_arg("team", 0), implied = endk == 2 || endk == 3;
    rng_t g = rng_of(60, 0), r = rng_of(61, (uint64_t) hc_me);
    sh = hc_shared(sizeof(sh_t));
    late_ops = (int) hc_arg("late", 1);
    if (implied) {
        hc_late = 1;
        hc_status = status;
        atexit(at_exit_check);
    }
    if (endk >= 2)
        start_pes(0);
    else
        shmem_init();
    hc_attach();
    R[0] = &SD[0][0];
    R[1] = shmem_malloc(sizeof(long) * NPM * NC);
    shmemx_space_t S;
    if (space) {
        shmemx_space_config_t cf;
        memset(&cf, 0, sizeof cf);
        cf.sheap_size = sizeof(long) * NPM * NC + 4096;
        cf.num_contexts = 1;
        shmemx_space_create(cf, &S);
        R[2] = shmemx_space_malloc(S, sizeof(long) * NPM * NC);
        shmemx_space_attach(S);
        have_ctx = shmemx_space_create_ctx(S, 0, &C) == 0;
        nreg = 3;
    }
    if (team) {
        shmem_team_t t;
        shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, hc_np, NULL, 0, &t);
    }
    for (int k = 0; k < nreg; k++) {
        for (int p = 0; p < hc_np; p++)
            for (int c = 0; c < NC; c++)
                R[k][p * NC + c] = init_of(hc_me, k, p, c);
        hc_watch(R[k], sizeof(long) * NPM * NC, copy[k]);
    }
    for (int c = 0; c < NC; c++)
        RO[c] = init_of(hc_me, 9, 0, c);
    shmem_barrier_all();
    hc_tick("init");
    /* order of targets and regions: any */
    int perm[NPM * NREG], m = hc_np * nreg;
    for (int i = 0; i < m; i++)
        perm[i] = i;
    for (int i = m - 1; i > 0; i--) {
        int j = (int) rndn(&r, (uint64_t) i + 1), x = perm[i];
        perm[i] = perm[j];
        perm[j] = x;
    }
    for (int i = 0; i < m; i++) {
        long sink[NC];
        memset(sink, 0, sizeof sink);
        walk(hc_me, perm[i] % hc_np, perm[i] / hc_np, 1, sink, NULL);
    }
    sh->ready[hc_me] = 1;
    hc_tick("pending");
    /* some come late, and still work with those that are waiting */
    int lateness = (int) rndn(&g, (uint64_t) hc_np + 1);       /* PE lateness comes last, if it exists */
    if (hc_me == lateness) {
        if (late_ops) {
            flags(sh->entered, hc_np - 1, 2);
            usleep((useconds_t) rndn(&r, 3000));
            late_work(&r);
        } else
            usleep(20000);
    } else
        usleep((useconds_t) rndn(&r, 4000));
    hc_detach();
    sh->entered[hc_me] = 1;
    hc_tick("finalize");
    COVER(2, endk, lateness < hc_np, hc_me == lateness, nreg, team);
    if (implied) {
        if (endk == 3)
            exit(status);
        return;
    }
    hc_where("finalize", 1, 0, 0);
    shmem_finalize();
    STAT("finalizes", 1);
    verify();
    if (endk == 1)
        shmem_finalize();
    hc_tick("done");
}

/* one PE ends all: what the others are in the middle of is drawn */
SCENARIO(gexit)
{
    int status = (int) hc_arg("status", 3), early = (int) hc_arg("early", 0);
    rng_t g = rng_of(62, 0), r = rng_of(63, (uint64_t) hc_me);
    sh = hc_shared(sizeof(sh_t));
    if (rndn(&g, 4))
        shmem_init();
    else
        start_pes(0);
    static long psync[SHMEM_COLLECT_SYNC_SIZE], a[4], b[4 * NPM], flag;
    for (int i = 0; i < SHMEM_COLLECT_SYNC_SIZE; i++)
        psync[i] = SHMEM_SYNC_VALUE;
    int k = (int) rndn(&g, (uint64_t) hc_np), other = (k + 1) % hc_np;
    int act = (int) hc_arg("act", (long) rndn(&g, 12)), mixed = (int) rndn(&g, 2);
    rng_t ro = rng_of(63, (uint64_t) other);
    int oact = mixed ? (int) rndn(&ro, 12) : act;
    if (mixed && hc_me != k)
        act = (int) rndn(&r, 12);
    if (hc_me == k)
        shmem_set_lock(&lock);
    shmem_barrier_all();
    hc_tick("init");
    if (hc_me == k) {
        if (!early)
            flags(sh->ready, hc_np - 1, 5);
        usleep((useconds_t) rndn(&r, 30000));
        /* not to a PE that makes no calls any more: an active message may wait for it */
        if (rndn(&r, 2) && oact != 0 && oact != 6)
            for (int i = 0; i < 20; i++)
                shmem_long_put_nbi(&a[0], &b[0], 1, other);
        COVER(3, act, mixed, status, early, hc_np);
        STAT("global_exits", 1);
        hc_done();
        shmem_global_exit(status);
        FAIL("gexit-returns", "PE %d: shmem_global_exit returns", hc_me);
        _exit(0);
    }
    COVER(4, act, mixed, hc_me);
    STAT("victims", 1);
    hc_done();
    sh->ready[hc_me] = 1;
    volatile long spin = 0;
    switch (act) {
        case 0: while (1) spin++;
        case 1: shmem_long_wait_until(&flag, SHMEM_CMP_NE, 0L); break;
        case 2: shmem_set_lock(&lock); break;
        case 3: shmem_barrier_all(); break;
        case 4: shmem_broadcast64(b, a, 1, k, 0, 0, hc_np, psync); shmem_barrier_all(); break;
        case 5: while (1) { shmem_long_put(&a[1], &b[1], 1, k); shmem_long_get(&b[2], &a[2], 1, k); }
        case 6: while (1) sleep(100);
        case 7: while (1) (void) shmem_long_atomic_fetch_add(&a[3], 1, k);
        case 8: (void) shmem_malloc(64); break;
        case 9: shmem_finalize(); break;
        case 10: while (1) { shmem_long_atomic_add(&a[3], 1, hc_np - 1); shmem_quiet(); }
        case 11: { shmem_team_t t; shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, hc_np, NULL, 0, &t); break; }
    }
    FAIL("gexit-outlived", "PE %d: a call that depends on PE %d returned (%d)", hc_me, k, act);
    while (1)
        sleep(100);
}
