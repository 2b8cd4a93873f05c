/* Resources (P21): everything that can be created and destroyed, and every kind of operation, over and over with a fixed
 * pool of parameters; what the library holds after each lap must not grow, and the heap must stay whole. */
#include "sops.h"
#include <dirent.h>
#define NL 5                    /* strided layouts, active sets, teams in the pool */
#define KINDS 8
static const char *kindname[KINDS] = { "MPI communicators", "MPI groups", "MPI windows", "MPI datatypes", "MPI info objects",
    "MPI requests", "private heap blocks", "private heap bytes"
};
static struct { int n, st, ls, form; } lay[NL];
static struct { int s, l, z; } set[NL];
static struct { int s, st, z, s2, st2, z2; } tm[NL];
static long P[4][SHMEM_ALLTOALLS_SYNC_SIZE + SHMEM_BCAST_SYNC_SIZE + SHMEM_REDUCE_SYNC_SIZE + SHMEM_COLLECT_SYNC_SIZE];
static long wrk[SHMEM_REDUCE_MIN_WRKDATA_SIZE + 64], src[512], dst[2048], lk[3], flag, cnt;
static char tgt[65536], buf[65536];

static void measure(long *v)
{
    static const char *K[6] = { "comm", "group", "win", "type", "info", "req" };
    for (int i = 0; i < 6; i++)
        v[i] = hc_mpi_live(K[i]);
    v[6] = hc_alloc_live();
    v[7] = hc_alloc_bytes();
}
static int fk = -1, fw;         /* fixed choice of u_sets, u_strided and u_teams, for the warm-up */
static void u_teams(rng_t * g)
{
    int k = (int) rndn(g, NL), grid = (int) rndn(g, 3), swap = (int) rndn(g, 2), w = (int) rndn(g, 8);
    if (fk >= 0)
        k = fk, w = fw;
    shmem_team_t a = SHMEM_TEAM_INVALID, b = SHMEM_TEAM_INVALID, x = SHMEM_TEAM_INVALID, y = SHMEM_TEAM_INVALID;
    shmem_team_config_t cf = { 0 };
    shmem_team_split_strided(SHMEM_TEAM_WORLD, tm[k].s, tm[k].st, tm[k].z, swap ? &cf : NULL, 0, &a);
    if (a != SHMEM_TEAM_INVALID) {
        shmem_team_split_strided(a, tm[k].s2, tm[k].st2, tm[k].z2, NULL, 0, &b);
        shmem_team_sync(a);
        shmem_long_sum_reduce(a, dst, src, 3);
        shmem_broadcastmem(a, dst, src, 16, 0);
        if (grid == 0)
            shmem_team_split_2d(a, 1 + k % 2, NULL, 0, &x, NULL, 0, &y);
    }
    if (grid == 1)
        shmem_team_split_2d(SHMEM_TEAM_WORLD, 1 + k % hc_np, NULL, 0, &x, NULL, 0, &y);
    (void) shmem_team_translate_pe(SHMEM_TEAM_WORLD, hc_me, b);
    STAT("teams_made", (a != SHMEM_TEAM_INVALID) + (b != SHMEM_TEAM_INVALID) + (x != SHMEM_TEAM_INVALID) + (y != SHMEM_TEAM_INVALID));
    COVER(1, k, grid, a != SHMEM_TEAM_INVALID, b != SHMEM_TEAM_INVALID);
    shmem_team_t T[4] = { a, b, x, y };
    for (int i = 0; i < 5; i++) {
        shmem_team_t t = i == 4 ? SHMEM_TEAM_WORLD : T[swap ? 3 - i : i];
        if (t == SHMEM_TEAM_INVALID)
            continue;
        STAT("collectives", 1);
        COVER(4, k, w, i);
        switch (w) {
            case 0: shmem_long_broadcast(t, dst, src, 9, shmem_team_n_pes(t) - 1); break;
            case 1: shmem_int_collect(t, (int *) dst, (int *) src, (size_t) (2 + shmem_team_my_pe(t)) % 5); break;
            case 2: shmem_long_fcollect(t, dst, src, 5); break;
            case 3: shmem_long_alltoall(t, dst, src, 4); break;
            case 4: shmem_long_alltoalls(t, dst, src, lay[k].st, lay[k].ls, 3); break;
            case 5: shmem_double_prod_reduce(t, (double *) dst, (double *) src, 6); break;
            case 6: shmem_fcollectmem(t, dst, src, 11); break;
            case 7: shmem_collectmem(t, dst, src, (size_t) (3 + hc_me)); break;
        }
    }
    for (int i = 0; i < 4; i++) {
        shmem_team_t t = T[swap ? 3 - i : i];
        if (t != SHMEM_TEAM_INVALID)
            shmem_team_destroy(t);
        else if (i == 1)
            shmem_team_destroy(SHMEM_TEAM_INVALID);
    }
    shmem_barrier_all();
}
static void u_space(rng_t * g)
{
    int k = (int) rndn(g, 3), nctx = (int) rndn(g, 4), use = (int) rndn(g, 5), attach = rndn(g, 4) != 0, to = (int) rndn(g, (uint64_t) hc_np);
    size_t sz = (size_t) (65536 << k);
    shmemx_space_config_t c;
    memset(&c, 0, sizeof c);
    c.sheap_size = sz;
    c.num_contexts = nctx;
    c.memkind = SHMEMX_MEM_HOST;
    shmemx_space_t s;
    shmemx_space_create(c, &s);
    STAT("spaces_made", 1);
    COVER(2, k, nctx, use, attach);
    char *p = NULL, *q = NULL;
    if (attach || use & 1)
        shmemx_space_attach(s);
    p = shmemx_space_malloc(s, 1000);
    q = shmemx_space_calloc(s, 50, 8);
    shmem_ctx_t x[4];
    int nx = 0;
    if (attach || use & 1) {
        for (int i = 0; i < nctx; i++)
            if (shmemx_space_create_ctx(s, 0, &x[nx]) == 0)
                nx++;
        STAT("contexts_made", nx);
        for (int i = 0; i < nx; i++) {
            shmem_ctx_putmem_nbi(x[i], p, buf, 100, to);
            shmem_ctx_long_atomic_inc(x[i], (long *) q, to);
            if (use & 2)
                shmem_ctx_quiet(x[i]);
        }
        shmem_putmem(p, buf, 500, to);
        if (use == 4 && nx > 1) {
            shmem_ctx_destroy(x[0]);
            shmemx_space_create_ctx(s, 0, &x[0]);
        }
        for (int i = 0; i < nx; i++)
            shmem_ctx_destroy(x[i]);
    }
    shmem_barrier_all();
    if (p)
        shmem_free(p);
    if (q)
        shmem_free(q);
    if (attach || use & 1)
        shmemx_space_detach(s);
    if (use == 3 && attach) {
        shmemx_space_attach(s);
        shmemx_space_detach(s);
    }
    shmemx_space_destroy(s);
}
static void u_sets(rng_t * g)
{
    int k = (int) rndn(g, NL), w = (int) rndn(g, 8);
    if (fk >= 0)
        k = fk, w = fw;
    int s = set[k].s, l = set[k].l, z = set[k].z, in = hc_me >= s && (hc_me - s) % (1 << l) == 0 && (hc_me - s) >> l < z;
    STAT("collectives", in);
    COVER(3, k, w, in);
    if (in)
        switch (w) {
            case 0: shmem_broadcast64(dst, src, 7, z - 1, s, l, z, P[0]); break;
            case 1: shmem_collect32(dst, src, (size_t) (3 + hc_me), s, l, z, P[0]); break;
            case 2: shmem_fcollect64(dst, src, 5, s, l, z, P[0]); break;
            case 3: shmem_alltoall64(dst, src, 4, s, l, z, P[0]); break;
            case 4: shmem_alltoalls64(dst, src, lay[k].st, lay[k].ls, 3, s, l, z, P[0]); break;
            case 5: shmem_long_sum_to_all(dst, src, 6, s, l, z, wrk, P[0]); break;
            case 6: shmem_barrier(s, l, z, P[0]); break;
            case 7: shmem_sync(s, l, z, P[0]); break;
        }
    shmem_barrier_all();
}
static void u_strided(rng_t * g)
{
    int k = (int) rndn(g, NL), m = (int) rndr(g, 1, 30), to = (int) rndn(g, (uint64_t) hc_np);
    if (fk >= 0)
        k = fk, to = fw;
    for (int i = 0; i < m; i++) {
        switch (lay[k].form) {
            case 0: shmem_long_iput((long *) tgt, (long *) buf, lay[k].st, lay[k].ls, (size_t) lay[k].n, to); break;
            case 1: shmem_int_iget((int *) buf, (int *) tgt, lay[k].st, lay[k].ls, (size_t) lay[k].n, to); break;
            case 2: shmem_iput128(tgt, buf, lay[k].st, lay[k].ls, (size_t) lay[k].n, to); break;
            case 3: shmem_char_iput(tgt, buf, lay[k].st, lay[k].ls, (size_t) lay[k].n, to); break;
        }
        k = (k + 1) % NL;
    }
    STAT("transfers", m);
    COVER(4, k, m);
}
static void u_ops(rng_t * g)
{
    int m = (int) rndr(g, 5, 60);
    for (int i = 0; i < m; i++) {
        sop_t s;
        static unsigned char loc[64][SLOT];
        sop_pick(g, &s, S_ALL & ~S_IPUT, hc_me, (int) rndn(g, (uint64_t) hc_np), (int) rndn(g, (uint64_t) W.nreg),
                 hc_me * 8 + (int) rndn(g, 8), 0);
        sop_issue(&s, loc[i]);
        COVER(5, s.amo, s.form, s.reg);
    }
    shmem_quiet();
    STAT("operations", m);
}
static void u_amos(rng_t * g)
{
    int m = (int) rndr(g, 5, 40), to = (int) rndn(g, (uint64_t) hc_np);
    static long f[64];
    for (int i = 0; i < m; i++)
        switch (rndn(g, 6)) {
            case 0: (void) shmem_long_atomic_fetch_inc(&cnt, to); break;
            case 1: shmem_long_atomic_add(&cnt, 3, to); break;
            case 2: (void) shmem_long_atomic_compare_swap(&cnt, 0, 1, to); break;
            case 3: shmem_long_atomic_fetch_add_nbi(&f[i], &cnt, 2, to); break;
            case 4: (void) shmem_long_atomic_swap(&cnt, 9, to); break;
            case 5: shmem_quiet(); break;
        }
    shmem_quiet();
    STAT("operations", m);
}
static void u_big(rng_t * g)
{
    int to = (int) rndn(g, (uint64_t) hc_np), n = (int) rndr(g, 1, 60000);
    shmem_putmem(tgt, buf, (size_t) n, to);
    shmem_putmem_nbi(tgt, buf, (size_t) n, to);
    shmem_quiet();
    shmem_getmem(buf, tgt, (size_t) n, to);
    STAT("transfers", 3);
}
static void u_heap(rng_t * g)
{
    void *p[8];
    int n = (int) rndr(g, 1, 8);
    for (int i = 0; i < n; i++) {
        size_t z = (size_t) rndr(g, 0, 20000);
        int w = (int) rndn(g, 4);
        p[i] = w == 0 ? shmem_calloc(z, 1) : w == 1 ? shmem_align((size_t) 8 << rndn(g, 6), z) : shmem_malloc(z);
        if (w == 3 && p[i])
            p[i] = shmem_realloc(p[i], (size_t) rndr(g, 0, 30000));
        COVER(6, w, p[i] != NULL);
    }
    for (int i = 0; i < n; i++) {
        int j = (int) rndn(g, (uint64_t) (n - i)) + i;
        void *t = p[j];
        p[j] = p[i];
        if (t)
            shmem_free(t);
    }
    STAT("blocks_made", n);
}
static void u_locks(rng_t * g)
{
    int k = (int) rndn(g, 3), m = (int) rndr(g, 1, 6);
    for (int i = 0; i < m; i++) {
        if (rndn(g, 2))
            shmem_set_lock(&lk[k]);
        else
            while (shmem_test_lock(&lk[k]));
        shmem_clear_lock(&lk[k]);
    }
    STAT("acquisitions", m);
}
static void u_wait(rng_t * g)
{
    static long round;
    (void) g;
    round++;
    shmem_long_atomic_add(&flag, 1, (hc_me + 1) % hc_np);
    shmem_quiet();
    shmem_long_wait_until(&flag, SHMEM_CMP_GE, round);
    (void) shmem_long_test(&flag, SHMEM_CMP_EQ, 0);
    STAT("waits", 1);
}
static void u_query(rng_t * g)
{
    (void) g;
    int a, b;
    char nm[SHMEM_MAX_NAME_LEN];
    shmem_info_get_version(&a, &b);
    shmem_info_get_name(nm);
    (void) shmem_ptr(tgt, hc_me);
    (void) shmem_addr_accessible(tgt, 0);
    (void) shmem_pe_accessible(0);
    shmem_query_thread(&a);
    shmem_fence();
}
static const struct { const char *name; void (*f) (rng_t *); int common; } U[] = {
    {"teams", u_teams, 1}, {"spaces", u_space, 1}, {"active sets", u_sets, 1}, {"strided", u_strided, 0}, {"operations", u_ops, 0},
    {"atomics", u_amos, 0}, {"large transfers", u_big, 0}, {"heap", u_heap, 1}, {"locks", u_locks, 0}, {"wait", u_wait, 0},
    {"queries", u_query, 0}, {"spaces", u_space, 1}, {"teams", u_teams, 1},
};
#define NU ((int) (sizeof U / sizeof U[0]))

static size_t largest(size_t max)
{
    size_t lo = 0, hi = max;
    while (hi - lo > 16) {
        size_t m = (lo + hi) / 2;
        void *p = shmem_malloc(m);
        if (p) {
            shmem_free(p);
            lo = m;
        } else
            hi = m;
    }
    return lo;
}
SCENARIO(churn)
{
    int laps = (int) hc_arg("laps", 24), left = (int) hc_arg("left", 1), space = (int) hc_arg("space", 1);
    long heap = hc_arg("heap", 4194304);
    rng_t g = rng_of(120, 0);
    shmem_init();
    hc_attach();
    world_open(hc_np * 8, space, 1);
    for (int i = 0; i < 4; i++)
        for (unsigned j = 0; j < sizeof P[0] / sizeof(long); j++)
            P[i][j] = SHMEM_SYNC_VALUE;
    for (int i = 0; i < NL; i++) {
        lay[i].n = (int) rndr(&g, 1, 40);
        lay[i].st = (int) rndr(&g, 1, 4);
        lay[i].ls = (int) rndr(&g, 1, 4);
        lay[i].form = (int) rndn(&g, 4);
        set[i].s = (int) rndn(&g, (uint64_t) hc_np);
        set[i].l = (int) rndn(&g, 2);
        set[i].z = 1 + (int) rndn(&g, (uint64_t) ((hc_np - 1 - set[i].s) / (1 << set[i].l) + 1));
        tm[i].s = (int) rndn(&g, (uint64_t) hc_np);
        tm[i].st = (int) rndr(&g, 1, 2);
        tm[i].z = 1 + (int) rndn(&g, (uint64_t) ((hc_np - 1 - tm[i].s) / tm[i].st + 1));
        tm[i].s2 = (int) rndn(&g, (uint64_t) tm[i].z);
        tm[i].st2 = 1;
        tm[i].z2 = 1 + (int) rndn(&g, (uint64_t) (tm[i].z - tm[i].s2));
    }
    int warm = laps / 3;
    long top[KINDS], v[KINDS], whole = 0;
    char what[400] = "";
    for (int lap = 0; lap < laps; lap++) {
        rng_t c = rng_of(121, (uint64_t) lap), own = rng_of(122 + (uint64_t) lap, (uint64_t) hc_me + 1);
        if (lap == warm)
            what[0] = 0;
        /* the warm-up does everything often enough for every cache to have seen the whole pool */
        int n = lap < warm ? NU * 3 : (int) rndr(&c, 2, NU);
        for (int i = 0; i < n; i++) {
            int u = lap < warm ? i % NU : (int) rndn(&c, NU);
            hc_where(U[u].name, lap, i, 0);
            U[u].f(U[u].common ? &c : &own);
            hc_tick(U[u].name);
            STAT("cycles", 1);
            if (lap >= warm && !strstr(what, U[u].name) && strlen(what) < 300)
                sprintf(what + strlen(what), "%s%s", what[0] ? ", " : "", U[u].name);
        }
        if (lap == 0)           /* every entry of the pools */
            for (fk = NL - 1; fk >= 0; fk--) {
                for (fw = 0; fw < hc_np; fw++)
                    u_strided(&own);
                for (fw = 0; fw < 8; fw++) {
                    u_sets(&c);
                    u_teams(&c);
                }
            }
        shmem_quiet();
        shmem_barrier_all();
        hc_barrier_poll();
        measure(v);
        STAT("measurements", KINDS);
        if (lap == warm - 1) {
            memcpy(top, v, sizeof top);
            top[5] += 3;        /* a helper thread keeps a receive posted, most of the time */
            whole = (long) largest((size_t) heap);
        }
        if (lap < warm)
            continue;
        /* a helper thread may hold something for a moment; what has not been given back stays */
        for (int k = 0; k < 300; k++) {
            int more = 0;
            for (int i = 0; i < KINDS; i++)
                more |= v[i] > top[i];
            if (!more)
                break;
            usleep(500);
            long w[KINDS];
            measure(w);
            for (int i = 0; i < KINDS; i++)
                v[i] = w[i] < v[i] ? w[i] : v[i];
        }
        for (int i = 0; i < KINDS; i++)
            if (v[i] > top[i]) {
                /* caches are full by now: whatever is more after a lap than before has not been given back */
                FAIL("growth:library", "PE %d: %ld %s after lap %d, %ld before lap %d (laps of: %s)", hc_me, v[i], kindname[i],
                     lap, top[i], warm, what);
                lap = laps;
            }
    }
    void *p = whole ? shmem_malloc((size_t) whole) : NULL;
    if (whole && !p)
        FAIL("growth:heap", "PE %d: after %d laps a block of %ld bytes, free before them, is not to be had", hc_me, laps - warm, whole);
    if (p)
        shmem_free(p);
    STAT("measurements", 1);
    world_close();
    /* teams a program leaves alone are the library's to release */
    for (int i = 0; i < left; i++) {
        shmem_team_t t = SHMEM_TEAM_INVALID;
        shmem_team_split_strided(SHMEM_TEAM_WORLD, tm[i].s, tm[i].st, tm[i].z, NULL, 0, &t);
        STAT("teams_left", t != SHMEM_TEAM_INVALID);
    }
    hc_detach();
    shmem_finalize();
}
