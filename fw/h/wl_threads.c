/* Threads of a PE that call the library at the same time (P20).
 * Every worker owns an area at every PE in every region and knows what it must hold; shared objects are only touched by
 * operations whose combined effect does not depend on the order. The main thread makes the collective calls meanwhile. */
#include "hc.h"
#include <sched.h>
#include "types.h"
#include <pthread.h>
static int T;

#define MAXT 4
#define MAXPE 8
#define CH 64                   /* bytes per chunk */
#define NCH 6                   /* chunks of an area */
#define NCELL 6                 /* cells for atomics */
#define AREA 512                /* chunks, cells, and a guard up to the end */
#define CELLS (CH * NCH)
#define USED (CELLS + 8 * NCELL)
#define NREG 3
#define NCTR 4
#define SEENMAX 40000

static char statreg[MAXPE * MAXT * AREA] __attribute__((aligned(128)));
static char *reg[NREG];
static shmem_ctx_t wctx[MAXT];
static int nreg, nth_ctx;
static shmemx_space_t the_space;
static long flagv[MAXT], ackv[MAXT];
static long ring[MAXT][24];
static long locks[MAXT];
static long lockcnt[MAXT];
static unsigned long ctr_inc[NCTR];
static long ctr_add[NCTR];
static unsigned int ctr_or[MAXT];
static struct shared {
    long inc_issued[MAXPE][NCTR], add_sum[MAXPE][NCTR], lock_rounds[MAXT];
    unsigned int or_bits[MAXPE][MAXT];
    unsigned char seen[MAXPE][NCTR][SEENMAX];
    /* a thread of every PE that never calls the library reads what it holds for those who ask: state 1 asked, 2 answered */
    struct { int state, owner, r; long off; unsigned char data[CH]; } box[MAXPE][MAXT];
} *sh;
static int stop_witness;
static void *witness(void *arg)
{
    while (!__atomic_load_n(&stop_witness, __ATOMIC_SEQ_CST)) {
        for (int p = 0; p < hc_np; p++)
            for (int t = 0; t < T; t++)
                if (__atomic_load_n(&sh->box[p][t].state, __ATOMIC_SEQ_CST) == 1 && sh->box[p][t].owner == hc_me) {
                    memcpy(sh->box[p][t].data, reg[sh->box[p][t].r] + sh->box[p][t].off, CH);
                    __atomic_store_n(&sh->box[p][t].state, 2, __ATOMIC_SEQ_CST);
                }
        usleep(20);
    }
    return NULL;
}
static void look(int pe, int r, const char *at, int t, unsigned char *got)
{
    sh->box[hc_me][t].owner = pe;
    sh->box[hc_me][t].r = r;
    sh->box[hc_me][t].off = at - reg[r];
    __atomic_store_n(&sh->box[hc_me][t].state, 1, __ATOMIC_SEQ_CST);
    while (__atomic_load_n(&sh->box[hc_me][t].state, __ATOMIC_SEQ_CST) != 2)
        usleep(5);
    memcpy(got, sh->box[hc_me][t].data, CH);
    STAT("looks", 1);
}
static int done_workers, steps;

typedef struct {
    int t;
    unsigned char model[MAXPE][NREG][AREA];
} worker_t;
static worker_t wk[MAXT];

static char *area_at(int r, int pe_owner, int t) { return reg[r] + ((long) pe_owner * T + t) * AREA; }

#define N_BATCH 6
typedef struct { int pe, r, ch, kind; unsigned char buf[CH * 4]; } pend_t;

static void check_chunk(worker_t * w, int pe, int r, int ch, const char *when, int seen)
{
    unsigned char got[CH];
    memset(got, 0xee, sizeof got);
    if (seen)
        look(pe, r, area_at(r, hc_me, w->t) + ch * CH, w->t, got);
    else
        shmem_getmem(got, area_at(r, hc_me, w->t) + ch * CH, CH, pe);
    long d = hc_diff(got, w->model[pe][r] + ch * CH, CH);
    if (d >= 0) {
        FAIL("thread-data", "thread %d: %s, byte %ld of its own chunk %d at PE %d region %d is %02x, expected %02x", w->t, when, d, ch,
             pe, r, got[d], w->model[pe][r][ch * CH + d]);
        memcpy(w->model[pe][r] + ch * CH, got, CH);
    }
    STAT("chunks_checked", 1);
}

/* a batch of updates to distinct chunks and cells of the own area, completed once */
static void batch(worker_t * w, rng_t * g)
{
    static __thread pend_t p[N_BATCH];
    int n = 1 + (int) rndn(g, N_BATCH), on_ctx = nth_ctx && rndn(g, 4) == 0, am = 0;
    int used[N_BATCH][3], nu = 0;
    shmem_ctx_t cx = on_ctx ? wctx[w->t] : SHMEM_CTX_DEFAULT;
    struct { int pe, r, c; } cell[N_BATCH];
    int nc = 0;
    for (int i = 0; i < n; i++) {
        pend_t *o = &p[i];
        o->pe = (int) rndn(g, (uint64_t) hc_np);
        o->r = on_ctx ? 2 : (int) rndn(g, (uint64_t) nreg);
        shmem_ctx_t c = on_ctx ? cx : (o->r == 2 && nth_ctx && 0) ? wctx[w->t] : SHMEM_CTX_DEFAULT;
        o->kind = (int) rndn(g, 10);
        char *base = area_at(o->r, hc_me, w->t);
        unsigned char *m = w->model[o->pe][o->r];
        if (o->kind >= 7) {     /* a non-fetching atomic */
            int cn = (int) rndn(g, NCELL), dup = 0;
            for (int k = 0; k < nc; k++)
                dup |= cell[k].pe == o->pe && cell[k].r == o->r && cell[k].c == cn;
            if (dup)
                continue;
            cell[nc].pe = o->pe, cell[nc].r = o->r, cell[nc++].c = cn;
            unsigned long *a = (unsigned long *) (base + CELLS) + cn, v = rnd(g), cur;
            unsigned char *mc = m + CELLS + 8 * cn;
            memcpy(&cur, mc, 8);
            switch (rndn(g, 4)) {
                case 0: shmem_ctx_ulong_atomic_add(c, a, v, o->pe); cur += v; break;
                case 1: shmem_ctx_ulong_atomic_xor(c, a, v, o->pe); cur ^= v; break;
                case 2: shmem_ctx_ulong_atomic_set(c, a, v, o->pe); cur = v; break;
                case 3: shmem_ctx_ulong_atomic_inc(c, a, o->pe); cur++; break;
            }
            memcpy(mc, &cur, 8);
            am = 1;
            STAT("thread_amos", 1);
            continue;
        }
        o->ch = (int) rndn(g, NCH);
        int dup = 0;
        for (int k = 0; k < nu; k++)
            dup |= used[k][0] == o->pe && used[k][1] == o->r && used[k][2] == o->ch;
        if (dup)
            continue;
        used[nu][0] = o->pe, used[nu][1] = o->r, used[nu++][2] = o->ch;
        for (size_t k = 0; k < sizeof o->buf; k++)
            o->buf[k] = (unsigned char) rnd(g);
        char *d = base + o->ch * CH;
        unsigned char *md = m + o->ch * CH;
        switch (o->kind) {
            case 0: case 1: {
                int off = (int) rndn(g, CH), len = (int) rndn(g, (uint64_t) (CH - off)) + 1;
                memcpy(md + off, o->buf, (size_t) len);
                shmem_ctx_putmem(c, d + off, o->buf, (size_t) len, o->pe);
                memset(o->buf, 0x11, sizeof o->buf);    /* its source is free again */
                break;
            }
            case 2: case 3: {
                int off = (int) rndn(g, CH), len = (int) rndn(g, (uint64_t) (CH - off)) + 1;
                memcpy(md + off, o->buf, (size_t) len);
                shmem_ctx_putmem_nbi(c, d + off, o->buf, (size_t) len, o->pe);
                break;
            }
            case 4: {
                int x;
                memcpy(&x, o->buf, 4);
                int at = (int) rndn(g, CH / 4);
                memcpy(md + 4 * at, &x, 4);
                shmem_ctx_int_p(c, (int *) d + at, x, o->pe);
                break;
            }
            default: {
                int dst = 1 + (int) rndn(g, 4), sst = 1 + (int) rndn(g, 4), cnt = 1 + (int) rndn(g, (uint64_t) (CH / 4 / dst - 1) + 1);
                while ((cnt - 1) * dst >= CH / 4)
                    cnt--;
                for (int k = 0; k < cnt; k++)
                    memcpy(md + 4 * k * dst, o->buf + 4 * k * sst, 4);
                shmem_ctx_int_iput(c, (int *) d, (int *) o->buf, dst, sst, (size_t) cnt, o->pe);
                memset(o->buf, 0x22, sizeof o->buf);
                COVER(20, 1, dst, sst, cnt);
            }
        }
        STAT("thread_puts", 1);
    }
    if (on_ctx && rndn(g, 2))
        shmem_ctx_quiet(cx);
    else
        shmem_quiet();
    COVER(20, 2, on_ctx, nu, nc, am);
    /* what was written must be there now */
    for (int k = 0; k < nu; k++)
        if (rndn(g, 2))
            check_chunk(w, used[k][0], used[k][1], used[k][2], "after quiet", (int) rndn(g, 2));
    for (int k = 0; k < nc; k++)
        if (rndn(g, 2)) {
            unsigned char *mc = w->model[cell[k].pe][cell[k].r] + CELLS + 8 * cell[k].c;
            unsigned long cur, got;
            memcpy(&cur, mc, 8);
            if (rndn(g, 3)) {
                unsigned char b[CH];
                look(cell[k].pe, cell[k].r, area_at(cell[k].r, hc_me, w->t) + CELLS, w->t, b);
                memcpy(&got, b + 8 * cell[k].c, 8);
            } else
                got = shmem_ulong_atomic_fetch((unsigned long *) (area_at(cell[k].r, hc_me, w->t) + CELLS) + cell[k].c, cell[k].pe);
            if (got != cur)
                FAIL("thread-amo", "thread %d: after quiet its cell %d at PE %d region %d is %lx, expected %lx", w->t, cell[k].c, cell[k].pe,
                     cell[k].r, got, cur);
        }
}

/* fetching atomics on own cells: the old value is known */
static void fetching(worker_t * w, rng_t * g)
{
    int pe = (int) rndn(g, (uint64_t) hc_np), r = (int) rndn(g, (uint64_t) nreg), c = (int) rndn(g, NCELL);
    unsigned long *a = (unsigned long *) (area_at(r, hc_me, w->t) + CELLS) + c, v = rnd(g), cur, got;
    unsigned char *mc = w->model[pe][r] + CELLS + 8 * c;
    memcpy(&cur, mc, 8);
    unsigned long old = cur;
    int k = (int) rndn(g, 6);
    switch (k) {
        case 0: got = shmem_ulong_atomic_fetch_add(a, v, pe); cur += v; break;
        case 1: got = shmem_ulong_atomic_fetch_xor(a, v, pe); cur ^= v; break;
        case 2: got = shmem_ulong_atomic_swap(a, v, pe); cur = v; break;
        case 3: got = shmem_ulong_atomic_compare_swap(a, cur, v, pe); cur = v; break;
        case 4: got = shmem_ulong_atomic_compare_swap(a, cur + 1, v, pe); break;
        default: got = shmem_ulong_atomic_fetch_inc(a, pe); cur++;
    }
    if (got != old)
        FAIL("thread-fetch", "thread %d: fetching atomic %d on its cell %d at PE %d region %d returned %lx, expected %lx", w->t, k, c, pe, r,
             got, old);
    memcpy(mc, &cur, 8);
    STAT("thread_fetches", 1);
    COVER(20, 3, k, r, pe == hc_me);
    /* the next operation on the cell may be of another kind */
    shmem_quiet();
}

static void gets(worker_t * w, rng_t * g)
{
    unsigned char b[3][CH];
    int pe[3], r[3], ch[3];
    for (int i = 0; i < 3; i++) {
        pe[i] = (int) rndn(g, (uint64_t) hc_np);
        r[i] = (int) rndn(g, (uint64_t) nreg);
        ch[i] = (int) rndn(g, NCH);
        memset(b[i], 0x77, CH);
        shmem_getmem_nbi(b[i], area_at(r[i], hc_me, w->t) + ch[i] * CH, CH, pe[i]);
    }
    int st = 1 + (int) rndn(g, 4), sp = (int) rndn(g, (uint64_t) hc_np), sr = (int) rndn(g, (uint64_t) nreg), sc = (int) rndn(g, NCH);
    int v[CH / 4 * 4], cnt = (CH / 4 - 1) / st + 1, ds = 1 + (int) rndn(g, 3);
    memset(v, 0x55, sizeof v);
    shmem_int_iget(v, (int *) (area_at(sr, hc_me, w->t) + sc * CH), ds, st, (size_t) cnt, sp);
    for (int i = 0; i < cnt; i++)
        if (memcmp(&v[i * ds], w->model[sp][sr] + sc * CH + 4 * i * st, 4))
            FAIL("thread-iget", "thread %d: iget element %d from PE %d region %d stride %d is %x", w->t, i, sp, sr, st, (unsigned) v[i * ds]);
    shmem_quiet();
    for (int i = 0; i < 3; i++)
        if (hc_diff(b[i], w->model[pe[i]][r[i]] + ch[i] * CH, CH) >= 0)
            FAIL("thread-get", "thread %d: non-blocking get from PE %d region %d chunk %d is wrong after quiet", w->t, pe[i], r[i], ch[i]);
    STAT("thread_gets", 4);
}

static void shared_counters(worker_t * w, rng_t * g)
{
    int pe = (int) rndn(g, (uint64_t) hc_np), c = (int) rndn(g, NCTR);
    unsigned long o = shmem_ulong_atomic_fetch_inc(&ctr_inc[c], pe);
    __atomic_fetch_add(&sh->inc_issued[pe][c], 1, __ATOMIC_SEQ_CST);
    if (o < SEENMAX)
        __atomic_fetch_add(&sh->seen[pe][c][o], 1, __ATOMIC_SEQ_CST);
    else
        FAIL("thread-counter", "fetch_inc returned %lu", o);
    long v = (long) rndn(g, 1000) - 500;
    shmem_long_atomic_add(&ctr_add[c], v, pe);
    __atomic_fetch_add(&sh->add_sum[pe][c], v, __ATOMIC_SEQ_CST);
    unsigned int bit = 1u << rndn(g, 32);
    shmem_uint_atomic_or(&ctr_or[w->t], bit, pe);
    __atomic_fetch_or(&sh->or_bits[pe][w->t], bit, __ATOMIC_SEQ_CST);
    STAT("thread_counters", 3);
}

/* a message to the same thread of the next PE: data, fence, flag */
static void ring_round(worker_t * w, rng_t * g, long rd)
{
    int t = w->t, to = (hc_me + 1) % hc_np, from = (hc_me + hc_np - 1) % hc_np;
    long d[8];
    if (rd > 1)
        shmem_long_wait_until(&ackv[t], SHMEM_CMP_GE, rd - 1);
    for (int i = 0; i < 8; i++)
        d[i] = rd * 1000 + hc_me * 100 + i;
    int n = (int) rndn(g, 3);
    if (n == 0)
        shmem_long_put(ring[t], d, 8, to);
    else if (n == 1)
        shmem_long_iput(ring[t], d, 1, 1, 8, to);
    else
        for (int i = 0; i < 8; i++)
            shmem_long_atomic_set(&ring[t][i], d[i], to);
    int q = (int) rndn(g, 2);
    if (q)
        shmem_quiet();
    else
        shmem_fence();
    shmem_long_atomic_set(&flagv[t], rd, to);
    shmem_quiet();
    if (rndn(g, 2))
        shmem_long_wait_until(&flagv[t], SHMEM_CMP_EQ, rd);
    else
        while (!shmem_long_test(&flagv[t], SHMEM_CMP_EQ, rd)) ;
    for (int i = 0; i < 8; i++) {
        long x = __atomic_load_n(&ring[t][i], __ATOMIC_SEQ_CST);
        if (x != rd * 1000 + from * 100 + i) {
            FAIL("thread-ring", "thread %d: round %ld: word %d from PE %d is %ld after its flag", t, rd, i, from, x);
            break;
        }
    }
    shmem_long_atomic_set(&ackv[t], rd, from);
    shmem_quiet();
    STAT("thread_messages", 1);
    COVER(20, 4, n, q, t);
}

static void locked(worker_t * w, rng_t * g)
{
    int t = w->t, home = t % hc_np;
    if (rndn(g, 2))
        shmem_set_lock(&locks[t]);
    else
        while (shmem_test_lock(&locks[t])) ;
    long v = shmem_long_g(&lockcnt[t], home);
    shmem_long_p(&lockcnt[t], v + 1, home);
    shmem_clear_lock(&locks[t]);
    __atomic_fetch_add(&sh->lock_rounds[t], 1, __ATOMIC_SEQ_CST);
    STAT("thread_locks", 1);
}

/* give the context back and take one again: no two threads may hold the same one */
static pthread_mutex_t cxm = PTHREAD_MUTEX_INITIALIZER;
static shmem_ctx_t held[MAXT];
static void claim(int t, shmem_ctx_t c)
{
    pthread_mutex_lock(&cxm);
    for (int i = 0; c != SHMEM_CTX_INVALID && i < T; i++)
        if (i != t && held[i] == c)
            FAIL("thread-ctx", "threads %d and %d were given the same context", t, i);
    held[t] = c;
    pthread_mutex_unlock(&cxm);
}
static void churn_ctx(worker_t * w)
{
    claim(w->t, SHMEM_CTX_INVALID);
    shmem_ctx_destroy(wctx[w->t]);
    wctx[w->t] = SHMEM_CTX_INVALID;
    if (shmemx_space_create_ctx(the_space, 0, &wctx[w->t])) {
        FAIL("thread-ctx", "thread %d: no context left", w->t);
        exit(0);
    }
    claim(w->t, wctx[w->t]);
    STAT("thread_ctxs", 1);
}
/* all threads at once, over and over */
static int met, met_gen;
static void meet(void)
{
    int gen = __atomic_load_n(&met_gen, __ATOMIC_SEQ_CST), k = 0;
    if (__atomic_add_fetch(&met, 1, __ATOMIC_SEQ_CST) == T) {
        __atomic_store_n(&met, 0, __ATOMIC_SEQ_CST);
        __atomic_add_fetch(&met_gen, 1, __ATOMIC_SEQ_CST);
    } else
        while (__atomic_load_n(&met_gen, __ATOMIC_SEQ_CST) == gen)
            if (++k > 200)
                sched_yield();
}
static void contest(worker_t * w, int laps)
{
    for (int i = 0; i < laps; i++) {
        claim(w->t, SHMEM_CTX_INVALID);
        shmem_ctx_destroy(wctx[w->t]);
        wctx[w->t] = SHMEM_CTX_INVALID;
        meet();
        int rc = shmemx_space_create_ctx(the_space, 0, &wctx[w->t]);
        if (rc) {
            FAIL("thread-ctx", "thread %d: no context left", w->t);
            exit(0);
        }
        claim(w->t, wctx[w->t]);
        meet();
    }
    STAT("thread_ctxs", laps);
}
static void queries(worker_t * w, rng_t * g)
{
    int pe = (int) rndn(g, (uint64_t) hc_np), r = (int) rndn(g, (uint64_t) nreg), x = 0;
    char *a = area_at(r, hc_me, w->t);
    if (shmem_my_pe() != hc_me || shmem_n_pes() != hc_np)
        FAIL("thread-query", "thread %d: PE %d of %d", w->t, shmem_my_pe(), shmem_n_pes());
    if (!shmem_addr_accessible(a, pe) || shmem_addr_accessible(&x, pe))
        FAIL("thread-query", "thread %d: accessibility of region %d or of a local variable at PE %d", w->t, r, pe);
    if (shmem_ptr(a, hc_me) != a)
        FAIL("thread-query", "thread %d: local pointer of region %d", w->t, r);
}

/* collectives of this thread on active sets and teams no other thread uses */
#define NSETS 64
static struct { int start, ls, n; } sets[NSETS];
static int nsets;
static long spsync[MAXT][2][SHMEM_ALLTOALL_SYNC_SIZE + SHMEM_COLLECT_SYNC_SIZE + SHMEM_REDUCE_SYNC_SIZE + SHMEM_BCAST_SYNC_SIZE];
static long spwrk[MAXT][SHMEM_REDUCE_MIN_WRKDATA_SIZE + 16], ssrc[MAXT][4 * MAXPE], sdst[MAXT][4 * MAXPE];
static shmem_team_t tteam[MAXT];
static void enum_sets(void)
{
    for (int ls = 0; ls < 4; ls++)
        for (int st = 0; st < hc_np; st++)
            for (int n = 1; st + (n - 1) * (1 << ls) < hc_np && nsets < NSETS; n++)
                if (n < hc_np)
                    sets[nsets].start = st, sets[nsets].ls = ls, sets[nsets++].n = n;
    for (size_t t = 0; t < MAXT; t++)
        for (size_t i = 0; i < sizeof spsync[t] / sizeof(long); i++)
            spsync[t][i / (sizeof spsync[t][0] / sizeof(long))][i % (sizeof spsync[t][0] / sizeof(long))] = SHMEM_SYNC_VALUE;
}
static void own_sets(worker_t * w, rng_t * cg, long k)
{
    int t = w->t, i = (int) rndn(cg, (uint64_t) ((nsets - t + T - 1) / T)) * T + t, what = (int) rndn(cg, 6);
    long *d = sdst[t], *s = ssrc[t];
    int start = sets[i].start, ls = sets[i].ls, n = sets[i].n, st = 1 << ls, root = (int) rndn(cg, (uint64_t) n);
    int idx = hc_me - start;
    if (idx < 0 || idx % st || (idx /= st) >= n)
        return;
    for (int x = 0; x < 4 * n; x++)
        s[x] = k * 1000 + idx * 100 + x, d[x] = -7;
    shmem_barrier(start, ls, n, spsync[t][0]);
    long e[4 * MAXPE];
    for (int x = 0; x < 4 * n; x++)
        e[x] = -7;
    switch (what) {
        case 0: shmem_sync(start, ls, n, spsync[t][1]); break;
        case 1:
            shmem_long_sum_to_all(d, s, 4, start, ls, n, spwrk[t], spsync[t][1]);
            for (int x = 0; x < 4; x++)
                e[x] = n * (k * 1000 + x) + 100 * (n * (n - 1) / 2);
            break;
        case 2:
            shmem_broadcast64(d, s, 4, root, start, ls, n, spsync[t][1]);
            for (int x = 0; x < 4 && idx != root; x++)
                e[x] = k * 1000 + root * 100 + x;
            break;
        case 3:
            shmem_fcollect64(d, s, 4, start, ls, n, spsync[t][1]);
            for (int x = 0; x < 4 * n; x++)
                e[x] = k * 1000 + x / 4 * 100 + x % 4;
            break;
        case 4:
            shmem_collect64(d, s, 3, start, ls, n, spsync[t][1]);
            for (int x = 0; x < 3 * n; x++)
                e[x] = k * 1000 + x / 3 * 100 + x % 3;
            break;
        case 5:
            shmem_alltoall64(d, s, 4, start, ls, n, spsync[t][1]);
            for (int x = 0; x < 4 * n; x++)
                e[x] = k * 1000 + x / 4 * 100 + idx * 4 + x % 4;
    }
    if (memcmp(d, e, (size_t) n * 32))
        for (int x = 0; x < 4 * n; x++)
            if (d[x] != e[x]) {
                FAIL("thread-set", "thread %d: collective %d on the active set (%d, %d, %d): element %d is %ld, expected %ld", t, what, start,
                     ls, n, x, d[x], e[x]);
                break;
            }
    shmem_barrier(start, ls, n, spsync[t][0]);
    STAT("thread_sets", 1);
    COVER(20, 6, what, start, ls, n);
}
static void own_team(worker_t * w, rng_t * cg, long k)
{
    int t = w->t, st = 1 + (int) rndn(cg, 2), start = (int) rndn(cg, (uint64_t) hc_np), n = 1 + (int) rndn(cg, (uint64_t) ((hc_np - 1 - start) / st + 1));
    int idx = hc_me - start, in = idx >= 0 && idx % st == 0 && idx / st < n;
    shmem_team_t c = SHMEM_TEAM_INVALID;
    shmem_team_split_strided(tteam[t], start, st, n, NULL, 0, &c);
    if ((c != SHMEM_TEAM_INVALID) != in)
        FAIL("thread-team", "thread %d: team (%d, %d, %d) of its own team: PE %d is %sa member", t, start, st, n, hc_me, in ? "not " : "");
    else if (in) {
        if (shmem_team_n_pes(c) != n || shmem_team_my_pe(c) != idx / st)
            FAIL("thread-team", "thread %d: size %d, rank %d", t, shmem_team_n_pes(c), shmem_team_my_pe(c));
        for (int i = 0; i < n; i++)
            if (shmem_team_translate_pe(c, i, SHMEM_TEAM_WORLD) != start + i * st)
                FAIL("thread-team", "thread %d: its team's PE %d is %d", t, i, shmem_team_translate_pe(c, i, SHMEM_TEAM_WORLD));
        long *d = sdst[t], *s = ssrc[t];
        for (int x = 0; x < 4; x++)
            s[x] = k * 10 + idx + x, d[x] = -1;
        shmem_team_sync(c);
        shmem_long_max_reduce(c, d, s, 4);
        for (int x = 0; x < 4; x++)
            if (d[x] != k * 10 + (n - 1) * st + x)
                FAIL("thread-team", "thread %d: maximum in its team is %ld", t, d[x]);
        shmem_team_sync(c);
        shmem_team_destroy(c);
    }
    shmem_team_sync(tteam[t]);
    STAT("thread_teams", 1);
    COVER(20, 7, start, st, n);
}

static void *worker(void *arg)
{
    worker_t *w = arg;
    rng_t g = rng_of(2000, (uint64_t) (hc_me * 16 + w->t)), cg = rng_of(2003, (uint64_t) w->t);
    long rd = 0;
    int only = (int) hc_arg("only", -1);
    if (nth_ctx)
        contest(w, (int) hc_arg("contest", 150));
    for (int s = 0; s < steps; s++) {
        hc_jitter(&g);
        if (s % 5 == 4 && (only < 0 || only == 4))
            ring_round(w, &g, ++rd);
        if (s % 6 == 3 && (only < 0 || only == 6))
            own_sets(w, &cg, s);
        if (s % 9 == 5 && (only < 0 || only == 7))
            own_team(w, &cg, s);
        int k = (int) rndn(&g, 12);
        if (only >= 0)
            k = (int[]) { 0, 6, 8, 9, 12, 11, 12, 12 }[only];
        if (k < 6)
            batch(w, &g);
        else if (k < 8)
            fetching(w, &g);
        else if (k < 9)
            gets(w, &g);
        else if (k < 11)
            shared_counters(w, &g);
        else if (k < 12)
            locked(w, &g);
        if (nth_ctx && rndn(&g, 6) == 0)
            churn_ctx(w);
        if (rndn(&g, 8) == 0)
            queries(w, &g);
        if (s % 4 == 0)
            hc_tick("step");
    }
    shmem_quiet();
    __atomic_fetch_add(&done_workers, 1, __ATOMIC_SEQ_CST);
    return NULL;
}

static void main_round(long rd, rng_t * g)
{
    int right = (hc_me + 1) % hc_np, left = (hc_me + hc_np - 1) % hc_np;
    static long src[16], dst[16 * MAXPE];
    int what = (int) rndn(g, 8);
    hc_where("main", what, rd, 0);
    COVER(20, 5, what, T, hc_np);
    switch (what) {
        case 0: shmem_barrier_all(); break;
        case 1: shmem_sync_all(); break;
        case 2:
            for (int i = 0; i < 16; i++)
                src[i] = rd + hc_me * 7 + i;
            shmem_long_sum_reduce(SHMEM_TEAM_WORLD, dst, src, 16);
            for (int i = 0; i < 16; i++)
                if (dst[i] != hc_np * (rd + i) + 7 * hc_np * (hc_np - 1) / 2)
                    FAIL("thread-coll", "sum of element %d is %ld in round %ld", i, dst[i], rd);
            shmem_barrier_all();
            break;
        case 3:
            for (int i = 0; i < 16; i++)
                src[i] = rd * 100 + hc_me * 16 + i;
            shmem_long_fcollect(SHMEM_TEAM_WORLD, dst, src, 16);
            for (int i = 0; i < 16 * hc_np; i++)
                if (dst[i] != rd * 100 + i)
                    FAIL("thread-coll", "fcollect element %d is %ld in round %ld", i, dst[i], rd);
            shmem_barrier_all();
            break;
        case 4: case 5: {
            size_t n = 64 + (size_t) rndn(g, 4000);
            unsigned char *p = what == 4 ? shmem_malloc(n) : shmem_calloc(n, 1), *b = malloc(n);
            if (!p) {
                FAIL("thread-heap", "allocation of %zu failed", n);
                free(b);
                break;
            }
            for (int i = 0; i < T; i++) /* disjoint from what the workers use */
                if (p < (unsigned char *) reg[0] + (long) hc_np * T * AREA && p + n > (unsigned char *) reg[0])
                    FAIL("thread-heap", "a new block overlaps a live one");
            hc_fill(b, n, hc_mix((uint64_t) (rd * 64 + hc_me)));
            shmem_putmem(p, b, n, right);
            shmem_barrier_all();
            hc_fill(b, n, hc_mix((uint64_t) (rd * 64 + left)));
            if (hc_diff(p, b, n) >= 0)
                FAIL("thread-heap", "round %ld: a block of %zu does not hold what PE %d put", rd, n, left);
            shmem_barrier_all();
            shmem_free(p);
            free(b);
            break;
        }
        case 6: {
            shmemx_space_config_t c;
            shmemx_space_t sp;
            memset(&c, 0, sizeof c);
            c.sheap_size = 16384;
            c.num_contexts = 1;
            c.memkind = SHMEMX_MEM_HOST;
            shmemx_space_create(c, &sp);
            shmemx_space_attach(sp);
            long *p = shmemx_space_malloc(sp, 64 * sizeof(long)), v[8], u[8];
            shmem_ctx_t cx = SHMEM_CTX_INVALID;
            int hc = shmemx_space_create_ctx(sp, 0, &cx) == 0;
            for (int i = 0; i < 8; i++)
                v[i] = rd * 10 + hc_me + i, u[i] = -v[i];
            shmem_long_put_nbi(p, v, 8, right);
            if (hc)
                shmem_ctx_long_put_nbi(cx, p + 8, u, 8, right);
            shmem_long_atomic_add(p + 16 + hc_me, rd, right);
            shmem_barrier_all();
            if (hc)
                shmem_ctx_quiet(cx);
            shmem_barrier_all();
            for (int i = 0; i < 8; i++)
                if (p[i] != rd * 10 + left + i || (hc && p[8 + i] != -(rd * 10 + left + i)))
                    FAIL("thread-space", "round %ld: word %d put by PE %d is %ld %ld", rd, i, left, p[i], p[8 + i]);
            if (hc)
                shmem_ctx_destroy(cx);
            shmem_barrier_all();
            shmemx_space_detach(sp);
            shmem_free(p);
            shmemx_space_destroy(sp);
            STAT("thread_spaces", 1);
            break;
        }
        case 7: {
            shmem_team_t t = SHMEM_TEAM_INVALID;
            int st = 1 + (int) rndn(g, 2), n = (hc_np - 1) / st + 1;
            shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, st, n, NULL, 0, &t);
            if (t != SHMEM_TEAM_INVALID) {
                if (shmem_team_n_pes(t) != n || shmem_team_my_pe(t) != hc_me / st)
                    FAIL("thread-team", "round %ld: size %d, rank %d", rd, shmem_team_n_pes(t), shmem_team_my_pe(t));
                shmem_team_sync(t);
                shmem_team_destroy(t);
            } else if (hc_me % st == 0)
                FAIL("thread-team", "round %ld: a member got no team", rd);
            break;
        }
    }
    STAT("main_rounds", 1);
    hc_tick("main");
}

SCENARIO(threads)
{
    int prov = -1;
    sh = hc_shared(sizeof *sh);
    shmem_init_thread(SHMEM_THREAD_MULTIPLE, &prov);
    hc_attach();
    if (prov != SHMEM_THREAD_MULTIPLE)
        FAIL("harness", "provided thread level is %d", prov);
    T = (int) hc_arg("threads", 3);
    steps = (int) hc_arg("steps", 40);
    long rounds = hc_arg("rounds", 8);
    int sp = (int) hc_arg("space", 1);
    size_t bytes = (size_t) hc_np * (size_t) T * AREA;
    shmemx_space_t space;
    reg[0] = shmem_align(128, bytes);
    reg[1] = statreg;
    nreg = 2;
    if (sp) {
        shmemx_space_config_t c;
        memset(&c, 0, sizeof c);
        c.sheap_size = bytes + 65536;
        c.num_contexts = T;
        c.memkind = SHMEMX_MEM_HOST;
        shmemx_space_create(c, &space);
        shmemx_space_attach(space);
        reg[2] = shmemx_space_malloc(space, bytes);
        nreg = 3;
        nth_ctx = 1;
        for (int t = 0; t < T; t++)
            if (shmemx_space_create_ctx(space, 0, &wctx[t]))
                nth_ctx = 0;
            else
                claim(t, wctx[t]);
        the_space = space;
    }
    for (int r = 0; r < nreg; r++)
        for (int p = 0; p < hc_np; p++)
            for (int t = 0; t < T; t++) {
                hc_fill(area_at(r, p, t), AREA, hc_mix(hc_seed + (uint64_t) (((hc_me * 8 + r) * 8 + p) * 8 + t)));
                if (p == hc_me)
                    for (int q = 0; q < hc_np; q++)
                        hc_fill(wk[t].model[q][r], AREA, hc_mix(hc_seed + (uint64_t) (((q * 8 + r) * 8 + p) * 8 + t)));
            }
    enum_sets();
    for (int t = 0; t < T; t++)
        shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 1, hc_np, NULL, 0, &tteam[t]);
    shmem_barrier_all();
    hc_barrier_poll();
    pthread_t th[MAXT], wt;
    pthread_create(&wt, NULL, witness, NULL);
    for (int t = 0; t < T; t++) {
        wk[t].t = t;
        if (pthread_create(&th[t], NULL, worker, &wk[t]))
            FAIL("harness", "pthread_create");
    }
    rng_t mg = rng_of(2001, 0), j = rng_of(2002, (uint64_t) hc_me);
    for (long rd = 1; rd <= rounds; rd++) {
        hc_jitter(&j);
        main_round(rd, &mg);
    }
    while (__atomic_load_n(&done_workers, __ATOMIC_SEQ_CST) < T)
        hc_poll();
    for (int t = 0; t < T; t++)
        pthread_join(th[t], NULL);
    hc_tick("joined");
    hc_barrier_poll();
    __atomic_store_n(&stop_witness, 1, __ATOMIC_SEQ_CST);
    pthread_join(wt, NULL);
    shmem_barrier_all();
    /* everything every worker wrote, as it is at the owner */
    for (int t = 0; t < T; t++)
        for (int q = 0; q < hc_np; q++)
            for (int r = 0; r < nreg; r++) {
                unsigned char got[AREA];
                shmem_getmem(got, area_at(r, hc_me, t), AREA, q);
                long d = hc_diff(got, wk[t].model[q][r], AREA);
                if (d >= 0)
                    FAIL(d >= USED ? "thread-stray" : "thread-final", "thread %d: at the end byte %ld of its area at PE %d region %d is %02x, "
                         "expected %02x", t, d, q, r, got[d], wk[t].model[q][r][d]);
                STAT("bytes_checked", AREA);
            }
    hc_barrier_poll();
    for (int c = 0; c < NCTR; c++) {
        if ((long) ctr_inc[c] != sh->inc_issued[hc_me][c])
            FAIL("thread-counter", "counter %d: %lu increments took effect, %ld were made", c, ctr_inc[c], sh->inc_issued[hc_me][c]);
        for (long v = 0; v < sh->inc_issued[hc_me][c] && v < SEENMAX; v++)
            if (sh->seen[hc_me][c][v] != 1) {
                FAIL("thread-counter", "counter %d: value %ld was fetched %d times", c, v, sh->seen[hc_me][c][v]);
                break;
            }
        if (ctr_add[c] != sh->add_sum[hc_me][c])
            FAIL("thread-counter", "sum %d is %ld, expected %ld", c, ctr_add[c], sh->add_sum[hc_me][c]);
    }
    for (int t = 0; t < T; t++) {
        if (ctr_or[t] != sh->or_bits[hc_me][t])
            FAIL("thread-counter", "bits %d are %x, expected %x", t, ctr_or[t], sh->or_bits[hc_me][t]);
        if (hc_me == t % hc_np && lockcnt[t] != sh->lock_rounds[t])
            FAIL("thread-lock", "lock %d was held %ld times, its counter says %ld", t, sh->lock_rounds[t], lockcnt[t]);
    }
    hc_barrier_poll();
    for (int t = 0; t < T; t++)
        shmem_team_destroy(tteam[t]);
    if (sp) {
        if (nth_ctx)
            for (int t = 0; t < T; t++)
                shmem_ctx_destroy(wctx[t]);
        shmem_barrier_all();
        shmemx_space_detach(space);
        shmem_free(reg[2]);
        shmemx_space_destroy(space);
    }
    shmem_free(reg[0]);
    hc_detach();
    shmem_finalize();
}
