/* One deterministic program (P19): everything it computes goes into a digest per epoch, to be the same under every configuration. */
#include "sops.h"
#define NA 24
static uint64_t H;
static void eat(const void *p, size_t n)
{
    const unsigned char *c = p;
    for (size_t i = 0; i < n; i++)
        H = (H ^ c[i]) * 0x100000001b3ULL;
}
static void eatl(long v) { eat(&v, sizeof v); }

static int ai[NA];
static long al[NA];
static unsigned long long au[NA];
static long lk, lkcount;
static char rd[4096];           /* read only */
#define CN 24
#define CB (CN * 16 * 8)
static char csrc[CB], cdst[CB], cwrk[CB + SHMEM_REDUCE_MIN_WRKDATA_SIZE * 16];
static long cps[6][SHMEM_ALLTOALL_SYNC_SIZE + SHMEM_REDUCE_SYNC_SIZE + SHMEM_COLLECT_SYNC_SIZE + SHMEM_BCAST_SYNC_SIZE];
static int nps;

#define RED1(T, nm, op, tm) static void r_##nm##_##op(int s, int l, int z, shmem_team_t t, int n, long *P, int team) { \
    if (team) eatl(tm(t, (T *) cdst, (T *) csrc, (size_t) n)); \
    else shmem_##nm##_##op##_to_all((T *) cdst, (T *) csrc, n, s, l, z, (T *) cwrk, P); } 
#define shmem_ushort_and_reduce_(t, d, s, n) shmem_ushort_and_reduce(t, (unsigned short *) (d), (unsigned short *) (s), n)
#define shmem_uint_or_reduce_(t, d, s, n) shmem_uint_or_reduce(t, (unsigned *) (d), (unsigned *) (s), n)
#define shmem_ulong_xor_reduce_(t, d, s, n) shmem_ulong_xor_reduce(t, (unsigned long *) (d), (unsigned long *) (s), n)
#define RED(T, nm, op) RED1(T, nm, op, shmem_##nm##_##op##_reduce)
RED(short, short, sum) RED(short, short, max) RED1(short, short, and, shmem_ushort_and_reduce_) RED(int, int, prod) RED1(int, int, or, shmem_uint_or_reduce_) RED(int, int, min)
RED(long, long, sum) RED1(long, long, xor, shmem_ulong_xor_reduce_) RED(long long, longlong, prod) RED(long long, longlong, min)
RED(float, float, sum) RED(float, float, max) RED(double, double, prod) RED(double, double, min) RED(double, double, sum)
#define RR(T, nm, op, k) { r_##nm##_##op, sizeof(T), k }
static const struct { void (*f) (int, int, int, shmem_team_t, int, long *, int); size_t es; int k; } reds[] = {
    RR(short, short, sum, 0), RR(short, short, max, 0), RR(short, short, and, 0), RR(int, int, prod, 0), RR(int, int, or, 0), RR(int, int, min, 0),
    RR(long, long, sum, 0), RR(long, long, xor, 0), RR(long long, longlong, prod, 0), RR(long long, longlong, min, 0),
    RR(float, float, sum, 1), RR(float, float, max, 1), RR(double, double, prod, 2), RR(double, double, min, 2), RR(double, double, sum, 2)
};
/* small exact numbers: whole values whose sums and products are exact in any order */
static void csfill(uint64_t z, int k, size_t es)
{
    for (size_t i = 0; i < CB / 8 && i < 400; i++) {
        int v = (int) (hc_mix(z + i) % 4) + 1;
        if (k == 1)
            ((float *) csrc)[i] = (float) v;
        else if (k == 2)
            ((double *) csrc)[i] = (double) v;
        else if (es == 2)
            ((short *) csrc)[i] = (short) v;
        else if (es == 4)
            ((int *) csrc)[i] = v;
        else
            ((long *) csrc)[i] = v;
    }
}
static void collective(rng_t * g, shmem_team_t * teams, uint64_t * tmem, int nteams)
{
    int kind = (int) rndn(g, 12), useteam = (int) rndn(g, 2), n = (int) rndr(g, 0, 20);
    int s = (int) rndn(g, (uint64_t) hc_np), l = (int) rndn(g, 2), z = 1 + (int) rndn(g, (uint64_t) ((hc_np - 1 - s) / (1 << l) + 1));
    int ti = (int) rndn(g, (uint64_t) nteams), w64 = (int) rndn(g, 2), rootx = (int) rndn(g, 64), red = (int) rndn(g, sizeof reds / sizeof reds[0]);
    uint64_t sd = rnd(g), mem = 0;
    if (useteam)
        mem = tmem[ti];
    else
        for (int k = 0; k < z; k++)
            mem |= 1ull << (s + (k << l));
    int size = __builtin_popcountll(mem), root = rootx % size;
    if (nps == 6) {
        shmem_barrier_all();
        nps = 0;
    }
    long *P = cps[nps++];
    if (!(mem >> hc_me & 1))
        return;
    size_t es = w64 ? 8 : 4;
    memset(cdst, 0x3a, sizeof cdst);
    hc_fill(csrc, sizeof csrc, sd + (uint64_t) hc_me * 77);
    hc_where("collective", kind, useteam, size);
    shmem_team_t t = teams[ti];
    size_t m = (size_t) (n % 10 + hc_me % 3);
    STAT("collectives", 1);
    COVER(1, kind, useteam, size, w64);
    if (kind >= 6) {
        csfill(sd + (uint64_t) hc_me, reds[red].k, reds[red].es);
        reds[red].f(s, l, z, t, n, P, useteam);
    } else if (useteam)
        switch (kind) {
            case 0: eatl(shmem_broadcastmem(t, cdst, csrc, (size_t) n * es, root)); break;
            case 1: eatl(shmem_long_collect(t, (long *) cdst, (long *) csrc, m)); break;
            case 2: eatl(shmem_int_fcollect(t, (int *) cdst, (int *) csrc, (size_t) n)); break;
            case 3: eatl(shmem_double_alltoall(t, (double *) cdst, (double *) csrc, (size_t) n)); break;
            case 4: eatl(shmem_int_alltoalls(t, (int *) cdst, (int *) csrc, 2, 3, (size_t) n / 2)); break;
            case 5: shmem_team_sync(t); break;
    } else
        switch (kind) {
            case 0: (w64 ? shmem_broadcast64 : shmem_broadcast32) (cdst, csrc, (size_t) n, root, s, l, z, P); break;
            case 1: (w64 ? shmem_collect64 : shmem_collect32) (cdst, csrc, m, s, l, z, P); break;
            case 2: (w64 ? shmem_fcollect64 : shmem_fcollect32) (cdst, csrc, (size_t) n, s, l, z, P); break;
            case 3: (w64 ? shmem_alltoall64 : shmem_alltoall32) (cdst, csrc, (size_t) n, s, l, z, P); break;
            case 4: (w64 ? shmem_alltoalls64 : shmem_alltoalls32) (cdst, csrc, 2, 3, (size_t) n / 2, s, l, z, P); break;
            case 5: shmem_barrier(s, l, z, P); break;
        }
    eat(cdst, sizeof cdst);
    nps += 0;
}
SCENARIO(digest)
{
    long epochs = hc_arg("epochs", 14);
    int level = (int) hc_arg("level", -1), space = (int) hc_arg("space", 1);
    static const int LV[4] = { SHMEM_THREAD_SINGLE, SHMEM_THREAD_FUNNELED, SHMEM_THREAD_SERIALIZED, SHMEM_THREAD_MULTIPLE };
    rng_t g = rng_of(90, 0), jr = rng_of(91, (uint64_t) hc_me);
    if (level < 0)
        shmem_init();
    else {
        int p;
        shmem_init_thread(LV[level], &p);
    }
    hc_attach();
    int ns = 200;
    world_open(ns, space, space ? 2 : 0);
    for (unsigned i = 0; i < 6; i++)
        for (unsigned j = 0; j < sizeof cps[0] / sizeof(long); j++)
            cps[i][j] = SHMEM_SYNC_VALUE;
    shmem_team_t teams[4] = { SHMEM_TEAM_WORLD };
    uint64_t tmem[4] = { (1ull << hc_np) - 1 };
    for (int i = 1; i < 4; i++) {
        int s = (int) rndn(&g, (uint64_t) hc_np), str = 1 + (int) rndn(&g, 2), z = 1 + (int) rndn(&g, (uint64_t) ((hc_np - 1 - s) / str + 1));
        teams[i] = SHMEM_TEAM_INVALID;
        eatl(shmem_team_split_strided(SHMEM_TEAM_WORLD, s, str, z, NULL, 0, &teams[i]) == 0);
        eatl(teams[i] != SHMEM_TEAM_INVALID);
        tmem[i] = 0;
        for (int k = 0; k < z; k++)
            tmem[i] |= 1ull << (s + k * str);
        eatl(shmem_team_my_pe(teams[i]));
        eatl(shmem_team_translate_pe(SHMEM_TEAM_WORLD, hc_np - 1, teams[i]));
    }
    hc_fill(rd, sizeof rd, hc_seed + 5000u + (uint64_t) hc_me);
    size_t vn = (size_t) hc_arg("large", 0);
    char *vast = vn ? shmem_malloc(vn) : NULL;
    static char *mine;
    if (vn && !(mine = malloc(vn)))
        exit(0);
    eatl(vast != NULL);
    char *blk[6] = { 0 };
    size_t bn[6] = { 0 };
    static unsigned char loc[400][SLOT];
    static sop_t ops[400];
    shmem_barrier_all();
    for (long e = 0; e < epochs; e++) {
        int nop = 0, nm = (int) rndr(&g, 20, 90), slot = 0;
        for (int i = 0; i < nm; i++) {
            int reg = (int) rndn(&g, (uint64_t) W.nreg), t = (int) rndn(&g, (uint64_t) hc_np), p = (int) rndn(&g, (uint64_t) hc_np);
            int cx = reg == 2 && W.nctx && rndn(&g, 2) ? 1 + (int) rndn(&g, (uint64_t) W.nctx) : -(int) rndn(&g, 2);
            sop_t s;
            sop_pick(&g, &s, S_ALL, p, t, reg, slot++ % ns, cx);
            int after = (int) rndn(&g, 12);
            if (p == hc_me) {
                ops[nop] = s;
                sop_issue(&ops[nop], loc[nop]);
                nop++;
                STAT("ops", 1);
                COVER(2, s.amo, s.form, s.reg);
                if (after == 0)
                    shmem_fence();
                if (after == 1)
                    shmem_quiet();
                if (after == 2)
                    hc_jitter(&jr);
            }
        }
        /* blocking reads of constant memory and shared counters */
        for (int i = 0; i < 12; i++) {
            int q = (int) rndn(&g, (uint64_t) hc_np), f = (int) rndn(&g, (uint64_t) nforms), p = (int) rndn(&g, (uint64_t) hc_np);
            long st = rndr(&g, 1, 3), ls = rndr(&g, 1, 2), n = rndr(&g, 1, 20), c = (long) rndn(&g, NA);
            int w = (int) rndn(&g, 3);
            if (p != hc_me)
                continue;
            const form_t *x = &forms[f];
            char buf[2048];
            memset(buf, 0x44, sizeof buf);
            if ((x->k == F_GET || x->k == F_IGET || x->k == F_G) && !(x->k == F_G && x->vs != x->es)) {
                x->fn(SHMEM_CTX_DEFAULT, buf, rd, x->k == F_IGET ? ls : 1, x->k == F_IGET ? st : 1, x->k == F_G ? 1 : (size_t) n, q);
                eat(buf, sizeof buf);
                STAT("ops", 1);
                COVER(3, f);
            }
            if (w == 0)
                shmem_int_atomic_add(&ai[c], (int) n, q);
            else if (w == 1)
                shmem_long_atomic_inc(&al[c], q);
            else
                shmem_ulonglong_atomic_xor(&au[c], (unsigned long long) n << c, q);
            STAT("ops", 1);
        }
        if (rndn(&g, 3) == 0) {
            shmem_set_lock(&lk);
            long v = shmem_long_g(&lkcount, 0) + 1;
            shmem_long_p(&lkcount, v, 0);
            shmem_clear_lock(&lk);
        }
        shmem_barrier_all();
        for (int i = 0; i < nop; i++)
            if (sop_has_result(&ops[i]))
                eat(ops[i].loc, SLOT);
        for (int r = 0; r < W.nreg; r++)
            eat(W.mem[r], (size_t) ns * SLOT);
        eat(ai, sizeof ai);
        eat(al, sizeof al);
        eat(au, sizeof au);
        eatl(lkcount);
        if (hc_arg("dump", 0) == e + 1) {
            hc_note("spaces %016lx", (unsigned long) H);
        }
        shmem_barrier_all();
        /* a few operations of one PE on another and nothing but a quiet: the others learn of its end by other means */
        for (int lap = (int) rndn(&g, 4); lap > 0; lap--) {
            int p = (int) rndn(&g, (uint64_t) hc_np), t = (int) rndn(&g, (uint64_t) hc_np), n = (int) rndr(&g, 1, 3);
            hc_where("quiet epoch", p, t, n);
            for (int i = 0; i < n; i++) {
                int reg = (int) rndn(&g, (uint64_t) W.nreg);
                int cx = reg == 2 && W.nctx && rndn(&g, 2) ? 1 + (int) rndn(&g, (uint64_t) W.nctx) : -(int) rndn(&g, 2);
                sop_pick(&g, &ops[i], S_ALL, p, t, reg, slot++ % ns, cx);
                if (p == hc_me) {
                    sop_issue(&ops[i], loc[i]);
                    STAT("ops", 1);
                    COVER(5, ops[i].amo, ops[i].form, ops[i].reg);
                }
            }
            if (p == hc_me) {
                for (int c = 0; c < W.nctx; c++)
                    shmem_ctx_quiet(W.ctxs[c]);
                shmem_quiet();
            }
            hc_barrier_poll();
            for (int i = 0; p == hc_me && i < n; i++)
                if (sop_has_result(&ops[i]))
                    eat(ops[i].loc, SLOT);
            for (int r = 0; r < W.nreg; r++)
                eat(W.mem[r], (size_t) ns * SLOT);
            hc_barrier_poll();
        }
        int nc = (int) rndr(&g, 0, 4);
        for (int i = 0; i < nc; i++)
            collective(&g, teams, tmem, 4);
        if (vast && rndn(&g, 2)) {
            /* a transfer of a megabyte or more, written from one side and read back from the other */
            size_t n = vn - rndn(&g, vn / 2 + 1), off = rndn(&g, vn - n + 1);
            int w = (int) rndn(&g, 4), v = 1 + (int) rndn(&g, 7), dist = (int) rndn(&g, (uint64_t) hc_np), one = (int) rndn(&g, 2);
            int t = (hc_me + dist) % hc_np, f = (hc_me + hc_np - dist) % hc_np;
            hc_where("large transfer", w, (long) n, t);
            hc_fill(mine, n, hc_mix(hc_seed + (uint64_t) e * 77u + (uint64_t) hc_me));
            memset(vast, v, vn);
            shmem_barrier_all();
            if (!one || hc_me == 0) {
                if (w == 0)
                    shmem_putmem(vast + off, mine, n, t);
                else if (w == 1)
                    shmem_putmem_nbi(vast + off, mine, n, t);
                else if (w == 2)
                    shmem_put32(vast + (off & ~(size_t) 15), mine, n / 4, t);
                else
                    shmem_char_iput(vast, mine, n > 100000 ? 5 : 1, 1, n > 100000 ? n / 5 : n, t);
                shmem_quiet();
                memset(mine, 0x5a, n);
            }
            shmem_barrier_all();
            eat(vast, vn);
            if (!one || hc_me == 0) {
                shmem_getmem(mine, vast + off, n, f);
                eat(mine, n);
            }
            STAT("ops", 2);
            COVER(4, w, n > (1 << 20), one);
            shmem_barrier_all();
        }
        /* heap: the contents and the answers, not the addresses */
        for (int i = 0; i < 3; i++) {
            int b = (int) rndn(&g, 6), w = (int) rndn(&g, 4);
            size_t n = (size_t) rndr(&g, 1, 3000);
            hc_where("heap", b, w, (long) n);
            if (!blk[b]) {
                blk[b] = w == 0 ? shmem_calloc(n, 1) : w == 1 ? shmem_align(64, n) : shmem_malloc(n);
                eatl(blk[b] != NULL);
                if (w == 0 && blk[b])
                    eat(blk[b], n);
                if (blk[b])
                    memset(blk[b], (int) b, n);
                bn[b] = n;
            } else if (w == 0) {
                shmem_free(blk[b]);
                blk[b] = NULL;
            } else if (w == 1) {
                size_t k = bn[b] < n ? bn[b] : n;
                blk[b] = shmem_realloc(blk[b], n);
                eatl(blk[b] != NULL);
                if (blk[b]) {
                    eat(blk[b], k);
                    memset(blk[b], (int) b + 50, n);
                }
                bn[b] = n;
            } else {
                int q = (hc_me + 1) % hc_np;
                shmem_barrier_all();    /* the owner has filled it */
                shmem_putmem(blk[b], rd, bn[b] < sizeof rd ? bn[b] : sizeof rd, q);
                shmem_barrier_all();
                eat(blk[b], bn[b]);
                shmem_barrier_all();
            }
        }
        STAT("epochs", 1);
        hc_note("DIG %ld %016lx", e, (unsigned long) H);
        hc_tick("epoch");
    }
    for (int i = 1; i < 4; i++)
        if (teams[i] != SHMEM_TEAM_INVALID)
            shmem_team_destroy(teams[i]);
    for (int b = 0; b < 6; b++)
        if (blk[b])
            shmem_free(blk[b]);
    if (vast)
        shmem_free(vast);
    free(mine);
    world_close();
    hc_detach();
    shmem_finalize();
}
