/* Completion (P03), ordering (P04), barriers and syncs (P09). */
#include "sops.h"

static unsigned char *locs;     /* local buffers, SLOT bytes each */

static void start(int nsl)
{
    int sp = (int) hc_arg("space", 1);
    shmem_init();
    hc_attach();
    world_open((int) hc_arg("slots", nsl), sp, (int) hc_arg("nctx", 2));
    locs = (unsigned char *) malloc(SLOT * 256);
}
static void stop(void)
{
    hc_barrier_poll();
    free(locs);
    world_close();
    hc_detach();
    shmem_finalize();
}
static void check_slot(const char *key, const sop_t * s, const unsigned char *got, const char *how)
{
    const unsigned char *want = slot_model(s->t, s->reg, s->slot);
    long d = hc_diff(got, want, SLOT);
    if (d >= 0)
        FAIL(key, "%s: byte %ld is %02x, expected %02x, %s", sop_str(s), d, got[d], want[d], how);
    STAT("checks", 1);
}
static void check_all(const char *key)
{
    for (int r = 0; r < W.nreg; r++) {
        long d = hc_diff(W.mem[r], W.model[hc_me][r], (size_t) W.ns * SLOT);
        if (d >= 0)
            FAIL(key, "region %d slot %ld byte %ld is %02x, expected %02x at the end of the round", r, d / SLOT, d % SLOT,
                 (unsigned char) W.mem[r][d], W.model[hc_me][r][d]);
    }
}
static int pick_mask(rng_t * g)
{
    static const int m[] = { S_PUT, S_NBI, S_IPUT, S_POST, S_FETCH, S_AMONBI, S_GETNBI, S_PUT | S_POST, S_NBI | S_AMONBI,
        S_PUT | S_GETNBI, S_POST | S_GETNBI, S_ALL, S_ALL, S_ALL
    };
    return m[rndn(g, sizeof m / sizeof m[0])];
}
/* the context of an operation: plain/default for any region, or a context of the space (region 2) */
static int pick_ctx(rng_t * g, int round_ctx) { return round_ctx > 0 ? round_ctx : -(int) rndn(g, 2); }
static int pick_reg(rng_t * g, int round_ctx, int pref)
{
    if (round_ctx > 0)
        return 2;
    if (pref >= 0 && rndn(g, 3))
        return pref;
    return (int) rndn(g, (uint64_t) W.nreg);
}

SCENARIO(quiet)
{
    start(128);
    long rounds = hc_arg("rounds", 60);
    sop_t ops[2][64];
    for (long rd = 0; rd < rounds && !(rd % 8 == 0 && hc_max(hc_fails)); rd++) {
        rng_t g = rng_of(50, (uint64_t) rd);
        int nor = hc_np > 2 && rndn(&g, 3) == 0 ? 2 : 1;
        int org[2], n[2], batches[2][5], slot = 0, rctx[2];
        org[0] = (int) rndn(&g, (uint64_t) hc_np);
        org[1] = (org[0] + 1 + (int) rndn(&g, (uint64_t) (hc_np - 1))) % hc_np;
        int third = (int) rndn(&g, (uint64_t) hc_np);
        for (int o = 0; o < nor; o++) {
            int nb = 1 + (int) rndn(&g, 3);
            n[o] = 0;
            rctx[o] = W.nctx && rndn(&g, 3) == 0 ? 1 + (int) rndn(&g, (uint64_t) W.nctx) : 0;
            for (int b = 0; b < 5; b++)
                batches[o][b] = 0;
            for (int b = 0; b < nb; b++) {
                int k = rndn(&g, 4) ? 1 + (int) rndn(&g, 2) : 1 + (int) rndn(&g, 14);
                int mask = pick_mask(&g), pref = rndn(&g, 2) ? (int) rndn(&g, (uint64_t) W.nreg) : -1;
                int tfix = rndn(&g, 2) ? (int) rndn(&g, (uint64_t) hc_np) : -1;
                for (int i = 0; i < k; i++) {
                    int t = tfix >= 0 ? tfix : (int) rndn(&g, (uint64_t) hc_np);
                    sop_pick(&g, &ops[o][n[o]++], mask, org[o], t, pick_reg(&g, rctx[o], pref), slot++ % W.ns,
                             pick_ctx(&g, rctx[o]));
                }
                batches[o][b] = k;
            }
        }
        int how = (int) rndn(&g, 3);
        hc_barrier_poll();
        hc_shim_pause(0);
        for (int o = 0; o < nor; o++)
            if (org[o] == hc_me) {
                rng_t j = rng_of(51, (uint64_t) rd);
                int i = 0;
                hc_jitter(&j);
                for (int b = 0; b < 5 && batches[o][b]; b++) {
                    int i0 = i;
                    for (int k = 0; k < batches[o][b]; k++, i++) {
                        sop_issue(&ops[o][i], locs + i * SLOT);
                        if (sop_reusable(&ops[o][i])) {
                            sop_check_result(&ops[o][i], "fetch-result");
                            sop_spoil(&ops[o][i]);
                        }
                        COVER(1, ops[o][i].amo, ops[o][i].form, ops[o][i].reg, ops[o][i].ctx > 0, ops[o][i].t == hc_me,
                              batches[o][b] == 1, how);
                    }
                    hc_where("quiet", rd, b, rctx[o]);
                    if (rctx[o])
                        shmem_ctx_quiet(sop_ctx(rctx[o]));
                    else if (how == 0)
                        shmem_ctx_quiet(SHMEM_CTX_DEFAULT);
                    else
                        shmem_quiet();
                    for (int k = i0; k < i; k++)
                        if (!sop_reusable(&ops[o][k])) {
                            sop_check_result(&ops[o][k], "quiet-result");
                            sop_spoil(&ops[o][k]);
                        }
                    STAT("quiets", 1);
                    STAT("ops", batches[o][b]);
                }
                for (int p = 0; p < hc_np; p++)
                    if (p != hc_me)
                        hc_send(p, rd);
            }
        for (int o = 0; o < nor; o++)
            for (int i = 0; i < n[o]; i++)
                sop_model(&ops[o][i]);
        int told[2] = { 0, 0 };
        hc_where("await word of completion", rd, nor, 0);
        for (int left = nor; left > 0;) {
            for (int o = 0; o < nor; o++) {
                if (told[o])
                    continue;
                if (org[o] == hc_me || hc_probe(org[o])) {
                    if (org[o] != hc_me)
                        hc_recv(org[o]);
                    told[o] = 1;
                    left--;
                    for (int i = 0; i < n[o]; i++)
                        if (ops[o][i].t == hc_me)
                            check_slot("quiet-incomplete", &ops[o][i], (unsigned char *) slot_at(ops[o][i].reg, ops[o][i].slot),
                                       "read locally after its origin's quiet");
                    if (hc_me == third && how == 2)
                        for (int i = 0; i < n[o]; i++) {
                            unsigned char b[SLOT];
                            shmem_getmem(b, slot_at(ops[o][i].reg, ops[o][i].slot), SLOT, ops[o][i].t);
                            check_slot("quiet-incomplete", &ops[o][i], b, "read by a third PE after its origin's quiet");
                        }
                }
            }
            if (left)
                hc_poll();
        }
        hc_barrier_poll();
        check_all("stray-write");
        hc_tick("round");
    }
    stop();
}

SCENARIO(fence)
{
    start(128);
    long rounds = hc_arg("rounds", 60);
    enum { MP = 4 };
    sop_t ops[2][MP][24], flag[2][MP];
    static unsigned char old[2][MP][SLOT];
    for (long rd = 0; rd < rounds && !(rd % 8 == 0 && hc_max(hc_fails)); rd++) {
        rng_t g = rng_of(60, (uint64_t) rd);
        int nor = hc_np > 2 && rndn(&g, 3) == 0 ? 2 : 1, slot = 0;
        int org[2], np_[2], n[2][MP], rctx[2], t[2], obs[2];
        org[0] = (int) rndn(&g, (uint64_t) hc_np);
        org[1] = (org[0] + 1 + (int) rndn(&g, (uint64_t) (hc_np - 1))) % hc_np;
        for (int o = 0; o < nor; o++) {
            t[o] = (int) rndn(&g, (uint64_t) hc_np);
            if (t[o] == org[o] && rndn(&g, 4))
                t[o] = (t[o] + 1) % hc_np;
            /* who watches: the destination, or (sometimes) another PE through gets */
            obs[o] = t[o];
            if (rndn(&g, 3) == 0 || t[o] == org[o])
                obs[o] = (int) rndn(&g, (uint64_t) hc_np);
            if (obs[o] == org[o])
                obs[o] = (obs[o] + 1) % hc_np;
            np_[o] = 1 + (int) rndn(&g, MP);
            rctx[o] = W.nctx && rndn(&g, 4) == 0 ? 1 + (int) rndn(&g, (uint64_t) W.nctx) : 0;
            for (int p = 0; p < np_[o]; p++) {
                n[o][p] = rndn(&g, 3) ? 1 + (int) rndn(&g, 2) : 1 + (int) rndn(&g, 10);
                int mask = pick_mask(&g) & (S_PUT | S_NBI | S_IPUT | S_POST | S_FETCH | S_AMONBI);
                if (!mask)
                    mask = S_POST | S_PUT;
                int pref = rndn(&g, 2) ? (int) rndn(&g, (uint64_t) W.nreg) : -1;
                for (int i = 0; i < n[o][p]; i++) {
                    /* now and then to someone else: it must not disturb the order */
                    int tt = rndn(&g, 8) ? t[o] : (int) rndn(&g, (uint64_t) hc_np);
                    sop_pick(&g, &ops[o][p][i], mask, org[o], tt, pick_reg(&g, rctx[o], pref), slot++ % W.ns,
                             pick_ctx(&g, rctx[o]));
                }
                sop_t *f = &flag[o][p];
                int fs = slot++ % W.ns;
                for (int tries = 0;; tries++) {
                    static const int fm[] = { S_PUT, S_NBI, S_POST, S_FETCH, S_AMONBI, S_IPUT };
                    unsigned char b[SLOT];
                    int changes;
                    sop_pick(&g, f, fm[rndn(&g, 6)], org[o], t[o], pick_reg(&g, rctx[o], -1), fs, pick_ctx(&g, rctx[o]));
                    /* the update must be one that can be seen */
                    memcpy(b, slot_model(f->t, f->reg, f->slot), SLOT);
                    sop_model(f);
                    changes = memcmp(b, slot_model(f->t, f->reg, f->slot), SLOT);
                    memcpy(slot_model(f->t, f->reg, f->slot), b, SLOT);
                    if (changes)
                        break;
                }
                memcpy(old[o][p], slot_model(f->t, f->reg, f->slot), SLOT);
            }
        }
        hc_barrier_poll();
        int k = 0;
        for (int o = 0; o < nor; o++)
            if (org[o] == hc_me) {
                rng_t j = rng_of(61, (uint64_t) rd);
                for (int p = 0; p < np_[o]; p++) {
                    for (int i = 0; i < n[o][p]; i++, k++) {
                        sop_issue(&ops[o][p][i], locs + k * SLOT);
                        if (sop_reusable(&ops[o][p][i]))
                            sop_spoil(&ops[o][p][i]);
                        COVER(2, ops[o][p][i].amo, ops[o][p][i].form, ops[o][p][i].reg, ops[o][p][i].ctx > 0, flag[o][p].amo,
                              flag[o][p].form, flag[o][p].reg);
                    }
                    hc_where("fence", rd, p, rctx[o]);
                    if (rctx[o])
                        shmem_ctx_fence(sop_ctx(rctx[o]));
                    else if (p & 1)
                        shmem_ctx_fence(SHMEM_CTX_DEFAULT);
                    else
                        shmem_fence();
                    sop_issue(&flag[o][p], locs + k++ * SLOT);
                    STAT("fences", 1);
                    hc_jitter(&j);
                }
            }
        for (int o = 0; o < nor; o++)
            for (int p = 0; p < np_[o]; p++) {
                for (int i = 0; i < n[o][p]; i++)
                    sop_model(&ops[o][p][i]);
                sop_model(&flag[o][p]);
            }
        /* watch: the flags of a later phase may be seen first */
        int seen[2][MP] = { {0} }, left = 0;
        for (int o = 0; o < nor; o++)
            if (obs[o] == hc_me)
                left += np_[o];
        /* in the end everything must arrive: the origins complete after a while */
        rng_t j2 = rng_of(62, (uint64_t) (rd * 64 + hc_me));
        for (int o = 0; o < nor; o++)
            if (org[o] == hc_me) {
                for (int q = (int) rndn(&j2, 30); q > 0; q--) {
                    hc_poll();
                    sched_yield();
                }
                shmem_quiet();
                for (int c = 0; c < W.nctx; c++)
                    shmem_ctx_quiet(W.ctxs[c]);
            }
        hc_where("watch for the later update", rd, left, 0);
        while (left > 0) {
            for (int o = 0; o < nor; o++)
                for (int p = 0; p < np_[o] && obs[o] == hc_me; p++) {
                    if (seen[o][p])
                        continue;
                    sop_t *f = &flag[o][p];
                    unsigned char b[SLOT];
                    if (t[o] == hc_me)
                        memcpy(b, slot_at(f->reg, f->slot), SLOT);
                    else
                        shmem_getmem(b, slot_at(f->reg, f->slot), SLOT, t[o]);
                    __asm__ volatile ("":::"memory");
                    if (memcmp(b, old[o][p], SLOT) == 0)
                        continue;
                    seen[o][p] = 1;
                    left--;
                    /* everything the origin issued to that PE before this phase's fence must be there */
                    for (int pp = 0; pp <= p; pp++)
                        for (int i = 0; i < n[o][pp]; i++)
                            if (ops[o][pp][i].t == t[o]) {
                                unsigned char d[SLOT];
                                if (t[o] == hc_me)
                                    memcpy(d, slot_at(ops[o][pp][i].reg, ops[o][pp][i].slot), SLOT);
                                else
                                    shmem_getmem(d, slot_at(ops[o][pp][i].reg, ops[o][pp][i].slot), SLOT, t[o]);
                                check_slot("fence-order", &ops[o][pp][i], d, "after a later update was seen");
                            }
                    STAT("observations", 1);
                }
            hc_poll();
        }
        hc_barrier_poll();
        check_all("stray-write");
        hc_barrier_poll();
        hc_tick("round");
    }
    stop();
}

/* ---- barriers and syncs ---- */
static long ps_[4][SHMEM_SYNC_SIZE > SHMEM_BARRIER_SYNC_SIZE ? SHMEM_SYNC_SIZE : SHMEM_BARRIER_SYNC_SIZE];
static double now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}
enum { BI = 10 };
typedef struct {
    int kind;                   /* 0 barrier_all 1 sync_all 2 aset barrier 3 aset sync 4 team sync */
    int st, ls, sz, team, psync;
    uint64_t members;
    int nops;
    sop_t ops[20];
    int store_slot[MAXPE];      /* sync: a local store by each member */
    int reader;
} inst_t;

SCENARIO(barrier)
{
    start(320);
    long rounds = hc_arg("rounds", 12);
    int np = hc_np, me = hc_me;
    for (int i = 0; i < 4; i++)
        for (unsigned k = 0; k < sizeof ps_[i] / sizeof(long); k++)
            ps_[i][k] = SHMEM_SYNC_VALUE;
    /* teams: world, odd/even strides, a prefix, and a part of a part */
    shmem_team_t teams[5] = { SHMEM_TEAM_WORLD };
    uint64_t tmem[5] = { (1ull << np) - 1 };
    int nteams = 1;
    if (hc_arg("teams", 1)) {
        rng_t g = rng_of(70, 0);
        for (int i = 0; i < 3; i++) {
            int s = (int) rndn(&g, (uint64_t) np), str = 1 + (int) rndn(&g, 2), z = 1 + (int) rndn(&g, (uint64_t) ((np - 1 - s) / str + 1));
            shmem_team_t t = SHMEM_TEAM_INVALID;
            shmem_team_split_strided(SHMEM_TEAM_WORLD, s, str, z, NULL, 0, &t);
            uint64_t m = 0;
            for (int k = 0; k < z; k++)
                m |= 1ull << (s + k * str);
            teams[nteams] = t;
            tmem[nteams++] = m;
        }
    }
    shmem_barrier_all();
    static inst_t in[BI];
    static double te[BI], tx[BI], all[2 * BI * MAXPE];
    long asets[6][3];
    rng_t ag = rng_of(71, 0);
    for (int i = 0; i < 6; i++) {
        long ls = (long) rndn(&ag, 2), s = (long) rndn(&ag, (uint64_t) np);
        asets[i][0] = s;
        asets[i][1] = ls;
        asets[i][2] = 1 + (long) rndn(&ag, (uint64_t) ((np - 1 - s) / (1 << ls) + 1));
    }
    for (long rd = 0; rd < rounds && !hc_max(hc_fails); rd++) {
        rng_t g = rng_of(72, (uint64_t) rd);
        int slot = 0, li = 0;
        for (int i = 0; i < BI; i++) {
            inst_t *x = &in[i];
            memset(x, 0, sizeof *x);
            x->kind = (int) rndn(&g, 5);
            if (i + 1 < BI && rndn(&g, 3))
                x->kind = 2 + (int) rndn(&g, 3);
            x->psync = (int) rndn(&g, 4);
            if (x->kind == 2 || x->kind == 3) {
                long *a = asets[rndn(&g, 6)];
                x->st = (int) a[0];
                x->ls = (int) a[1];
                x->sz = (int) a[2];
                for (int k = 0; k < x->sz; k++)
                    x->members |= 1ull << (x->st + (k << x->ls));
                /* one pSync array must not serve two sets at once */
                x->psync = 0;
            } else if (x->kind == 4) {
                x->team = (int) rndn(&g, (uint64_t) nteams);
                x->members = tmem[x->team];
            } else
                x->members = (1ull << np) - 1;
            for (int p = 0; p < np; p++) {
                if (!(x->members >> p & 1))
                    continue;
                if (x->kind == 0 || x->kind == 2) {
                    int mask = pick_mask(&g), k = rndn(&g, 2) ? (int) rndn(&g, 3) : 1;
                    for (; k > 0 && x->nops < 20; k--)
                        sop_pick(&g, &x->ops[x->nops++], mask, p, (int) rndn(&g, (uint64_t) np),
                                 (int) rndn(&g, (uint64_t) W.nreg), slot++ % W.ns, -(int) rndn(&g, 2));
                } else
                    x->store_slot[p] = slot++ % W.ns;
            }
            if (slot > W.ns)
                FAIL("harness", "too few slots");
            do
                x->reader = (int) rndn(&g, (uint64_t) np);
            while (!(x->members >> x->reader & 1));
        }
        hc_barrier_poll();
        rng_t j = rng_of(73, (uint64_t) (rd * 64 + me));
        for (int i = 0; i < BI; i++) {
            inst_t *x = &in[i];
            int mine = (int) (x->members >> me & 1);
            te[i] = tx[i] = 0;
            if (mine) {
                int l0 = li;
                for (int k = 0; k < x->nops; k++)
                    if (x->ops[k].org == me)
                        sop_issue(&x->ops[k], locs + li++ * SLOT);
                if (x->kind == 1 || x->kind == 3 || x->kind == 4)
                    for (int r = 0; r < W.nreg; r++)
                        hc_fill(slot_at(r, x->store_slot[me]), SLOT, hc_mix((uint64_t) (rd * 1000 + i * 50 + me * 3 + r)));
                hc_jitter(&j);
                if (rndn(&j, 12) == 0)
                    usleep((useconds_t) rndn(&j, 3000));
                hc_where("enter", x->kind, i, rd);
                te[i] = now();
                switch (x->kind) {
                    case 0: shmem_barrier_all(); break;
                    case 1: shmem_sync_all(); break;
                    case 2: shmem_barrier(x->st, x->ls, x->sz, ps_[x->psync]); break;
                    case 3: shmem_sync_aset(x->st, x->ls, x->sz, ps_[1]); break;
                    case 4: {
                        int rc = shmem_team_sync(teams[x->team]);
                        if (rc != 0)
                            FAIL("team-sync-rc", "shmem_team_sync returned %d", rc);
                        break;
                    }
                }
                tx[i] = now();
                STAT("syncs", 1);
                COVER(3, x->kind, x->members, x->nops, x->team);
                (void) l0;
            }
            for (int k = 0; k < x->nops; k++)
                sop_model(&x->ops[k]);
            if (x->kind == 1 || x->kind == 3 || x->kind == 4)
                for (int p = 0; p < np; p++)
                    if (x->members >> p & 1)
                        for (int r = 0; r < W.nreg; r++)
                            hc_fill(slot_model(p, r, x->store_slot[p]), SLOT, hc_mix((uint64_t) (rd * 1000 + i * 50 + p * 3 + r)));
            if (!mine)
                continue;
            /* after the barrier: every participant's operations are complete */
            for (int k = 0; k < x->nops; k++) {
                sop_t *s = &x->ops[k];
                if (s->t == me)
                    check_slot("barrier-incomplete", s, (unsigned char *) slot_at(s->reg, s->slot), "read locally after the barrier");
                if (s->org == me) {
                    sop_check_result(s, "barrier-result");
                    sop_spoil(s);
                }
            }
            if (me == x->reader)
                for (int k = 0; k < x->nops; k++) {
                    sop_t *s = &x->ops[k];
                    unsigned char b[SLOT];
                    if (!(x->members >> s->t & 1) || rndn(&j, 3) == 0) {
                        shmem_getmem(b, slot_at(s->reg, s->slot), SLOT, s->t);
                        check_slot("barrier-incomplete", s, b,
                                   x->members >> s->t & 1 ? "read by another participant after the barrier"
                                   : "read by a participant from a PE outside the set after the barrier");
                    }
                }
            if (x->kind == 1 || x->kind == 3 || x->kind == 4) {
                int p;
                do
                    p = (int) rndn(&j, (uint64_t) np);
                while (!(x->members >> p & 1));
                unsigned char b[SLOT];
                int r = (int) rndn(&j, (uint64_t) W.nreg);
                shmem_getmem(b, slot_at(r, x->store_slot[p]), SLOT, p);
                long d = hc_diff(b, slot_model(p, r, x->store_slot[p]), SLOT);
                if (d >= 0)
                    FAIL("sync-store", "a store by PE %d before sync (kind %d) is not visible after it", p, x->kind);
                STAT("checks", 1);
            }
        }
        hc_where("end of round", rd, 0, 0);
        hc_barrier_poll();
        check_all("stray-write");
        double mine_[2 * BI];
        for (int i = 0; i < BI; i++) {
            mine_[i] = te[i];
            mine_[BI + i] = tx[i];
        }
        PMPI_Allgather(mine_, 2 * BI, MPI_DOUBLE, all, 2 * BI, MPI_DOUBLE, hc_comm);
        if (me == 0)
            for (int i = 0; i < BI; i++)
                for (int a = 0; a < np; a++)
                    for (int b = 0; b < np; b++)
                        if ((in[i].members >> a & 1) && (in[i].members >> b & 1)) {
                            double ent = all[a * 2 * BI + i], ex = all[b * 2 * BI + BI + i];
                            STAT("orderings", 1);
                            if (ex < ent)
                                FAIL("barrier-separation", "PE %d left instance %d (kind %d, members %lx) %.0f us before PE %d entered it",
                                     b, i, in[i].kind, (unsigned long) in[i].members, (ent - ex) * 1e6, a);
                        }
        for (int i = 0; i < 4; i++)
            for (unsigned k = 0; k < sizeof ps_[i] / sizeof(long); k++)
                if (ps_[i][k] != SHMEM_SYNC_VALUE)
                    FAIL("psync", "pSync not restored");
        hc_tick("round");
    }
    for (int i = 1; i < nteams; i++)
        if (teams[i] != SHMEM_TEAM_INVALID)
            shmem_team_destroy(teams[i]);
    stop();
}
