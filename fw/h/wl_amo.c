/* Atomics: effect of each operation (P05) and linearizability of concurrent ones (P06). */
#include "sops.h"

static uint64_t now_ns(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t) t.tv_sec * 1000000000u + (uint64_t) t.tv_nsec;
}
static uint64_t ldv(const void *p, int es)
{
    uint64_t x = 0;
    memcpy(&x, p, (size_t) es);
    return x;
}
/* operands at the edges of the type */
static void edge_value(rng_t * g, const amo_t * a, void *v)
{
    if (a->tk == TK_F) {
        static const double ds[] = { 0.0, -0.0, 1.0, -1.5, 1e30, -1e-30, 3.0e38, 1e-40, 5e-45 };
        double d = ds[rndn(g, sizeof ds / sizeof ds[0])];
        int k = (int) rndn(g, 5);
        if (k == 0)
            d = __builtin_inf();
        else if (k == 1)
            d = (double) (int64_t) rnd(g) / 4096.0;
        if (a->es == 4) {
            float f = (float) d;
            memcpy(v, &f, 4);
        } else
            memcpy(v, &d, 8);
        return;
    }
    static const uint64_t e[] = { 0, 1, ~0ull, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u,
        0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x7ffffffe, 0x80000001u
    };
    uint64_t x = rndn(g, 3) ? e[rndn(g, sizeof e / sizeof e[0])] : rnd(g);
    memcpy(v, &x, (size_t) a->es);
}
static int overflows(const amo_t * a, const void *old, const void *v)
{
    if (a->tk != TK_S || (a->op != A_ADD && a->op != A_INC))
        return 0;
    int64_t o, x = 1, s;
    int sh = 64 - 8 * a->es;
    o = (int64_t) (ldv(old, a->es) << sh) >> sh;
    if (a->op == A_ADD)
        x = (int64_t) (ldv(v, a->es) << sh) >> sh;
    if (__builtin_add_overflow(o, x, &s))
        return 1;
    return a->es == 4 && s != (int32_t) s;
}

/* each cell of 64 bytes is used by one origin at a time; the object lies anywhere in it, the rest are guard bytes */
#define CELL 64
#define NC 12
SCENARIO(amo)
{
    shmem_init();
    hc_attach();
    world_open(hc_np * NC * CELL / SLOT, (int) hc_arg("space", 1), (int) hc_arg("nctx", 2));
    long rounds = hc_arg("rounds", 40), chain = hc_arg("chain", 25);
    size_t blk = (size_t) NC * CELL;
    unsigned char *exp = (unsigned char *) malloc(blk * (size_t) hc_np), *in = (unsigned char *) malloc(blk * (size_t) hc_np);
    /* my model of the cells I own: model[t][reg] + my block */
    for (long rd = 0; rd < rounds && !(rd % 8 == 0 && hc_max(hc_fails)); rd++) {
        rng_t g = rng_of(70, (uint64_t) (rd * 64 + hc_me));
        for (long k = 0; k < chain; k++) {
            int t = (int) rndn(&g, (uint64_t) hc_np), reg = (int) rndn(&g, (uint64_t) W.nreg), cell = (int) rndn(&g, NC);
            int ctx = reg == 2 && W.nctx && rndn(&g, 2) ? 1 + (int) rndn(&g, (uint64_t) W.nctx) : -(int) rndn(&g, 2);
            /* half of the time go round the whole table, otherwise by operation */
            const amo_t *a;
            do
                a = &amos[rndn(&g, 2) ? (long) rndn(&g, (uint64_t) namos) : (long) ((rd * chain + k) * hc_np + hc_me) % namos];
            while (a->ctx != (ctx >= 0));
            long off = (long) rndn(&g, (uint64_t) (CELL / a->es)) * a->es;
            size_t pos = (size_t) hc_me * blk + (size_t) cell * CELL;
            unsigned char *m = W.model[t][reg] + pos;
            char *rem = W.mem[reg] + pos;
            int len = 1 + (int) rndn(&g, 5);
            shmem_ctx_t c = sop_ctx(ctx);
            /* several operations on the same object */
            for (int q = 0; q < len; q++) {
                unsigned char v[8] = { 0 }, cond[8] = { 0 }, f[16], nw[8], want[8];
                if (q) {
                    const amo_t *b;
                    int tries = 0;
                    do {
                        b = &amos[rndn(&g, (uint64_t) namos)];
                        if (++tries > 20000)
                            b = a;
                    } while (b->ctx != (ctx >= 0) || b->es != a->es || b->type != a->type);
                    a = b;
                }
                if (a->tk == TK_F && q == 0)
                    ;
                int tries = 0;
                do
                    edge_value(&g, a, v);
                while (overflows(a, m + off, v) && ++tries < 50);
                if (tries >= 50)
                    memset(v, 0, sizeof v);
                if (a->op == A_INC && overflows(a, m + off, v))
                    continue;
                int how = (int) rndn(&g, 4);
                memcpy(cond, m + off, (size_t) a->es);
                if (how == 0)   /* one bit away */
                    cond[rndn(&g, (uint64_t) a->es)] ^= (unsigned char) (1u << rndn(&g, 8));
                else if (how == 1)
                    edge_value(&g, a, cond);
                memset(f, 0x5c, sizeof f);
                memcpy(want, m + off, (size_t) a->es);
                amo_apply(a, nw, m + off, v, cond);
                hc_where(a->name, t, reg, cell);
                a->fn(c, rem + off, v, cond, f, t);
                if (a->nbi || !a->fetching || rndn(&g, 8) == 0) {
                    if (ctx > 0)
                        shmem_ctx_quiet(c);
                    else
                        shmem_quiet();
                }
                if (a->fetching && memcmp(f, want, (size_t) a->es))
                    FAIL("amo-fetched", "%s on PE %d region %d: fetched %llx, the object held %llx (operand %llx condition %llx)",
                         a->name, t, reg, (unsigned long long) ldv(f, a->es), (unsigned long long) ldv(want, a->es),
                         (unsigned long long) ldv(v, a->es), (unsigned long long) ldv(cond, a->es));
                if (a->fetching)
                    for (int b = a->es; b < 16; b++)
                        if (f[b] != 0x5c) {
                            FAIL("amo-fetch-wide", "%s wrote past the result", a->name);
                            break;
                        }
                memcpy(m + off, nw, (size_t) a->es);
                STAT("atomics", 1);
                COVER(4, (long) (a - amos), reg, ctx > 0, t == hc_me, a->op == A_CSWAP ? how : (int) (ldv(v, a->es) >> (8 * a->es - 1)));
                if (rndn(&g, 4) == 0) {
                    /* look at the whole cell */
                    unsigned char cellb[CELL];
                    if (ctx > 0)
                        shmem_ctx_getmem(c, cellb, rem, CELL, t);
                    else
                        shmem_getmem(cellb, rem, CELL, t);
                    long d = hc_diff(cellb, m, CELL);
                    if (d >= 0)
                        FAIL("amo-effect", "after %s at offset %ld of a cell on PE %d region %d: byte %ld is %02x, expected %02x",
                             a->name, off, t, reg, d, cellb[d], m[d]);
                    STAT("cells_checked", 1);
                }
            }
        }
        shmem_quiet();
        for (int i = 0; i < W.nctx; i++)
            shmem_ctx_quiet(W.ctxs[i]);
        hc_barrier_poll();
        for (int reg = 0; reg < W.nreg; reg++) {
            for (int t = 0; t < hc_np; t++)
                memcpy(exp + (size_t) t * blk, W.model[t][reg] + (size_t) hc_me * blk, blk);
            PMPI_Alltoall(exp, (int) blk, MPI_BYTE, in, (int) blk, MPI_BYTE, hc_comm);
            long d = hc_diff(W.mem[reg], in, blk * (size_t) hc_np);
            if (d >= 0)
                FAIL("amo-effect", "region %d: byte %ld of cell %ld of origin %ld is %02x, expected %02x", reg, d % CELL,
                     d % (long) blk / CELL, d / (long) blk, (unsigned char) W.mem[reg][d], in[d]);
            STAT("bytes_checked", (long) blk * hc_np);
        }
        hc_barrier_poll();
        hc_tick("round");
    }
    free(exp);
    free(in);
    hc_barrier_poll();
    world_close();
    hc_detach();
    shmem_finalize();
}

/* ---- linearizability ---- */
typedef struct {
    uint64_t t0, t1;            /* between these it took effect */
    uint64_t v, k, res;
    int form, obj, org, seq, fseg;      /* fseg: number of fences/quiets the origin had made */
    int hasres;
} lop_t;
#define MAXOP 256               /* per PE and round */
#define MAXH 60                 /* per object */
typedef struct { int type, form0, es, t, reg, slot, off, kind; uint64_t init; } lobj_t;

typedef struct { uint64_t mask, val; } memo_t;
static memo_t *memo;
static uint8_t *memo_used;
static size_t memo_cap = 1u << 20, memo_n;
static int memo_add(uint64_t mask, uint64_t val)
{
    size_t h = (size_t) (hc_mix(mask ^ hc_mix(val)) & (memo_cap - 1));
    while (memo_used[h]) {
        if (memo[h].mask == mask && memo[h].val == val)
            return 0;
        h = (h + 1) & (memo_cap - 1);
    }
    memo_used[h] = 1;
    memo[h].mask = mask;
    memo[h].val = val;
    memo_n++;
    return 1;
}
static uint64_t hist_prec[64], hist_final, hist_trunc;
static lop_t *hist[64];
static int hist_n;
static uint64_t memo_visits;
/* 1: linearizable from here; 0: not; -1: gave up */
static int search(uint64_t done, uint64_t val)
{
    if (done == (hist_n == 64 ? ~0ull : (1ull << hist_n) - 1))
        return val == hist_final;
    if (!memo_add(done, val))
        return 0;
    if (memo_n > memo_cap / 2)
        return -1;
    memo_visits++;
    for (int i = 0; i < hist_n; i++) {
        if (done >> i & 1 || (hist_prec[i] & ~done))
            continue;
        lop_t *o = hist[i];
        uint64_t nv = 0;
        if (o->hasres && o->res != val)
            continue;
        amo_apply(&amos[o->form], &nv, &val, &o->v, &o->k);
        int r = search(done | 1ull << i, nv & hist_trunc);
        if (r)
            return r;
    }
    return 0;
}
static void check_history(const lobj_t * ob, lop_t * all, const int *counts, int obj, uint64_t final)
{
    hist_n = 0;
    for (int p = 0; p < hc_np; p++)
        for (int i = 0; i < counts[p]; i++)
            if (all[p * MAXOP + i].obj == obj)
                hist[hist_n++] = &all[p * MAXOP + i];
    if (!hist_n)
        return;
    /* sorted by start so that the search tries likely orders first */
    for (int i = 1; i < hist_n; i++)
        for (int j = i; j > 0 && hist[j]->t0 < hist[j - 1]->t0; j--) {
            lop_t *x = hist[j];
            hist[j] = hist[j - 1];
            hist[j - 1] = x;
        }
    long overlap = 0;
    for (int i = 0; i < hist_n; i++) {
        hist_prec[i] = 0;
        for (int j = 0; j < hist_n; j++) {
            if (i == j)
                continue;
            if (hist[j]->t1 < hist[i]->t0 || (hist[j]->org == hist[i]->org && hist[j]->fseg < hist[i]->fseg))
                hist_prec[i] |= 1ull << j;
            else if (!(hist[i]->t1 < hist[j]->t0) && j < i)
                overlap++;
        }
    }
    hist_final = final;
    hist_trunc = ob->es == 8 ? ~0ull : (1ull << (8 * ob->es)) - 1;
    memset(memo_used, 0, memo_cap);
    memo_n = 0;
    int r = search(0, ob->init);
    STAT("histories", 1);
    STAT("history_ops", hist_n);
    STAT("overlapping_pairs", overlap);
    uint64_t ord = 0;
    for (int i = 0; i < hist_n; i++)
        ord = hc_mix(ord ^ hist[i]->res ^ hc_mix((uint64_t) hist[i]->org * 131 + (uint64_t) hist[i]->seq));
    hc_cover(ord);
    if (r < 0)
        STAT("gave_up", 1);
    if (r == 0) {
        char b[3000];
        int n = 0;
        for (int i = 0; i < hist_n && n < 2600; i++)
            n += snprintf(b + n, sizeof b - (size_t) n, "; PE %d %s v=%llx k=%llx%s%llx [%llu,%llu]", hist[i]->org,
                          amos[hist[i]->form].name, (unsigned long long) hist[i]->v, (unsigned long long) hist[i]->k,
                          hist[i]->hasres ? " -> " : " (no result) ", (unsigned long long) hist[i]->res,
                          (unsigned long long) ((hist[i]->t0 - hist[0]->t0) / 1000),
                          (unsigned long long) ((hist[i]->t1 - hist[0]->t0) / 1000));
        FAIL("not-linearizable", "object on PE %d region %d initially %llx finally %llx: no order of the %d operations explains the "
             "results%s", ob->t, ob->reg, (unsigned long long) ob->init, (unsigned long long) final, hist_n, b);
    }
}

SCENARIO(amolin)
{
    shmem_init();
    hc_attach();
    int mixctx = (int) hc_arg("mixctx", 0);
    world_open(32, (int) hc_arg("space", 1), (int) hc_arg("nctx", 2));
    long rounds = hc_arg("rounds", 30);
    memo = (memo_t *) malloc(memo_cap * sizeof(memo_t));
    memo_used = (uint8_t *) malloc(memo_cap);
    lop_t *mine = (lop_t *) calloc(MAXOP, sizeof(lop_t)), *all = (lop_t *) calloc((size_t) (MAXOP * hc_np), sizeof(lop_t));
    static lobj_t ob[12];
    int *counts = (int *) malloc(sizeof(int) * (size_t) hc_np);
    for (long rd = 0; rd < rounds && !(rd % 4 == 0 && hc_max(hc_fails)); rd++) {
        rng_t g = rng_of(80, (uint64_t) rd);
        int nob = mixctx == 2 ? 1 : 1 + (int) rndn(&g, 4), share = (int) rndn(&g, 3) == 0, ht = (int) rndn(&g, (uint64_t) hc_np);
        int octx[12], ofam[12];
        uint64_t fin[12], myfin[12] = { 0 };
        for (int o = 0; o < nob; o++) {
            do
                ob[o].form0 = (int) rndn(&g, (uint64_t) namos);
            while (amos[ob[o].form0].tk == TK_F && rndn(&g, 4));
            ob[o].type = amos[ob[o].form0].type;
            ob[o].es = amos[ob[o].form0].es;
            ob[o].t = share ? ht : (int) rndn(&g, (uint64_t) hc_np);
            ob[o].reg = (int) rndn(&g, (uint64_t) W.nreg);
            ob[o].slot = o;
            ob[o].off = (int) rndn(&g, (uint64_t) (SLOT / ob[o].es)) * ob[o].es;
            ob[o].init = rndn(&g, 2) ? 0 : rnd(&g);
            if (amos[ob[o].form0].tk != TK_U)
                ob[o].init &= 0xffff;
            if (ob[o].es == 4)
                ob[o].init &= 0xffffffffu;
            /* one context for all accesses of an object, or any */
            octx[o] = ob[o].reg == 2 && W.nctx ? (int) rndn(&g, (uint64_t) W.nctx + 2) - 1 : -(int) rndn(&g, 2);
            ofam[o] = (int) rndn(&g, 6);
            if (mixctx == 2) {
                ob[o].reg = 2;
                ofam[o] = 1 + (int) rndn(&g, 2);
            }
            if (ob[o].t == hc_me)
                memcpy(slot_at(ob[o].reg, o) + ob[o].off, &ob[o].init, (size_t) ob[o].es);
        }
        int per = MAXH / hc_np;
        long nops = rndr(&g, 6, per * nob < MAXOP ? per * nob : MAXOP);
        shmem_barrier_all();
        hc_barrier_poll();
        rng_t p = rng_of(81, (uint64_t) (rd * 64 + hc_me));
        int cnt[12] = { 0 }, n = 0, fseg = 0, pend = 0, pfirst = 0;
        uint64_t last[12];
        for (int o = 0; o < nob; o++)
            last[o] = ob[o].init;
        unsigned char fb[MAXOP][16];
        for (long k = 0; k < nops; k++) {
            int o = (int) rndn(&p, (uint64_t) nob);
            if (cnt[o] >= per)
                continue;
            int ctx = octx[o], tries = 0;
            if (mixctx && ob[o].reg == 2 && W.nctx)
                ctx = (int) rndn(&p, (uint64_t) W.nctx + 2) - 1;
            const amo_t *a;
            do {
                a = &amos[rndn(&p, (uint64_t) namos)];
                if (a->ctx != (ctx >= 0) || a->type != ob[o].type)
                    continue;
                int ok = 1;
                switch (ofam[o]) {
                    case 0: ok = a->op == A_INC || a->op == A_ADD || a->op == A_FETCH; break;
                    case 1: ok = a->op == A_SWAP || a->op == A_SET; break;
                    case 2: ok = a->op == A_CSWAP; break;
                    case 3: ok = a->op == A_AND || a->op == A_OR || a->op == A_XOR; break;
                    case 4: ok = a->op == A_CSWAP || a->op == A_INC || a->op == A_SWAP; break;
                    default: break;
                }
                if (ok || tries > 3000)
                    break;
            } while (++tries < 30000);
            if (a->type != ob[o].type || a->ctx != (ctx >= 0))
                continue;
            lop_t *l = &mine[n];
            memset(l, 0, sizeof *l);
            l->form = (int) (a - amos);
            l->obj = o;
            l->org = hc_me;
            l->seq = n;
            uint64_t x = rndn(&p, 3) ? rndn(&p, 4) + 1 : (uint64_t) (rd * 7 + n * 64 + hc_me);
            if (a->tk == TK_F) {
                double d = (double) x;
                float f = (float) d;
                if (a->es == 4)
                    memcpy(&l->v, &f, 4);
                else
                    memcpy(&l->v, &d, 8);
            } else if (a->op == A_AND || a->op == A_OR || a->op == A_XOR) {
                l->v = a->op == A_AND ? ~(1ull << rndn(&p, 16)) : 1ull << rndn(&p, 16);
            } else
                l->v = x;
            l->k = rndn(&p, 4) ? last[o] : rndn(&p, 4);
            if (a->es == 4) {
                l->v &= 0xffffffffu;
                l->k &= 0xffffffffu;
            }
            cnt[o]++;
            /* a non-fetching or non-blocking operation takes effect between its call and the end of the next quiet */
            int posted = a->nbi || !a->fetching;
            hc_where(a->name, ob[o].t, ob[o].reg, o);
            memset(fb[n], 0, 16);
            l->t0 = now_ns();
            l->fseg = fseg;
            a->fn(sop_ctx(ctx), slot_at(ob[o].reg, o) + ob[o].off, &l->v, &l->k, fb[n], ob[o].t);
            l->t1 = posted ? ~0ull : now_ns();
            l->hasres = a->fetching;
            if (a->fetching && !a->nbi)
                memcpy(&last[o], fb[n], (size_t) a->es), l->res = ldv(fb[n], a->es), last[o] = l->res;
            if (posted) {
                if (!pend)
                    pfirst = n;
                pend++;
            }
            n++;
            STAT("atomics", 1);
            if (pend >= 3 || (pend && rndn(&p, 2)) || k == nops - 1) {
                shmem_quiet();
                for (int i = 0; i < W.nctx; i++)
                    shmem_ctx_quiet(W.ctxs[i]);
                uint64_t e = now_ns();
                for (int i = pfirst; i < n; i++)
                    if (mine[i].t1 == ~0ull) {
                        mine[i].t1 = e;
                        if (mine[i].hasres)
                            last[mine[i].obj] = mine[i].res = ldv(fb[i], ob[mine[i].obj].es);
                    }
                pend = 0;
            } else if (pend && rndn(&p, 4) == 0) {
                shmem_fence();
                for (int i = 0; i < W.nctx; i++)
                    shmem_ctx_fence(W.ctxs[i]);
                fseg++;
            }
            if (rndn(&p, 16) == 0)
                hc_jitter(&p);
        }
        if (pend) {
            shmem_quiet();
            for (int i = 0; i < W.nctx; i++)
                shmem_ctx_quiet(W.ctxs[i]);
            uint64_t e = now_ns();
            for (int i = 0; i < n; i++)
                if (mine[i].t1 == ~0ull) {
                    mine[i].t1 = e;
                    if (mine[i].hasres)
                        mine[i].res = ldv(fb[i], ob[mine[i].obj].es);
                }
        }
        hc_barrier_poll();
        for (int o = 0; o < nob; o++)
            if (ob[o].t == hc_me)
                myfin[o] = ldv(slot_at(ob[o].reg, o) + ob[o].off, ob[o].es);
        for (int o = 0; o < nob; o++) {
            fin[o] = myfin[o];
            PMPI_Bcast(&fin[o], 8, MPI_BYTE, ob[o].t, hc_comm);
        }
        PMPI_Allgather(&n, 1, MPI_INT, counts, 1, MPI_INT, hc_comm);
        PMPI_Allgather(mine, (int) (sizeof(lop_t) * MAXOP), MPI_BYTE, all, (int) (sizeof(lop_t) * MAXOP), MPI_BYTE, hc_comm);
        for (int o = 0; o < nob; o++)
            if ((o + rd) % hc_np == hc_me)
                check_history(&ob[o], all, counts, o, fin[o]);
        hc_barrier_poll();
        hc_tick("round");
    }
    free(memo);
    free(memo_used);
    free(mine);
    free(all);
    free(counts);
    hc_barrier_poll();
    world_close();
    hc_detach();
    shmem_finalize();
}

/* many updates, nothing lost: conservation at volume */
SCENARIO(amosum)
{
    shmem_init();
    hc_attach();
    world_open(64, (int) hc_arg("space", 1), (int) hc_arg("nctx", 2));
    long rounds = hc_arg("rounds", 12), n = hc_arg("ops", 400);
    for (long rd = 0; rd < rounds && !(rd % 4 == 0 && hc_max(hc_fails)); rd++) {
        rng_t g = rng_of(90, (uint64_t) rd);
        enum { NO = 6 };
        int slot[NO], t[NO], reg[NO], ctx[NO], type[NO], es[NO], kind[NO];
        uint64_t mysum[NO] = { 0 }, sum[NO], mymask[NO] = { 0 }, got[NO] = { 0 };
        long tk[NO] = { 0 };
        for (int o = 0; o < NO; o++) {
            const amo_t *a;
            do
                a = &amos[rndn(&g, (uint64_t) namos)];
            while (a->op != A_ADD || a->tk == TK_F);
            type[o] = a->type;
            es[o] = a->es;
            t[o] = rndn(&g, 2) ? 0 : (int) rndn(&g, (uint64_t) hc_np);
            reg[o] = (int) rndn(&g, (uint64_t) W.nreg);
            slot[o] = o;
            ctx[o] = reg[o] == 2 && W.nctx ? (int) rndn(&g, (uint64_t) W.nctx + 2) - 1 : -(int) rndn(&g, 2);
            kind[o] = (int) rndn(&g, 2);        /* adds; or tickets by fetch-inc */
            if (t[o] == hc_me)
                memset(slot_at(reg[o], slot[o]), 0, SLOT);
        }
        shmem_barrier_all();
        hc_barrier_poll();
        rng_t p = rng_of(91, (uint64_t) (rd * 64 + hc_me));
        uint64_t prev[NO];
        memset(prev, 0xff, sizeof prev);
        static unsigned char res[512][16];
        static int reso[512];
        int nr = 0;
        uint64_t tsum[NO] = { 0 };
        for (long k = 0; k < n; k++) {
            int o = (int) rndn(&p, NO);
            const amo_t *a;
            do
                a = &amos[rndn(&p, (uint64_t) namos)];
            while (a->type != type[o] || a->ctx != (ctx[o] >= 0) || !(kind[o] ? a->op == A_INC && a->fetching : a->op == A_ADD || a->op == A_INC));
            uint64_t v = a->op == A_INC ? 1 : 1 + rndn(&p, 50), z = 0;
            unsigned char *f = res[nr];
            a->fn(sop_ctx(ctx[o]), slot_at(reg[o], slot[o]), &v, &z, f, t[o]);
            mysum[o] += v;
            tk[o]++;
            STAT("atomics", 1);
            if (a->fetching && !a->nbi) {
                uint64_t x = ldv(f, es[o]);
                if (prev[o] != ~0ull && x <= prev[o])
                    FAIL("amo-order", "%s fetched %llu after %llu had been fetched by the same PE from a growing object", a->name,
                         (unsigned long long) x, (unsigned long long) prev[o]);
                prev[o] = x;
                if (kind[o]) {
                    mymask[o] ^= hc_mix(x + 1);
                    tsum[o] += x;
                }
            } else if (a->nbi) {
                reso[nr++] = o;
            }
            if (nr == 500 || k == n - 1) {
                shmem_quiet();
                for (int i = 0; i < W.nctx; i++)
                    shmem_ctx_quiet(W.ctxs[i]);
                for (int i = 0; i < nr; i++)
                    if (kind[reso[i]]) {
                        uint64_t x = ldv(res[i], es[reso[i]]);
                        mymask[reso[i]] ^= hc_mix(x + 1);
                        tsum[reso[i]] += x;
                    }
                nr = 0;
            }
        }
        shmem_quiet();
        for (int i = 0; i < W.nctx; i++)
            shmem_ctx_quiet(W.ctxs[i]);
        hc_barrier_poll();
        for (int o = 0; o < NO; o++) {
            uint64_t tot, x = 0;
            PMPI_Allreduce(&mysum[o], &sum[o], 1, MPI_UINT64_T, MPI_SUM, hc_comm);
            if (t[o] == hc_me) {
                x = ldv(slot_at(reg[o], slot[o]), es[o]);
                if (x != sum[o])
                    FAIL("amo-lost", "object of size %d in region %d: %llu after additions of %llu", es[o], reg[o],
                         (unsigned long long) x, (unsigned long long) sum[o]);
                STAT("sums_checked", 1);
            }
            PMPI_Allreduce(&mymask[o], &got[o], 1, MPI_UINT64_T, MPI_BXOR, hc_comm);
            PMPI_Allreduce(&tsum[o], &tot, 1, MPI_UINT64_T, MPI_SUM, hc_comm);
            if (kind[o] && t[o] == hc_me) {
                uint64_t w = 0;
                for (uint64_t i = 0; i < sum[o]; i++)
                    w ^= hc_mix(i + 1);
                if (w != got[o] || (sum[o] && tot != sum[o] * (sum[o] - 1) / 2))
                    FAIL("amo-tickets", "%llu fetch-increments did not hand out each number once", (unsigned long long) sum[o]);
            }
        }
        hc_barrier_poll();
        hc_tick("round");
    }
    hc_barrier_poll();
    world_close();
    hc_detach();
    shmem_finalize();
}
