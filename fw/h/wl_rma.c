/* Transfers of every form against a reference model of all symmetric memory (P01, P02; also P17, P19, P21). */
#include "hc.h"
#include "rma_forms.h"

#define NREG 3
#define STAT_BYTES (24 * 1024)
static char statmem[STAT_BYTES] __attribute__((aligned(64)));

typedef struct {
    int org, form, reg, t, ctx, kind;     /* kind 0: transfer, 1: quiet in the middle, 2: yield */
    long off;                             /* remote byte offset of element 0 */
    long loff;                            /* local byte offset */
    long n, dst, sst;
    uint64_t seed;
} opn_t;

static char *mem[NREG];
static long rsz[NREG];
static int nreg;
static unsigned char *model[64][NREG];
static unsigned char *care[64][NREG];
static unsigned char *taken[64][NREG];
static shmem_ctx_t ctxs[8];
static int nctx;
static shmemx_space_t space;

static const char *regname[NREG] = { "heap", "static", "space" };

static void fail_at(const char *key, opn_t * ops, int nops, int t, int r, long at, int got, int want)
{
    for (int i = 0; i < nops; i++) {
        opn_t *o = &ops[i];
        if (o->kind || o->t != t || o->reg != r)
            continue;
        form_t *f = &forms[o->form];
        if (f->k == F_GET || f->k == F_GETNBI || f->k == F_G || f->k == F_IGET)
            continue;
        long rs = f->k == F_IPUT ? o->dst : 1;
        for (long e = 0; e < o->n; e++)
            if (at >= o->off + e * rs * f->es && at < o->off + (e * rs + 1) * f->es) {
                FAIL(key, "PE %d %s+%ld is %02x, expected %02x: element %ld of %s from PE %d (n=%ld dst=%ld sst=%ld es=%d ctx=%d)",
                     t, regname[r], at, got, want, e, f->name, o->org, o->n, o->dst, o->sst, f->es, o->ctx);
                return;
            }
    }
    FAIL(key, "PE %d %s+%ld is %02x, expected %02x: no transfer was addressed to it", t, regname[r], at, got, want);
}

static int is_get(int k) { return k == F_GET || k == F_GETNBI || k == F_G || k == F_IGET; }
static int is_strided(int k) { return k == F_IPUT || k == F_IGET; }

static int pick_form(rng_t * r, int want, int ctx_ok)
{
    while (1) {
        int f = (int) rndn(r, (uint64_t) nforms);
        if (want == 1 && is_strided(forms[f].k))
            continue;
        if (want == 2 && !is_strided(forms[f].k))
            continue;
        (void) ctx_ok;
        return f;
    }
}

static long pick_n(rng_t * r, long max)
{
    long n;
    if (max < 0)
        max = 0;
    switch (rndn(r, 9)) {
        case 0: n = (long) rndn(r, 3); break;
        case 8: n = (64L << rndn(r, 13)) + rndr(r, -1, 1); break;
        case 1: n = 1; break;
        case 2: n = rndr(r, 1, 8); break;
        case 3: n = max; break;
        case 4: n = rndr(r, 0, 64); break;
        default: n = rndr(r, 0, max < 200 ? max : 200); break;
    }
    return n > max ? max : n;
}

void rma_run(int want, int scn)
{
    long epochs = hc_arg("epochs", 6), nops = hc_arg("ops", 40);
    long heap = hc_arg("heap", 16384);
    int use_space = (int) hc_arg("space", 1), lsym = (int) hc_arg("lsym", 0);
    char lastop[96] = "";

    if (hc_arg("mt", 0)) {
        int pv;
        shmem_init_thread(SHMEM_THREAD_MULTIPLE, &pv);
    } else
        shmem_init();
    hc_attach();
    int np = hc_np, me = hc_me;
    if (shmem_my_pe() != me || shmem_n_pes() != np)
        FAIL("pe-number", "%d of %d", shmem_my_pe(), shmem_n_pes());
    rsz[0] = heap;
    mem[0] = (char *) shmem_malloc((size_t) heap);
    rsz[1] = STAT_BYTES;
    mem[1] = statmem;
    nreg = 2;
    if (use_space) {
        shmemx_space_config_t c;
        memset(&c, 0, sizeof c);
        rsz[2] = 12288;
        c.sheap_size = 16384;
        c.num_contexts = use_space == 2 ? 0 : 2;
        c.memkind = SHMEMX_MEM_HOST;
        c.hints = 0;
        shmemx_space_create(c, &space);
        shmemx_space_attach(space);
        mem[2] = (char *) shmemx_space_malloc(space, (size_t) rsz[2]);
        for (int i = 0; i < c.num_contexts; i++)
            if (shmemx_space_create_ctx(space, 0, &ctxs[nctx]) == 0)
                nctx++;
        nreg = 3;
    }
    if (!mem[0] || (use_space && !mem[2])) {
        FAIL("alloc", "allocation failed");
        return;
    }
    for (int t = 0; t < np; t++)
        for (int r = 0; r < nreg; r++) {
            model[t][r] = (unsigned char *) malloc((size_t) rsz[r]);
            care[t][r] = (unsigned char *) malloc((size_t) rsz[r]);
            taken[t][r] = (unsigned char *) malloc((size_t) rsz[r]);
            hc_fill(model[t][r], (size_t) rsz[r], hc_mix(hc_seed + (uint64_t) (t * 7 + r)));
        }
    for (int r = 0; r < nreg; r++)
        memcpy(mem[r], model[me][r], (size_t) rsz[r]);
    long LB = 400 * 1024 + 4 * heap;
    char *arena = lsym ? (char *) shmem_malloc((size_t) LB) : (char *) malloc((size_t) LB);
    if (!arena) {
        FAIL("alloc", "arena");
        return;
    }
    char *aexp = (char *) malloc((size_t) LB);
    opn_t *ops = (opn_t *) calloc((size_t) (np * nops), sizeof *ops);
    /* a small pool of strides, so that layouts repeat and nearly repeat */
    rng_t pr = rng_of(777, 1);
    long pool[6][2];
    for (int i = 0; i < 6; i++) {
        pool[i][0] = rndr(&pr, 1, i < 2 ? 3 : 12);
        pool[i][1] = i % 3 == 0 ? pool[i][0] : rndr(&pr, 1, i < 2 ? 3 : 12);
    }
    shmem_barrier_all();
    hc_barrier_poll();

    for (long ep = 0; ep < epochs; ep++) {
        rng_t g = rng_of(1000 + (uint64_t) ep, 5);
        int cnt = 0, nsl = np + 1;
        for (int t = 0; t < np; t++)
            for (int r = 0; r < nreg; r++) {
                memset(taken[t][r], 0, (size_t) rsz[r]);
                memset(care[t][r], 1, (size_t) rsz[r]);
            }
        int myfirst = 0, mylast = 0;
        long lcur = 0;
        for (int o = 0; o < np; o++) {
            if (o == me)
                myfirst = cnt;
            long cur = 0;
            for (long k = 0; k < nops; k++) {
                opn_t *x = &ops[cnt];
                memset(x, 0, sizeof *x);
                x->org = o;
                uint64_t what = rndn(&g, 40);
                if (what == 0 || what == 1) {
                    x->kind = what == 0 ? 1 : 2;
                    if (x->kind == 1)       /* quiet: this origin may write the same places again */
                        for (int t = 0; t < np; t++)
                            for (int r = 0; r < nreg; r++) {
                                int sl = (o + (int) ep) % nsl;
                                long lo = rsz[r] * sl / nsl / 16 * 16, hi = rsz[r] * (sl + 1) / nsl / 16 * 16;
                                memset(taken[t][r] + lo, 0, (size_t) (hi - lo));
                            }
                    cnt++;
                    continue;
                }
                int f = pick_form(&g, want ? want : (rndn(&g, 3) ? 1 : 2), 1);
                form_t *F = &forms[f];
                x->form = f;
                x->t = rndn(&g, 6) == 0 ? o : (int) rndn(&g, (uint64_t) np);
                x->reg = (int) rndn(&g, (uint64_t) nreg);
                x->ctx = -1;
                if (F->ctx) {
                    x->ctx = 0;
                    if (x->reg == 2 && nctx && rndn(&g, 3))
                        x->ctx = 1 + (int) rndn(&g, (uint64_t) nctx);
                }
                x->seed = rnd(&g);
                int get = is_get(F->k);
                int sl = ((get ? np : o) + (int) ep) % nsl;
                long lo = rsz[x->reg] * sl / nsl / 16 * 16, hi = rsz[x->reg] * (sl + 1) / nsl / 16 * 16;
                long es = F->es, cap = (hi - lo) / es;
                int ok = 0;
                for (int tries = 0; tries < 6 && !ok; tries++) {
                    long rs = 1, ls = 1;
                    if (is_strided(F->k)) {
                        int q = (int) rndn(&g, 8);
                        if (q < 6) {
                            x->dst = pool[q][0];
                            x->sst = pool[q][1];
                        } else if (q == 6 && rndn(&g, 2)) {
                            /* far apart, around powers of two, on one side or both */
                            long far = (64L << rndn(&g, 8)) + rndr(&g, -1, 1);
                            int side = (int) rndn(&g, 3);
                            x->dst = side != 1 ? far : rndr(&g, 1, 4);
                            x->sst = side != 0 ? far : rndr(&g, 1, 4);
                        } else {
                            x->dst = rndr(&g, 1, 20);
                            x->sst = rndr(&g, 1, 20);
                        }
                        rs = get ? x->sst : x->dst;
                        ls = get ? x->dst : x->sst;
                        long mx = cap / rs;
                        x->n = rndn(&g, 3) == 0 ? pick_n(&g, mx) : rndr(&g, 0, mx < 9 ? mx : 9);
                    } else if (F->k == F_P || F->k == F_G)
                        x->n = 1;
                    else
                        x->n = pick_n(&g, cap * (tries < 3 ? 1 : 0) + (tries >= 3 ? 4 : 0));
                    long ext = x->n ? ((x->n - 1) * rs + 1) * es : 0;
                    if (ext > hi - lo)
                        continue;
                    long slots = (hi - lo - ext) / es + 1;
                    x->off = lo + (long) rndn(&g, (uint64_t) slots) * es;
                    long lext = x->n ? ((x->n - 1) * ls + 1) * es : 0;
                    if (cur + lext + 64 > LB)
                        continue;
                    int clash = 0;
                    if (!get)
                        for (long e = 0; e < x->n && !clash; e++)
                            for (long b = 0; b < es; b++)
                                if (taken[x->t][x->reg][x->off + e * rs * es + b]) {
                                    clash = 1;
                                    break;
                                }
                    if (clash)
                        continue;
                    cur = (cur + (long) rndn(&g, 3) * es + es - 1) / es * es;
                    cur = (cur + 15) / 16 * 16 + (es < 16 ? (long) rndn(&g, 16 / (uint64_t) es) * es : 0);
                    x->loff = cur;
                    cur += lext + 8;
                    if (cur + 64 > LB)
                        continue;
                    if (!get) {
                        for (long e = 0; e < x->n; e++)
                            for (long b = 0; b < es; b++)
                                taken[x->t][x->reg][x->off + e * rs * es + b] = 1;
                    }
                    ok = 1;
                }
                if (!ok) {
                    x->kind = 2;
                }
                cnt++;
            }
            if (o == me) {
                mylast = cnt;
                lcur = cur + 64 > LB ? LB : cur + 64;
            }
        }
        /* run mine */
        hc_fill(arena, (size_t) lcur, hc_mix(hc_seed ^ (uint64_t) (ep * 31 + me)));
        for (int i = myfirst; i < mylast; i++) {
            opn_t *x = &ops[i];
            form_t *F = &forms[x->form];
            if (x->kind || is_get(F->k))
                continue;
            long ls = F->k == F_IPUT ? x->sst : 1;
            for (long e = 0; e < x->n; e++)
                for (long b = 0; b < F->es; b++)
                    arena[x->loff + e * ls * F->es + b] = (char) hc_byte(x->seed, (size_t) (e * F->es + b));
        }
        memcpy(aexp, arena, (size_t) lcur);
        rng_t jr = rng_of(9000 + (uint64_t) ep, (uint64_t) me);
        for (int i = myfirst; i < mylast; i++) {
            opn_t *x = &ops[i];
            form_t *F = &forms[x->form];
            if (x->kind == 1) {
                shmem_quiet();
                for (int c = 0; c < nctx; c++)
                    shmem_ctx_quiet(ctxs[c]);
                continue;
            }
            if (x->kind == 2) {
                hc_jitter(&jr);
                continue;
            }
            shmem_ctx_t c = x->ctx <= 0 ? SHMEM_CTX_DEFAULT : ctxs[x->ctx - 1];
            char *rem = mem[x->reg] + x->off, *loc = arena + x->loff;
            hc_where(F->name, i, x->n, x->t);
            snprintf(lastop, sizeof lastop, "%s", F->name);
            if (is_get(F->k))
                F->fn(c, loc, rem, x->dst, x->sst, (size_t) x->n, x->t);
            else
                F->fn(c, rem, loc, x->dst, x->sst, (size_t) x->n, x->t);
            COVER(x->form, x->reg, x->ctx > 0, x->t == me, x->n == 0 ? 0 : x->n == 1 ? 1 : x->n < 9 ? 2 : x->n < 200 ? 3 : x->n < 5000 ? 4 : x->n < 40000 ? 5 : 6,
                  x->dst, x->sst, scn);
            STAT("transfers", 1);
            if (F->k == F_GET || F->k == F_G || F->k == F_IGET) {
                long ls = F->k == F_IGET ? x->dst : 1, rs = F->k == F_IGET ? x->sst : 1;
                for (long e = 0; e < x->n; e++) {
                    long m = F->k == F_G ? F->vs : F->es;
                    const unsigned char *w = model[x->t][x->reg] + x->off + e * rs * F->es;
                    if (memcmp(loc + e * ls * F->es, w, (size_t) m)) {
                        FAIL("get-wrong-data", "%s from PE %d %s+%ld n=%ld dst=%ld sst=%ld ctx=%d: element %ld differs at return (%02x.. expected %02x..)",
                             F->name, x->t, regname[x->reg], x->off, x->n, x->dst, x->sst, x->ctx, e,
                             (unsigned char) loc[e * ls * F->es], w[0]);
                        break;
                    }
                    memcpy(aexp + x->loff + e * ls * F->es, loc + e * ls * F->es, (size_t) F->es);
                }
            } else if (F->k == F_PUT || F->k == F_P || F->k == F_IPUT) {
                long ls = F->k == F_IPUT ? x->sst : 1;
                for (long e = 0; e < x->n; e++)
                    for (long b = 0; b < F->es; b++)
                        arena[x->loff + e * ls * F->es + b] = aexp[x->loff + e * ls * F->es + b] = (char) (0x5C ^ b);
            } else if (F->k == F_GETNBI) {
                for (long e = 0; e < x->n; e++)
                    memcpy(aexp + x->loff + e * F->es, model[x->t][x->reg] + x->off + e * F->es, (size_t) F->es);
            }
        }
        /* complete */
        int how = (int) rndn(&g, 3);
        for (int c = 0; c < nctx; c++)
            shmem_ctx_quiet(ctxs[c]);
        if (how == 0) {
            shmem_quiet();
            hc_barrier_poll();
        } else if (how == 1)
            shmem_barrier_all();
        else {
            shmem_quiet();
            shmem_sync_all();
        }
        hc_barrier_poll();
        hc_tick("epoch");
        /* the model */
        for (int i = 0; i < cnt; i++) {
            opn_t *x = &ops[i];
            form_t *F = &forms[x->form];
            if (x->kind || is_get(F->k))
                continue;
            long rs = F->k == F_IPUT ? x->dst : 1;
            for (long e = 0; e < x->n; e++)
                for (long b = 0; b < F->es; b++) {
                    long at = x->off + e * rs * F->es + b;
                    model[x->t][x->reg][at] = hc_byte(x->seed, (size_t) (e * F->es + b));
                    care[x->t][x->reg][at] = !(F->k == F_P && b >= F->vs);
                }
        }
        for (int r = 0; r < nreg; r++) {
            unsigned char *m = (unsigned char *) mem[r];
            for (long i = 0; i < rsz[r]; i++)
                if (m[i] != model[me][r][i]) {
                    if (care[me][r][i]) {
                        fail_at("remote-memory", ops, cnt, me, r, i, m[i], model[me][r][i]);
                        break;
                    }
                }
            STAT("bytes_checked", rsz[r]);
        }
        long d = hc_diff(arena, aexp, (size_t) lcur);
        if (d >= 0) {
            int w = -1;
            for (int i = myfirst; i < mylast; i++)
                if (!ops[i].kind && ops[i].loff <= d)
                    w = i;
            FAIL("local-buffer", "local byte %ld is %02x, expected %02x; near the buffer of %s at %ld (n=%ld dst=%ld sst=%ld)", d,
                 (unsigned char) arena[d], (unsigned char) aexp[d], w < 0 ? "?" : forms[ops[w].form].name,
                 w < 0 ? -1 : ops[w].loff, w < 0 ? 0 : ops[w].n, w < 0 ? 0 : ops[w].dst, w < 0 ? 0 : ops[w].sst);
        }
        for (int r = 0; r < nreg; r++)
            for (long i = 0; i < rsz[r]; i++)
                if (!care[me][r][i])
                    mem[r][i] = (char) model[me][r][i];
        if (hc_max(hc_fails))
            break;
        hc_barrier_poll();
    }
    for (int t = 0; t < np; t++)
        for (int r = 0; r < nreg; r++) {
            free(model[t][r]);
            free(care[t][r]);
            free(taken[t][r]);
        }
    if (lsym)
        shmem_free(arena);
    else
        free(arena);
    free(aexp);
    free(ops);
    for (int c = 0; c < nctx; c++)
        shmem_ctx_destroy(ctxs[c]);
    if (use_space) {
        shmem_free(mem[2]);
        shmemx_space_detach(space);
        shmemx_space_destroy(space);
    }
    shmem_free(mem[0]);
    hc_detach();
    shmem_finalize();
}
SCENARIO(rma) { rma_run(1, 1); }
SCENARIO(strided) { rma_run(2, 2); }
SCENARIO(rmamix) { rma_run(0, 3); }
