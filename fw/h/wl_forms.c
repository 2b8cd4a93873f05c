/* One operation under all its names (P23): typed, sized, raw-memory, generic, context and deprecated forms are given the same
 * arguments on twin objects; afterwards the twins, the local buffers and the answers must be the same. */
#include "hc.h"
#include "gforms.h"
#define K 32                    /* twins */
#define TW 1024                 /* bytes of a twin */
#define MAXNP 8
static char stat_mem[MAXNP * K * TW] __attribute__((aligned(64)));
static char *mem[3];
static shmemx_space_t sp;
static shmem_ctx_t cx[2];
static int ncx, nreg;
static long PS[2][4], one;
static char csrc[8192] __attribute__((aligned(64))), cd1[8192] __attribute__((aligned(64))), cd2[8192] __attribute__((aligned(64)));
static char var[64] __attribute__((aligned(16)));

/* ---- which routine a generic call selected ---- */
static int tclass(const char *s, size_t n)
{
    static const struct { const char *n; int c; } T[] = {
        {"float", 304}, {"double", 308}, {"longdouble", 316}, {"char", 101}, {"schar", 101}, {"short", 102}, {"int", 104}, {"long", 108},
        {"longlong", 108}, {"uchar", 201}, {"ushort", 202}, {"uint", 204}, {"ulong", 208}, {"ulonglong", 208}, {"int8", 101}, {"int16", 102},
        {"int32", 104}, {"int64", 108}, {"uint8", 201}, {"uint16", 202}, {"uint32", 204}, {"uint64", 208}, {"size", 208}, {"ptrdiff", 108},
        {"complexd", 416}, {"complexf", 408}
    };
    for (size_t i = 0; i < sizeof T / sizeof T[0]; i++)
        if (strlen(T[i].n) == n && !memcmp(T[i].n, s, n))
            return T[i].c;
    return 0;
}
static const char *canon(const char *op)
{
    static const char *M[][2] = { {"fetch", "atomic_fetch"}, {"set", "atomic_set"}, {"swap", "atomic_swap"}, {"cswap", "atomic_compare_swap"},
        {"finc", "atomic_fetch_inc"}, {"fadd", "atomic_fetch_add"}, {"inc", "atomic_inc"}, {"add", "atomic_add"}
    };
    for (size_t i = 0; i < sizeof M / sizeof M[0]; i++)
        if (!strcmp(op, M[i][0]))
            return M[i][1];
    return op;
}
static void selected(const char *op, const char *type, int ctx)
{
    if (hc_form_last < 0)
        return;
    const char *full = hc_form_names[hc_form_last], *s = full;
    hc_form_last = -1;
    if (strncmp(s, "shmem_", 6))
        return;
    s += 6;
    int c = !strncmp(s, "ctx_", 4);
    s += c ? 4 : 0;
    const char *u = strchr(s, '_');
    if (!u)
        return;
    int got = tclass(s, (size_t) (u - s)), want = tclass(type, strlen(type));
    if (!got)
        return;                 /* not a typed name: the effect decides */
    STAT("selections", 1);
    if (got != want || strcmp(canon(u + 1), canon(op)) || c != ctx)
        FAIL("generic-selects", "PE %d: generic shmem_%s of a %s object%s selects %s", hc_me, op, type, ctx ? " with a context" : "", full);
}

/* ---- transfers ---- */
typedef struct {
    int amo, fam, es, tk, reg, ctx, t, n, nf;   /* ctx: 0 plain and default context, 1.. a context of the space */
    long off, dst, sst, loff;
    struct { int g, i; } f[K];
    uint64_t seed;
} grp_t;
static const form_t *ff(const grp_t * g, int i) { return g->f[i].g ? &gforms[g->f[i].i].f : &forms[g->f[i].i]; }
static const amo_t *fa(const grp_t * g, int i) { return g->f[i].g ? &gamos[g->f[i].i].a : &amos[g->f[i].i]; }
static int is_put(fkind_t k) { return k == F_PUT || k == F_PUTNBI || k == F_P || k == F_IPUT; }
static int fits(const grp_t * g, const form_t * f)
{
    int put = is_put(f->k);
    if (put != (g->fam == 0) || (g->ctx && !f->ctx))
        return 0;
    if (f->k == F_P || f->k == F_G)
        return f->es == g->es && g->n == 1 && f->vs == f->es;
    int mm = strstr(f->name, "mem") != NULL;
    if (f->k != F_IPUT && f->k != F_IGET && (g->dst != 1 || g->sst != 1))
        return 0;
    return mm || f->es == g->es;
}
static void pick(grp_t * g, rng_t * r, int pe)
{
    (void) pe;
    memset(g, 0, sizeof *g);
    g->seed = rnd(r);
    g->amo = rndn(r, 5) < 2;
    g->ctx = ncx && rndn(r, 3) == 0 ? 1 + (int) rndn(r, (uint64_t) ncx) : 0;
    g->reg = g->ctx ? 2 : (int) rndn(r, (uint64_t) nreg);
    g->t = (int) rndn(r, (uint64_t) hc_np);
    g->fam = (int) rndn(r, 2);
    int cand[4096], nc = 0, ng = 0;
    if (g->amo) {
        static const int OT[6][2] = { {4, TK_S}, {4, TK_U}, {8, TK_S}, {8, TK_U}, {4, TK_F}, {8, TK_F} };
        int x = (int) rndn(r, 9);
        g->fam = (int) rndn(r, 9);
        if (x >= 6)
            x -= 6;
        g->es = OT[x][0];
        g->tk = OT[x][1];
        if (g->tk == TK_F && g->fam > A_SWAP)
            g->fam = A_SWAP;
        g->off = g->es * rndr(r, 0, 60);
        for (int i = 0; i < namos + ngamos; i++) {
            const amo_t *a = i < namos ? &amos[i] : &gamos[i - namos].a;
            if ((int) a->op == g->fam && a->es == g->es && (int) a->tk == g->tk && (!g->ctx || a->ctx))
                cand[nc++] = i;
        }
        ng = namos;
    } else {
        g->es = 1 << rndn(r, 5);
        int s = (int) rndn(r, 3);
        g->dst = s ? 1 : rndr(r, 1, 4);
        g->sst = s ? 1 : rndr(r, 1, 4);
        g->n = rndn(r, 4) == 0 ? 1 : (int) rndr(r, 0, 900 / (g->es * 4) > 40 ? 40 : 900 / (g->es * 4));
        g->off = g->es * rndr(r, 0, 3);
        g->loff = g->es * rndr(r, 0, 3);
        for (int i = 0; i < nforms + ngforms; i++)
            if (fits(g, i < nforms ? &forms[i] : &gforms[i - nforms].f))
                cand[nc++] = i;
        ng = nforms;
    }
    for (int i = 0; i < nc && i < K; i++) {
        int j = i + (int) rndn(r, (uint64_t) (nc - i)), x = cand[j];
        cand[j] = cand[i];
        g->f[g->nf].g = x >= ng;
        g->f[g->nf++].i = x >= ng ? x - ng : x;
    }
}
static char *twin(int reg, int org, int i) { return mem[reg] + ((long) org * K + i) * TW; }
static void base_content(const grp_t * g, char *p)
{
    if (g->amo && g->tk == TK_F) {
        for (int i = 0; i < TW / g->es; i++)
            amo_value(fa(g, 0), p + i * g->es, g->seed + (uint64_t) i);
    } else
        hc_fill(p, TW, g->seed);
}
static const char *gname(const grp_t * g, int i)
{
    static char b[4][96];
    static int n;
    char *s = b[n++ & 3];
    if (g->amo)
        snprintf(s, 96, "%s%s", fa(g, i)->name, fa(g, i)->ctx ? " [ctx]" : "");
    else
        snprintf(s, 96, "%s%s", ff(g, i)->name, ff(g, i)->ctx ? " [ctx]" : "");
    return s;
}
static const char *gargs(const grp_t * g)
{
    static char s[160];
    snprintf(s, sizeof s, "PE %d memory %d ctx %d n %d element %d strides %ld/%ld offset %ld", g->t, g->reg, g->ctx, g->n, g->es, g->dst, g->sst, g->off);
    return s;
}
static void issue(grp_t * g, rng_t * own)
{
    static char loc[K][TW] __attribute__((aligned(64)));
    static unsigned char v[16], cond[16], res[K][16] __attribute__((aligned(16)));
    hc_where(g->amo ? "atomics" : "transfers", g->fam, g->es, g->ctx);
    if (g->amo) {
        char b[TW];
        base_content(g, b);
        amo_value(fa(g, 0), v, g->seed ^ 77);
        memset(cond, 0, sizeof cond);
        if (g->seed & 3)
            memcpy(cond, b + g->off, (size_t) g->es);
        else
            amo_value(fa(g, 0), cond, g->seed ^ 99);
        memset(res, 0x5c, sizeof res);
    }
    for (int i = 0; i < g->nf; i++) {
        shmem_ctx_t c = g->ctx ? cx[g->ctx - 1] : SHMEM_CTX_DEFAULT;
        char *rem = twin(g->reg, hc_me, i) + g->off;
        hc_form_last = -1;
        if (g->amo) {
            const amo_t *a = fa(g, i);
            a->fn(c, rem, v, cond, res[i], g->t);
            if (g->f[i].g)
                selected(gamos[g->f[i].i].op, gamos[g->f[i].i].type, a->ctx);
        } else {
            const form_t *f = ff(g, i);
            size_t n = (size_t) g->n;
            if (strstr(f->name, "mem"))
                n *= (size_t) g->es;
            hc_fill(loc[i], TW, g->seed ^ 4242);
            char *l = loc[i] + g->loff;
            if (g->fam == 0)
                f->fn(c, rem, l, g->dst, g->sst, n, g->t);
            else
                f->fn(c, l, rem, g->dst, g->sst, n, g->t);
            if (g->f[i].g)
                selected(gforms[g->f[i].i].op, gforms[g->f[i].i].type, f->ctx);
        }
        STAT("form_calls", 1);
        COVER(1, g->amo, g->f[i].g, g->f[i].i, g->ctx, g->reg);
        if (rndn(own, 20) == 0)
            hc_jitter(own);
    }
    if (g->ctx)
        shmem_ctx_quiet(cx[g->ctx - 1]);
    else
        shmem_quiet();
    if (g->amo) {
        int first = -1;
        for (int i = 0; i < g->nf; i++) {
            if (!fa(g, i)->fetching)
                continue;
            if (first < 0)
                first = i;
            STAT("twins_compared", 1);
            if (memcmp(res[i], res[first], 16))
                FAIL("forms-result", "PE %d: %s and %s return different values (%s)", hc_me, gname(g, first), gname(g, i), gargs(g));
        }
    } else
        for (int i = 1; i < g->nf; i++) {
            long d = hc_diff(loc[0], loc[i], TW);
            STAT("twins_compared", 1);
            if (d >= 0)
                FAIL("forms-local", "PE %d: %s and %s leave different local bytes, first at %ld (%s)", hc_me, gname(g, 0), gname(g, i), d, gargs(g));
        }
}
static void compare(const grp_t * g, int org)
{
    for (int i = 1; i < g->nf; i++) {
        long d = hc_diff(twin(g->reg, org, 0), twin(g->reg, org, i), TW);
        STAT("twins_compared", 1);
        if (d >= 0)
            FAIL("forms-effect", "PE %d: %s and %s of PE %d have different effects, first at byte %ld (%s)", hc_me, gname(g, 0), gname(g, i), org, d, gargs(g));
    }
}
/* ---- collectives: generic, typed, raw-memory and (where they exist) active-set calls ---- */
static void colls(rng_t * r, shmem_team_t team, int s, int l, int z)
{
    const gcoll_t *c = &gcolls[rndn(r, (uint64_t) ngcolls)];
    int n = (int) rndr(r, 1, 12), st1 = (int) rndr(r, 1, 3), st2 = (int) rndr(r, 1, 3), root = (int) rndn(r, (uint64_t) z), lg = 0;
    uint64_t sd = rnd(r);
    while (1 << lg < l)
        lg++;
    if (team == SHMEM_TEAM_INVALID)
        return;
    memset(csrc, 0, sizeof csrc);
    for (int i = 0; i < (int) sizeof csrc / c->es; i++) {
        uint64_t x = hc_mix(sd + (uint64_t) (i + 1000 * hc_me));
        if (!c->flt)
            memcpy(csrc + i * c->es, &x, (size_t) c->es < 8 ? (size_t) c->es : 8);
        else {
            /* small values: every order of a sum or product gives the same */
            double v = (double) (x % 4) + 1;
            if (!strcmp(c->type, "float"))
                ((float *) csrc)[i] = (float) v;
            else if (!strcmp(c->type, "double"))
                ((double *) csrc)[i] = v;
            else if (!strcmp(c->type, "longdouble"))
                ((long double *) csrc)[i] = v;
            else if (!strcmp(c->type, "complexf"))
                ((float _Complex *) csrc)[i] = (float) v;
            else
                ((double _Complex *) csrc)[i] = v;
        }
    }
    memset(cd1, 0x6b, sizeof cd1);
    memset(cd2, 0x6b, sizeof cd2);
    hc_where("collective", c->k, n, 0);
    hc_form_last = -1;
    int a = c->g(team, cd1, csrc, st1, st2, (size_t) n, root);
    if (hc_form_last >= 0)
        selected(c->op, c->type, 0);
    shmem_team_sync(team);
    int b = c->t(team, cd2, csrc, st1, st2, (size_t) n, root);
    STAT("twins_compared", 1);
    COVER(2, c - gcolls, z);
    if (a != b || memcmp(cd1, cd2, sizeof cd1))
        FAIL("forms-coll", "PE %d: generic and typed shmem_%s of %d %s differ (return %d and %d, first byte %ld)", hc_me, c->op, n, c->type, a, b,
             hc_diff(cd1, cd2, sizeof cd1));
    if (c->k == G_REDUCE || (c->k == G_ALLTOALLS && c->es != 4 && c->es != 8 && c->es != 1))
        return;
    /* the raw-memory form takes bytes; strides of elements are not strides of bytes */
    size_t m = (size_t) n * (size_t) c->es;
    const char *what = NULL;
    int rc = 0;
    shmem_team_sync(team);
    memset(cd1, 0x6b, sizeof cd1);
    shmem_team_sync(team);
    if (sd & 1 || (c->es != 4 && c->es != 8))
        switch (c->k) {
            case G_BCAST: rc = shmem_broadcastmem(team, cd1, csrc, m, root); what = "shmem_broadcastmem"; break;
            case G_COLLECT: rc = shmem_collectmem(team, cd1, csrc, m); what = "shmem_collectmem"; break;
            case G_FCOLLECT: rc = shmem_fcollectmem(team, cd1, csrc, m); what = "shmem_fcollectmem"; break;
            case G_ALLTOALL: rc = shmem_alltoallmem(team, cd1, csrc, m); what = "shmem_alltoallmem"; break;
            case G_ALLTOALLS:
                if (c->es == 1) {
                    rc = shmem_alltoallsmem(team, cd1, csrc, st1, st2, m);
                    what = "shmem_alltoallsmem";
                }
                break;
            default: break;
    } else {
        int w = c->es == 8;
        long *P = PS[0];
        switch (c->k) {
            case G_BCAST:
                (w ? shmem_broadcast64 : shmem_broadcast32) (cd1, csrc, (size_t) n, root, s, lg, z, P);
                what = w ? "shmem_broadcast64" : "shmem_broadcast32";
                /* leaves the root's own destination alone, the team form does not */
                if (shmem_team_my_pe(team) == root)
                    memcpy(cd1, cd2, sizeof cd1);
                break;
            case G_COLLECT:
                (w ? shmem_collect64 : shmem_collect32) (cd1, csrc, (size_t) n, s, lg, z, P);
                what = w ? "shmem_collect64" : "shmem_collect32";
                break;
            case G_FCOLLECT:
                (w ? shmem_fcollect64 : shmem_fcollect32) (cd1, csrc, (size_t) n, s, lg, z, P);
                what = w ? "shmem_fcollect64" : "shmem_fcollect32";
                break;
            case G_ALLTOALL:
                (w ? shmem_alltoall64 : shmem_alltoall32) (cd1, csrc, (size_t) n, s, lg, z, P);
                what = w ? "shmem_alltoall64" : "shmem_alltoall32";
                break;
            case G_ALLTOALLS:
                (w ? shmem_alltoalls64 : shmem_alltoalls32) (cd1, csrc, st1, st2, (size_t) n, s, lg, z, P);
                what = w ? "shmem_alltoalls64" : "shmem_alltoalls32";
                break;
            default: break;
        }
    }
    if (what) {
        STAT("twins_compared", 1);
        COVER(3, c->k, c->es, sd & 1);
        if (rc || memcmp(cd1, cd2, sizeof cd1))
            FAIL("forms-coll", "PE %d: %s and shmem_%s_%s of %d elements differ (return %d, first byte %ld)", hc_me, what, c->type, c->op, n, rc,
                 hc_diff(cd1, cd2, sizeof cd1));
    }
    shmem_team_sync(team);
}
/* ---- waiting ---- */
static void p2p(rng_t * r)
{
    static const int CMP[6] = { SHMEM_CMP_EQ, SHMEM_CMP_NE, SHMEM_CMP_GT, SHMEM_CMP_GE, SHMEM_CMP_LT, SHMEM_CMP_LE };
    const gp2p_t *p = &gp2ps[rndn(r, (uint64_t) ngp2ps)];
    char x[16] = { 0 };
    uint64_t a = rnd(r), b = rndn(r, 3) ? rnd(r) : a;
    int c = CMP[rndn(r, 6)];
    memcpy(var, &a, 8);
    memcpy(x, &b, 8);
    hc_form_last = -1;
    int g = p->gt(var, c, x);
    selected("test", p->type, 0);
    int t = p->tt(var, c, x);
    STAT("twins_compared", 1);
    COVER(4, p - gp2ps, c, g);
    if (!g != !t)
        FAIL("forms-test", "PE %d: shmem_test and shmem_%s_test answer %d and %d for the same variable", hc_me, p->type, g, t);
    if (g && t) {
        p->gw(var, c, x);
        selected("wait_until", p->type, 0);
        p->tw(var, c, x);
    }
}

SCENARIO(forms)
{
    int rounds = (int) hc_arg("rounds", 60);
    rng_t g = rng_of(130, 0);
    shmem_init();
    hc_attach();
    long *arr = (long *) hc_shared(sizeof(long) * (size_t) (2 * rounds + 2));
    if (hc_nogeneric)
        FAIL("generic-compile", "a C11 program with generic calls for the specification's types does not compile");
    size_t total = (size_t) hc_np * K * TW;
    mem[0] = (char *) shmem_align(64, total);
    mem[1] = stat_mem;
    nreg = 2;
    if (hc_arg("space", 1)) {
        shmemx_space_config_t c;
        memset(&c, 0, sizeof c);
        c.sheap_size = total + 65536;
        c.num_contexts = 2;
        c.memkind = SHMEMX_MEM_HOST;
        shmemx_space_create(c, &sp);
        shmemx_space_attach(sp);
        mem[2] = (char *) shmemx_space_align(sp, 64, total);
        for (int i = 0; i < 2; i++)
            if (shmemx_space_create_ctx(sp, 0, &cx[ncx]) == 0)
                ncx++;
        nreg = 3;
    }
    int z2 = (hc_np + 1) / 2;
    shmem_team_t half = SHMEM_TEAM_INVALID;
    shmem_team_split_strided(SHMEM_TEAM_WORLD, 0, 2, z2, NULL, 0, &half);
    grp_t *G = (grp_t *) malloc(sizeof(grp_t) * (size_t) hc_np);
    for (int k = 0; k < rounds; k++) {
        for (int p = 0; p < hc_np; p++) {
            rng_t r = rng_of(131 + (uint64_t) k, (uint64_t) p);
            pick(&G[p], &r, p);
            if (G[p].t == hc_me)
                for (int i = 0; i < K; i++)
                    base_content(&G[p], twin(G[p].reg, p, i));
        }
        shmem_barrier_all();
        rng_t own = rng_of(5000 + (uint64_t) k, (uint64_t) hc_me);
        issue(&G[hc_me], &own);
        hc_barrier_poll();      /* everybody's operations are complete, by the library's word */
        for (int p = 0; p < hc_np; p++)
            if (G[p].t == hc_me)
                compare(&G[p], p);
        hc_tick("group");
        hc_barrier_poll();
        if (!hc_nogeneric) {
            int w = (int) rndn(&g, 2);
            rng_t c = g;
            colls(&c, w ? half : SHMEM_TEAM_WORLD, 0, w ? 2 : 1, w ? z2 : hc_np);
            rnd(&g);
            shmem_barrier_all();
            for (int i = 0; i < 6; i++)
                p2p(&own);
            /* synchronisation by both meanings of the name */
            int how = (int) rndn(&g, 2);
            if (rndn(&own, 4) == 0)
                hc_jitter(&own);
            __atomic_fetch_add(&arr[k], 1, __ATOMIC_SEQ_CST);
            hc_form_last = -1;
            if (how)
                gsync_team(SHMEM_TEAM_WORLD);
            else
                gsync_set(0, 0, hc_np, PS[1]);
            if (__atomic_load_n(&arr[k], __ATOMIC_SEQ_CST) != hc_np)
                FAIL("forms-sync", "PE %d: generic shmem_sync on %s does not wait for every PE", hc_me, how ? "a team" : "an active set");
            STAT("syncs", 1);
            hc_tick("round");
        }
    }
    if (half != SHMEM_TEAM_INVALID)
        shmem_team_destroy(half);
    for (int i = 0; i < ncx; i++)
        shmem_ctx_destroy(cx[i]);
    shmem_barrier_all();
    if (nreg == 3) {
        shmem_free(mem[2]);
        shmemx_space_detach(sp);
        shmemx_space_destroy(sp);
    }
    shmem_free(mem[0]);
    hc_detach();
    shmem_finalize();
}
