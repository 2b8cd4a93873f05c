#include "sops.h"
#define STATN (8192 * SLOT)
static char statmem[STATN] __attribute__((aligned(128)));
world_t W;
static char *spbase;

void world_open(int ns, int use_space, int nctx)
{
    memset(&W, 0, sizeof W);
    W.ns = ns;
    W.nreg = 2;
    W.mem[0] = (char *) shmem_align(128, (size_t) ns * SLOT);
    W.mem[1] = statmem;
    if ((long) ns * SLOT > STATN) {
        FAIL("harness", "static area too small");
        return;
    }
    if (use_space == 2)
        nctx = 0;               /* a space without contexts is reached through the default context only */
    if (use_space) {
        shmemx_space_config_t c;
        memset(&c, 0, sizeof c);
        c.sheap_size = (size_t) ns * SLOT + 65536;
        c.num_contexts = nctx;
        c.memkind = SHMEMX_MEM_HOST;
        shmemx_space_create(c, &W.space);
        shmemx_space_attach(W.space);
        char *p = spbase = (char *) shmemx_space_malloc(W.space, (size_t) ns * SLOT + SLOT);
        if (p)
            W.mem[2] = (char *) (((uintptr_t) p + 15) & ~(uintptr_t) 15);
        for (int i = 0; i < nctx && i < 4; i++)
            if (shmemx_space_create_ctx(W.space, 0, &W.ctxs[W.nctx]) == 0)
                W.nctx++;
        W.nreg = 3;
    }
    if (!W.mem[0] || (use_space && !W.mem[2])) {
        FAIL("alloc", "allocation failed");
        exit(0);
    }
    for (int t = 0; t < hc_np; t++)
        for (int r = 0; r < W.nreg; r++) {
            W.model[t][r] = (unsigned char *) malloc((size_t) ns * SLOT);
            hc_fill(W.model[t][r], (size_t) ns * SLOT, hc_mix(hc_seed + 11u * (uint64_t) t + (uint64_t) r));
        }
    for (int r = 0; r < W.nreg; r++)
        memcpy(W.mem[r], W.model[hc_me][r], (size_t) ns * SLOT);
    shmem_barrier_all();
    hc_barrier_poll();
}
void world_close(void)
{
    for (int t = 0; t < hc_np; t++)
        for (int r = 0; r < W.nreg; r++)
            free(W.model[t][r]);
    for (int i = 0; i < W.nctx; i++)
        shmem_ctx_destroy(W.ctxs[i]);
    if (W.nreg == 3) {
        shmem_free(spbase);
        shmemx_space_detach(W.space);
        shmemx_space_destroy(W.space);
    }
    shmem_free(W.mem[0]);
}
shmem_ctx_t sop_ctx(int ctx) { return ctx <= 0 ? SHMEM_CTX_DEFAULT : W.ctxs[ctx - 1]; }

static int kind_bit(const form_t * f)
{
    switch (f->k) {
        case F_PUT: case F_P: return S_PUT;
        case F_PUTNBI: return S_NBI;
        case F_IPUT: return S_IPUT;
        case F_GETNBI: return S_GETNBI;
        default: return 0;
    }
}
static int amo_bit(const amo_t * a)
{
    if (a->op == A_FETCH)
        return a->nbi ? S_GETNBI : 0;
    if (a->nbi)
        return S_AMONBI;
    return a->fetching ? S_FETCH : S_POST;
}
static void norm_value(const amo_t * a, sop_t * s, uint64_t z)
{
    amo_value(a, s->val, z);
}
void sop_pick(rng_t * g, sop_t * s, int mask, int org, int t, int reg, int slot, int ctx)
{
    memset(s, 0, sizeof *s);
    s->org = org;
    s->t = t;
    s->reg = reg;
    s->slot = slot;
    s->ctx = ctx;
    s->seed = rnd(g);
    int bit;
    do
        bit = 1 << rndn(g, 7);
    while (!(mask & bit));
    s->amo = (bit & (S_POST | S_FETCH | S_AMONBI)) ? 1 : (bit & S_GETNBI) ? (int) rndn(g, 2) : 0;
    while (1) {
        s->form = (int) rndn(g, (uint64_t) (s->amo ? namos : nforms));
        int b = s->amo ? amo_bit(&amos[s->form]) : kind_bit(&forms[s->form]);
        if (!s->amo && forms[s->form].k == F_P && forms[s->form].vs != forms[s->form].es)
            continue;           /* padding bytes */
        int needctx = s->amo ? amos[s->form].ctx : forms[s->form].ctx;
        if (b == bit && needctx == (ctx >= 0))
            break;
    }
    if (s->amo) {
        const amo_t *a = &amos[s->form];
        s->n = 1;
        s->off = (long) rndn(g, (uint64_t) (SLOT / a->es)) * a->es;
        norm_value(a, s, rnd(g));
        /* half of the compare-swaps match */
        if (rndn(g, 2))
            memcpy(s->cond, slot_model(t, reg, slot) + s->off, (size_t) a->es);
        else
            amo_value(a, s->cond, rnd(g));
    } else {
        const form_t *f = &forms[s->form];
        s->st = 1;
        long cap = SLOT / f->es;
        if (f->k == F_P)
            s->n = 1;
        else if (f->k == F_IPUT) {
            s->st = rndr(g, 1, cap > 4 ? 4 : cap);
            s->n = rndr(g, 1, (cap - 1) / s->st + 1);
        } else
            s->n = rndn(g, 3) ? rndr(g, 1, cap) : 1;
        long ext = (s->n - 1) * s->st + 1;
        s->off = (long) rndn(g, (uint64_t) (cap - ext + 1)) * f->es;
    }
}
int sop_has_result(const sop_t * s) { return s->amo ? amos[s->form].fetching : forms[s->form].k == F_GETNBI; }
int sop_reusable(const sop_t * s)
{
    if (s->amo)
        return !amos[s->form].nbi;
    fkind_t k = forms[s->form].k;
    return k == F_PUT || k == F_P || k == F_IPUT;
}
void sop_issue(sop_t * s, unsigned char *loc)
{
    shmem_ctx_t c = sop_ctx(s->ctx);
    char *rem = slot_at(s->reg, s->slot) + s->off;
    s->loc = loc;
    if (s->amo) {
        const amo_t *a = &amos[s->form];
        memset(loc, 0x77, SLOT);
        memcpy(s->want, slot_model(s->t, s->reg, s->slot) + s->off, (size_t) a->es);
        s->wantn = a->es;
        hc_where(a->name, s->t, s->reg, s->slot);
        a->fn(c, rem, s->val, s->cond, loc, s->t);
        return;
    }
    const form_t *f = &forms[s->form];
    hc_where(f->name, s->t, s->reg, s->slot);
    if (f->k == F_GETNBI) {
        memset(loc, 0x77, SLOT);
        memcpy(s->want, slot_model(s->t, s->reg, s->slot) + s->off, (size_t) (s->n * f->es));
        s->wantn = (int) (s->n * f->es);
        f->fn(c, loc, rem, 1, 1, (size_t) s->n, s->t);
    } else {
        for (long i = 0; i < s->n * f->es; i++)
            loc[i] = hc_byte(s->seed, (size_t) i);
        f->fn(c, rem, loc, s->st, 1, (size_t) s->n, s->t);
    }
}
void sop_spoil(sop_t * s) { memset(s->loc, 0xD7, SLOT); }
void sop_check_result(sop_t * s, const char *key)
{
    if (sop_has_result(s) && memcmp(s->loc, s->want, (size_t) s->wantn)) {
        long d = hc_diff(s->loc, s->want, (size_t) s->wantn);
        FAIL(key, "%s: result byte %ld is %02x, expected %02x", sop_str(s), d, s->loc[d], s->want[d]);
    }
}
void sop_model(sop_t * s)
{
    unsigned char *m = slot_model(s->t, s->reg, s->slot) + s->off;
    if (s->amo) {
        const amo_t *a = &amos[s->form];
        unsigned char nw[16];
        amo_apply(a, nw, m, s->val, s->cond);
        memcpy(m, nw, (size_t) a->es);
        return;
    }
    const form_t *f = &forms[s->form];
    if (f->k == F_GETNBI)
        return;
    for (long e = 0; e < s->n; e++)
        for (long b = 0; b < (f->k == F_P ? f->vs : f->es); b++)
            m[e * s->st * f->es + b] = hc_byte(s->seed, (size_t) (e * f->es + b));
}
const char *sop_str(const sop_t * s)
{
    static char b[4][160];
    static int k;
    char *p = b[k++ & 3];
    static const char *rn[] = { "heap", "static", "space" };
    snprintf(p, sizeof b[0], "%s PE %d -> PE %d %s slot %d+%ld n=%ld st=%ld ctx=%d",
             s->amo ? amos[s->form].name : forms[s->form].name, s->org, s->t, rn[s->reg], s->slot, s->off, s->n, s->st,
             s->ctx);
    return p;
}
