/* Memory spaces and their contexts (P15): random life cycles against a model of every space. */
#include "hc.h"
#define NSP 24
#define NBL 10
#define NCX 12
static int nsp = 5, ncx = 4;       /* how many of them are used */
typedef struct { int live; char *p; size_t n; unsigned char *m[2]; } blk_t;      /* models: mine, right neighbour's */
typedef struct {
    int live, att, nctx, gen;
    size_t size;
    shmemx_space_t h;
    char *base;
    blk_t b[NBL];
    shmem_ctx_t ctx[NCX];
    int cused[NCX];
} sp_t;
static sp_t S[NSP];
static sp_t H;                  /* the main heap seen as one space */
static int right, left;
static long cnt, issued;
static struct { volatile long entered[16]; } *sh;
static long opno;

static void traffic(rng_t * r)
{
    int n = (int) rndn(r, 3);
    for (int i = 0; i < n; i++) {
        if (rndn(r, 2))
            shmem_long_atomic_fetch_add(&cnt, 1, (int) rndn(r, (uint64_t) hc_np));
        else
            shmem_long_atomic_add(&cnt, 1, (int) rndn(r, (uint64_t) hc_np));
        issued++;
    }
    if (rndn(r, 3) == 0)
        hc_jitter(r);
}
static void enter(void)
{
    opno++;
    __atomic_store_n(&sh->entered[hc_me], opno, __ATOMIC_SEQ_CST);
}
static void came(const char *what)
{
    for (int i = 0; i < hc_np; i++)
        if (__atomic_load_n(&sh->entered[i], __ATOMIC_SEQ_CST) < opno)
            FAIL("space-sync", "PE %d: %s returned before PE %d had called it", hc_me, what, i);
}
static int picksp(rng_t * g, int att)
{
    int c[NSP], n = 0;
    for (int i = 0; i < NSP; i++)
        if (S[i].live && (att < 0 || S[i].att == att))
            c[n++] = i;
    return n ? c[rndn(g, (uint64_t) n)] : -1;
}
static int pickb(rng_t * g, const sp_t * s)
{
    int c[NBL], n = 0;
    for (int i = 0; i < NBL; i++)
        if (s->b[i].live)
            c[n++] = i;
    return n ? c[rndn(g, (uint64_t) n)] : -1;
}
static void verify(const sp_t * s, const char *when)
{
    for (int i = 0; i < NBL; i++)
        if (s->b[i].live) {
            long d = hc_diff(s->b[i].p, s->b[i].m[0], s->b[i].n);
            STAT("blocks_verified", 1);
            if (d >= 0)
                FAIL("space-content", "PE %d: block of %zu bytes at %ld of %s %d: byte %ld is %02x, expected %02x, %s", hc_me, s->b[i].n,
                     (long) (s->b[i].p - s->base), s == &H ? "the heap" : "space", s == &H ? 0 : (int) (s - S), d,
                     (unsigned char) s->b[i].p[d], s->b[i].m[0][d], when);
        }
}
/* one update or read of the right neighbour's block; the shared stream decides, so everyone can follow */
typedef struct { int kind; size_t o, n; uint64_t seed; long st; } up_t;
static void data(unsigned char *d, const up_t * u, int t, size_t n) { hc_fill(d, n, hc_mix(u->seed * 16 + (uint64_t) t)); }
static void model(unsigned char *m, const up_t * u, int t)
{
    unsigned char d[4096 + 16];
    long v, w;
    data(d, u, t, sizeof d);
    switch (u->kind) {
        case 0: case 1: case 2:
            memcpy(m + u->o, d, u->n);
            break;
        case 3:
            for (size_t i = 0; i < u->n; i++)
                memcpy(m + u->o + i * (size_t) u->st * 4, d + 4 * i, 4);
            break;
        case 4: case 5:
            memcpy(&v, m + u->o, 8);
            memcpy(&w, d, 8);
            v = (long) ((unsigned long) v + (unsigned long) w);
            memcpy(m + u->o, &v, 8);
            break;
        case 6: case 7:
            memcpy(m + u->o, d, 8);
            break;
    }
}
static unsigned char *loc[16];
static int nloc;
/* data stays valid until completion */
static unsigned char *scratch(void) { return loc[nloc++ & 15]; }
static void update(sp_t * s, blk_t * b, const up_t * u, shmem_ctx_t c, int dflt)
{
    unsigned char *d = scratch();
    char *p = b->p + u->o;
    long w, old, was;
    data(d, u, right, 4096 + 16);
    switch (u->kind) {
        case 0:
            if (dflt) shmem_putmem(p, d, u->n, right);
            else shmem_ctx_putmem(c, p, d, u->n, right);
            break;
        case 1:
            if (dflt) shmem_putmem_nbi(p, d, u->n, right);
            else shmem_ctx_putmem_nbi(c, p, d, u->n, right);
            break;
        case 2:
            for (size_t i = 0; i < u->n; i++)
                if (dflt) shmem_char_p(p + i, (char) d[i], right);
                else shmem_ctx_char_p(c, p + i, (char) d[i], right);
            break;
        case 3:
            if (dflt) shmem_int_iput((int *) p, (int *) d, u->st, 1, u->n, right);
            else shmem_ctx_int_iput(c, (int *) p, (int *) d, u->st, 1, u->n, right);
            break;
        case 4: case 5:
            memcpy(&w, d, 8);
            memcpy(&was, b->m[1] + u->o, 8);
            if (u->kind == 4) {
                if (dflt) shmem_long_atomic_add((long *) p, w, right);
                else shmem_ctx_long_atomic_add(c, (long *) p, w, right);
            } else {
                old = dflt ? shmem_long_atomic_fetch_add((long *) p, w, right) : shmem_ctx_long_atomic_fetch_add(c, (long *) p, w, right);
                if (old != was)
                    FAIL("space-fetch", "PE %d: fetch_add at %zu of a block of space %d on PE %d gives %lx, expected %lx", hc_me, u->o,
                         (int) (s - S), right, old, was);
            }
            break;
        case 6: case 7:
            memcpy(&w, d, 8);
            if (u->kind == 6) {
                if (dflt) shmem_long_atomic_set((long *) p, w, right);
                else shmem_ctx_long_atomic_set(c, (long *) p, w, right);
            } else {
                if (dflt) shmem_long_atomic_swap((long *) p, w, right);
                else shmem_ctx_long_atomic_swap(c, (long *) p, w, right);
            }
            break;
    }
    STAT("updates", 1);
}
static void pickup(rng_t * g, up_t * u, size_t n)
{
    u->kind = (int) rndn(g, 8);
    u->seed = rnd(g);
    u->st = 1 + (long) rndn(g, 4);
    size_t max = n < 4096 ? n : 4096;
    if (u->kind >= 4 && n < 8)
        u->kind = 0;
    if (u->kind == 3 && n < 4)
        u->kind = 1;
    if (u->kind == 3) {
        size_t el = n / 4 / (size_t) u->st;
        u->n = 1 + rndn(g, el ? (el < 500 ? el : 500) : 1);
        if (!el)
            u->st = 1;
        size_t span = ((u->n - 1) * (size_t) u->st + 1) * 4;
        u->o = rndn(g, (n - span) / 4 + 1) * 4;
    } else if (u->kind >= 4) {
        u->n = 8;
        u->o = rndn(g, n / 8) * 8;
    } else {
        u->n = 1 + rndn(g, u->kind == 2 ? (max < 12 ? max : 12) : max);
        u->o = rndn(g, 3) == 0 ? n - u->n : rndn(g, n - u->n + 1);
    }
}
static int myctx(rng_t * r, const sp_t * s)
{
    int c[NCX], n = 0;
    for (int i = 0; i < NCX; i++)
        if (s->cused[i])
            c[n++] = i;
    return n ? c[rndn(r, (uint64_t) n)] : -1;
}
/* a batch of updates over any attached spaces and the heap, completed by context, then looked at at the target */
static void batch(rng_t * g, rng_t * r, long rd)
{
    int n = 1 + (int) rndn(g, 8);
    int cs[NSP][NCX], dq = 0;
    memset(cs, 0, sizeof cs);
    for (int k = 0; k < n; k++) {
        int i = picksp(g, 1);
        sp_t *s = i < 0 || rndn(g, 5) == 0 ? &H : &S[i];
        int bi = pickb(g, s);
        if (bi < 0)
            continue;
        blk_t *b = &s->b[bi];
        up_t u;
        pickup(g, &u, b->n);
        int c = s == &H ? -1 : myctx(r, s);
        if (c >= 0 && rndn(r, 3) == 0)
            c = -1;
        int dflt = c < 0;
        if (k) {
            /* updates of one block through different contexts are not ordered: finish the earlier ones first */
            for (int x = 0; x < NSP; x++)
                for (int y = 0; y < NCX; y++)
                    if (cs[x][y] && !(s == &S[x] && c == y)) {
                        shmem_ctx_quiet(S[x].ctx[y]);
                        cs[x][y] = 0;
                    }
            if (dq) {
                if (c >= 0 || rndn(r, 2)) {
                    shmem_quiet();
                    dq = 0;
                } else
                    shmem_fence();
            } else if (c >= 0)
                rndn(r, 2) ? shmem_ctx_fence(s->ctx[c]) : shmem_ctx_quiet(s->ctx[c]);
        }
        update(s, b, &u, c >= 0 ? s->ctx[c] : SHMEM_CTX_DEFAULT, dflt && rndn(r, 4));
        model(b->m[1], &u, right);
        model(b->m[0], &u, hc_me);
        if (c >= 0)
            cs[s - S][c] = 1;
        else
            dq = 1;
        COVER(2, s == &H, c, u.kind, dflt, s->gen, u.n > 64);
    }
    for (int x = 0; x < NSP; x++)
        for (int y = 0; y < NCX; y++)
            if (cs[x][y]) {
                if (rndn(r, 3) == 0) {
                    /* destroying the context completes its operations */
                    shmem_ctx_destroy(S[x].ctx[y]);
                    S[x].cused[y] = 0;
                    STAT("ctx_destroyed_pending", 1);
                } else
                    shmem_ctx_quiet(S[x].ctx[y]);
            }
    int all = (int) rndn(g, 3) == 0;
    if (all)
        shmem_barrier_all();
    else if (dq || rndn(r, 3) == 0)
        shmem_quiet();
    hc_barrier_poll();
    verify(&H, "after a batch");
    for (int i = 0; i < NSP; i++)
        if (S[i].live)
            verify(&S[i], "after a batch");
    hc_barrier_poll();
    /* and read back remotely */
    int i = picksp(g, 1);
    sp_t *s = i < 0 ? &H : &S[i];
    int bi = pickb(g, s);
    if (bi >= 0) {
        blk_t *b = &s->b[bi];
        unsigned char *t = malloc(b->n + 16);
        memset(t, 0xc3, b->n + 16);
        int c = s == &H ? -1 : myctx(r, s);
        if (c < 0)
            shmem_getmem(t, b->p, b->n, right);
        else if (rndn(r, 2))
            shmem_ctx_getmem(s->ctx[c], t, b->p, b->n, right);
        else {
            shmem_ctx_getmem_nbi(s->ctx[c], t, b->p, b->n, right);
            shmem_ctx_quiet(s->ctx[c]);
        }
        long d = hc_diff(t, b->m[1], b->n);
        if (d >= 0)
            FAIL("space-get", "PE %d round %ld: byte %ld of a block of %zu read from PE %d is %02x, expected %02x", hc_me, rd, d, b->n, right,
                 t[d], b->m[1][d]);
        free(t);
        STAT("reads", 1);
    }
    hc_barrier_poll();
}
static void add_block(sp_t * s, int k, char *p, size_t n)
{
    blk_t *b = &s->b[k];
    b->live = 1;
    b->p = p;
    b->n = n;
    b->m[0] = calloc(1, n);
    b->m[1] = calloc(1, n);
}
static void drop_block(blk_t * b)
{
    b->live = 0;
    free(b->m[0]);
    free(b->m[1]);
}
static int freeb(const sp_t * s)
{
    for (int i = 0; i < NBL; i++)
        if (!s->b[i].live)
            return i;
    return -1;
}
static void alloc(rng_t * g, rng_t * r, long rd)
{
    int i = picksp(g, -1);
    if (i < 0)
        return;
    sp_t *s = &S[i];
    int k = freeb(s), how = (int) rndn(g, 6);
    size_t n = 1 + rndn(g, rndn(g, 3) ? 3000 : s->size), al = 16, fits = 1;
    if (k < 0)
        return;
    if (rndn(g, 8) == 0) {
        static const size_t bigs[] = { 4097, 100000, (size_t) 1 << 31, (size_t) 1 << 43, (size_t) 1 << 44, (size_t) -1, (size_t) -5000 };
        n = s->size + bigs[rndn(g, 7)];
        if (n < s->size)
            n = (size_t) -1 - rndn(g, 4000);
        fits = 0;
    }
    char *p;
    const char *what = "shmemx_space_malloc";
    if (rndn(r, 2))
        traffic(r);
    enter();
    if (how < 2)
        p = shmemx_space_malloc(s->h, n);
    else if (how < 4) {
        size_t c = fits ? 1 + rndn(g, 6) : 1, e = n / c;
        what = "shmemx_space_calloc";
        if (!fits && rndn(g, 2)) {
            /* the product wraps to something small */
            int k = 1 + (int) rndn(g, 36);
            c = ((size_t) 1 << (64 - k)) + 1 + rndn(g, 3);
            e = (size_t) 1 << k;
            if (rndn(g, 2)) {
                size_t x = c;
                c = e;
                e = x;
            }
        }
        if (!e)
            e = 1;
        if (fits)
            n = c * e;
        p = shmemx_space_calloc(s->h, c, e);
    } else {
        what = "shmemx_space_align";
        al = (size_t) 8 << rndn(g, 10);
        p = shmemx_space_align(s->h, al, n);
    }
    came(what);
    long off = p ? (long) (p - s->base) : -1, mx, mn;
    int zeroed = how == 2 || how == 3;
    unsigned char *src = malloc(n < (1 << 20) ? n : 1);
    uint64_t sd = rnd(g);
    int early = s->att && rndn(g, 2);
    if (p && fits && early) {
        /* the neighbour's block is written without waiting for it */
        hc_fill(src, n, sd + (uint64_t) right);
        shmem_putmem(p, src, n, right);
    }
    hc_barrier_poll();
    mx = hc_max(off);
    mn = -hc_max(-off);
    STAT("allocations", 1);
    COVER(3, how, fits, p != NULL, al, n < 4096 ? 0 : 1, s->att, early);
    if (mx != mn)
        FAIL("space-symmetric", "PE %d round %ld: %s of %zu bytes from space %d gives offset %ld here and %ld..%ld elsewhere", hc_me, rd, what,
             n, i, off, mn, mx);
    if (p && !fits) {
        FAIL("space-too-big", "PE %d round %ld: %s of %zu bytes from space %d of %zu bytes gives offset %ld", hc_me, rd, what, n, i, s->size, off);
        free(src);
        return;
    }
    if (!p) {
        int any = 0;
        for (int j = 0; j < NBL; j++)
            any |= s->b[j].live;
        if (fits && !any && n <= s->size)
            FAIL("space-size", "PE %d round %ld: %s of %zu bytes from empty space %d of %zu bytes is refused", hc_me, rd, what, n, i, s->size);
        free(src);
        STAT("refused", 1);
        return;
    }
    if (off < 0 || (size_t) off + n > (s->size + 4095) / 4096 * 4096)
        FAIL("space-range", "PE %d round %ld: %s of %zu bytes from space %d of %zu bytes gives offset %ld", hc_me, rd, what, n, i, s->size, off);
    if ((uintptr_t) p % al)
        FAIL("space-align", "PE %d round %ld: %s of %zu bytes with alignment %zu gives %p", hc_me, rd, what, n, al, p);
    for (int j = 0; j < NBL; j++)
        if (s->b[j].live && p < s->b[j].p + s->b[j].n && s->b[j].p < p + n)
            FAIL("space-overlap", "PE %d round %ld: %s of %zu bytes from space %d at %ld overlaps the block at %ld", hc_me, rd, what, n, i, off,
                 (long) (s->b[j].p - s->base));
    add_block(s, k, p, n);
    blk_t *b = &s->b[k];
    if (early) {
        shmem_barrier_all();
        hc_fill(b->m[0], n, sd + (uint64_t) hc_me);
        hc_fill(b->m[1], n, sd + (uint64_t) right);
    } else if (!zeroed) {
        /* contents not specified: set them */
        hc_fill(b->m[0], n, sd + (uint64_t) hc_me);
        hc_fill(b->m[1], n, sd + (uint64_t) right);
        memcpy(p, b->m[0], n);
    }
    free(src);
    verify(s, zeroed && !early ? "after a zeroed allocation" : "after an allocation");
    hc_barrier_poll();
}
static void release(rng_t * r, sp_t * s, int k)
{
    verify(s, "before a release");
    hc_barrier_poll();
    traffic(r);
    enter();
    shmem_free(s->b[k].p);
    came("shmem_free");
    drop_block(&s->b[k]);
    STAT("releases", 1);
}
static void ctxs(rng_t * r, sp_t * s, int i)
{
    int k = (int) rndn(r, (uint64_t) ncx), used = 0;
    if (s->cused[k]) {
        shmem_ctx_destroy(s->ctx[k]);
        s->cused[k] = 0;
        return;
    }
    for (int j = 0; j < NCX; j++)
        used += s->cused[j];
    shmem_ctx_t c = SHMEM_CTX_INVALID;
    int rc = shmemx_space_create_ctx(s->h, 0, &c);
    STAT("ctx_requests", 1);
    if (used >= s->nctx) {
        if (rc == 0)
            FAIL("space-ctx-extra", "PE %d: space %d with %d contexts gives context number %d", hc_me, i, s->nctx, used + 1);
        return;
    }
    if (rc) {
        FAIL("space-ctx-refused", "PE %d: space %d with %d contexts, %d in use, refuses a context (%d)", hc_me, i, s->nctx, used, rc);
        return;
    }
    for (int j = 0; j < NCX; j++)
        if (s->cused[j] && s->ctx[j] == c)
            FAIL("space-ctx-twice", "PE %d: space %d gives a context that is in use", hc_me, i);
    s->ctx[k] = c;
    s->cused[k] = 1;
}
static void drop_ctxs(sp_t * s)
{
    for (int j = 0; j < NCX; j++)
        if (s->cused[j]) {
            shmem_ctx_destroy(s->ctx[j]);
            s->cused[j] = 0;
        }
}
static void attach(rng_t * r, sp_t * s)
{
    traffic(r);
    shmemx_space_attach(s->h);
    s->att = 1;
    STAT("attaches", 1);
    verify(s, "after attaching");
    hc_barrier_poll();
}
static void detach(rng_t * r, sp_t * s)
{
    drop_ctxs(s);
    shmem_barrier_all();
    traffic(r);
    shmemx_space_detach(s->h);
    s->att = 0;
    STAT("detaches", 1);
    verify(s, "after detaching");
    hc_barrier_poll();
}
static void destroy(rng_t * r, sp_t * s)
{
    for (int k = 0; k < NBL; k++)
        if (s->b[k].live)
            release(r, s, k);
    shmemx_space_destroy(s->h);
    s->live = 0;
    STAT("destroys", 1);
}
SCENARIO(space)
{
    int rounds = (int) hc_arg("rounds", 100), keep = (int) hc_arg("keep", 0);
    nsp = (int) hc_arg("nsp", 5);
    ncx = (int) hc_arg("ncx", 4);
    sh = hc_shared(sizeof *sh);
    shmem_init();
    hc_attach();
    rng_t g = rng_of(1, 0), r = rng_of(2, (uint64_t) hc_me);
    right = (hc_me + 1) % hc_np;
    left = (hc_me + hc_np - 1) % hc_np;
    for (int i = 0; i < 16; i++)
        loc[i] = malloc(4096 + 16);
    H.live = H.att = 1;
    for (int k = 0; k < 3; k++) {
        size_t n = 500 + 3000 * (size_t) k;
        char *p = shmem_calloc(1, n);
        H.base = H.base ? H.base : p;
        add_block(&H, k, p, n);
    }
    int gen = 0;
    for (long rd = 0; rd < rounds; rd++) {
        int act = (int) rndn(&g, 20), i;
        if (nsp > 5 && act >= 12 && rd < 3 * nsp && rndn(&g, 2))
            act = act & 1 ? 0 : 2;      /* many spaces soon */
        hc_where("space round", rd, act, 0);
        switch (act) {
            case 0: case 1:
                for (i = 0; i < nsp && S[i].live; i++);
                if (i < nsp) {
                    shmemx_space_config_t cf;
                    memset(&cf, 0, sizeof cf);
                    cf.sheap_size = (size_t) (1 + rndn(&g, nsp > 5 ? 30000 : rndn(&g, 2) ? 300000 : 20000));
                    cf.num_contexts = (int) rndn(&g, (uint64_t) ncx);
                    cf.memkind = SHMEMX_MEM_HOST;
                    cf.hints = (long) rndn(&g, 4);
                    memset(&S[i], 0, sizeof S[i]);
                    S[i].size = (size_t) cf.sheap_size;
                    S[i].nctx = (int) cf.num_contexts;
                    shmemx_space_create(cf, &S[i].h);
                    S[i].live = 1;
                    for (int j = 0, n = 0; j < NSP; j++)
                        if (S[j].live && ++n)
                            COVER(15, 90, n);
                    S[i].gen = ++gen > 12 ? 12 : gen;
                    for (int j = 0; j < NSP; j++)
                        if (j != i && S[j].live && S[j].h == S[i].h)
                            FAIL("space-handle", "PE %d round %ld: a new space has the handle of a live one", hc_me, rd);
                    /* the whole size is there; its place is the base */
                    char *p = shmemx_space_malloc(S[i].h, S[i].size);
                    if (!p) {
                        FAIL("space-size", "PE %d round %ld: a new space of %zu bytes cannot give them", hc_me, rd, S[i].size);
                        break;
                    }
                    memset(p, 0x99, S[i].size);
                    S[i].base = p;
                    shmem_free(p);
                    STAT("creates", 1);
                }
                break;
            case 2: case 3:
                if ((i = picksp(&g, 0)) >= 0)
                    attach(&r, &S[i]);
                break;
            case 4:
                if ((i = picksp(&g, 1)) >= 0)
                    detach(&r, &S[i]);
                break;
            case 5:
                if ((i = picksp(&g, 0)) >= 0 && rndn(&g, 2))
                    destroy(&r, &S[i]);
                break;
            case 6: case 7: case 8: case 9:
                alloc(&g, &r, rd);
                break;
            case 10:
                if ((i = picksp(&g, -1)) >= 0) {
                    int k = pickb(&g, &S[i]);
                    if (k >= 0)
                        release(&r, &S[i], k);
                }
                break;
            case 11: case 12:
                for (i = 0; i < NSP; i++)
                    if (S[i].live && S[i].att)
                        for (int x = 0; x < 2; x++)
                            ctxs(&r, &S[i], i);
                break;
            case 13:
                switch (rndn(&r, 3)) {
                    case 0: shmem_quiet(); break;
                    case 1: shmem_fence(); break;
                }
                break;
            default:
                batch(&g, &r, rd);
        }
        hc_tick("space");
    }
    shmem_barrier_all();
    hc_barrier_poll();
    if (!keep)
        for (int i = 0; i < NSP; i++)
            if (S[i].live) {
                if (S[i].att)
                    detach(&r, &S[i]);
                destroy(&r, &S[i]);
            }
    shmem_barrier_all();
    hc_barrier_poll();
    verify(&H, "at the end");
    long v = shmem_long_atomic_fetch(&cnt, hc_me), tot = hc_sum(issued), have = hc_sum(v);
    if (tot != have)
        FAIL("space-traffic", "PE %d: %ld atomic increments issued, %ld counted", hc_me, tot, have);
    hc_detach();
    shmem_finalize();
    hc_done();
}
