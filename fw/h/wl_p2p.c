/* Point-to-point synchronisation: wait_until, wait, test (P07). */
#include "sops.h"
#include "types.h"
typedef struct {
    const char *name;
    int es, sgn, dep;
    void (*wu) (void *iv, int cmp, const void *v);
    int (*ts) (void *iv, int cmp, const void *v);
    void (*wt) (void *iv, const void *v);
    int (*truth) (const void *x, int cmp, const void *v);
    void (*p) (void *d, const void *v, int pe);
    void (*g) (void *d, const void *s, int pe);
    void (*put) (void *d, const void *v, int pe);
    void (*nbi) (void *d, const void *v, int pe);
    void (*iput) (void *d, const void *v, int pe);
} pt_t;
#define WT_short shmem_short_wait
#define DEF(N, T) \
    static void wu_##N(void *i, int c, const void *v) { shmem_##N##_wait_until((T *) i, c, *(const T *) v); } \
    static int ts_##N(void *i, int c, const void *v) { return shmem_##N##_test((T *) i, c, *(const T *) v); } \
    static int tr_##N(const void *x, int c, const void *v) { \
        T a = *(const T *) x, b = *(const T *) v; \
        return c == SHMEM_CMP_EQ ? a == b : c == SHMEM_CMP_NE ? a != b : c == SHMEM_CMP_GT ? a > b : c == SHMEM_CMP_GE ? a >= b : \
            c == SHMEM_CMP_LT ? a < b : a <= b; }
P2P_TYPES(DEF)
#define DEF2(N, T) \
    static void p_##N(void *d, const void *v, int pe) { shmem_##N##_p((T *) d, *(const T *) v, pe); } \
    static void g_##N(void *d, const void *s, int pe) { *(T *) d = shmem_##N##_g((const T *) s, pe); } \
    static void put_##N(void *d, const void *v, int pe) { shmem_##N##_put((T *) d, (const T *) v, 1, pe); } \
    static void nbi_##N(void *d, const void *v, int pe) { shmem_##N##_put_nbi((T *) d, (const T *) v, 1, pe); } \
    static void ip_##N(void *d, const void *v, int pe) { shmem_##N##_iput((T *) d, (const T *) v, 3, 2, 1, pe); }
P2P_TYPES(DEF2)
static void wt_short(void *i, const void *v) { shmem_short_wait((short *) i, *(const short *) v); }
static void wt_int(void *i, const void *v) { shmem_int_wait((int *) i, *(const int *) v); }
static void wt_long(void *i, const void *v) { shmem_long_wait((long *) i, *(const long *) v); }
static void wt_longlong(void *i, const void *v) { shmem_longlong_wait((long long *) i, *(const long long *) v); }
#define ROW(N, T) { #N, (int) sizeof(T), (T) -1 < (T) 0, 0, wu_##N, ts_##N, NULL, tr_##N, p_##N, g_##N, put_##N, nbi_##N, ip_##N },
static pt_t pts[] = { P2P_TYPES(ROW) };
#define NPT ((int) (sizeof pts / sizeof pts[0]))
static const int cmps[] = { SHMEM_CMP_EQ, SHMEM_CMP_NE, SHMEM_CMP_GT, SHMEM_CMP_GE, SHMEM_CMP_LT, SHMEM_CMP_LE };
static const char *cname[] = { "EQ", "NE", "GT", "GE", "LT", "LE" };

static void edge(rng_t * g, int es, void *v)
{
    static const uint64_t e[] = { 0, 1, ~0ull, ~1ull, 2, 0x7fff, 0x8000, 0x8001, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0x80000001u,
        0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, 0x100000001ull
    };
    uint64_t x = rndn(g, 4) ? e[rndn(g, sizeof e / sizeof e[0])] : rnd(g);
    memcpy(v, &x, (size_t) es);
}
static uint64_t ldv(const void *p, int es)
{
    uint64_t x = 0;
    memcpy(&x, p, (size_t) es);
    return x;
}
/* an update that leaves v in the variable; cur is the value there now. Complete on return iff quiet was called. */
static int update(rng_t * g, const pt_t * p, char *iv, const void *cur, const void *v, int pe)
{
    static uint64_t keep[4096][4];
    static unsigned kk;
    uint64_t *b = keep[kk++ % 4096];
    memcpy(b, v, (size_t) p->es);
    int k = (int) rndn(g, 9);
    if (p->es >= 4 && k >= 4) {
        /* an atomic of a type with this width and signedness */
        const amo_t *a = NULL;
        for (int tries = 0; tries < 4000; tries++) {
            const amo_t *c = &amos[rndn(g, (uint64_t) namos)];
            if (c->ctx || c->es != p->es || c->nbi || c->tk == TK_F || (c->tk == TK_S) != p->sgn)
                continue;
            if (c->op == A_INC && ldv(v, p->es) != (ldv(cur, p->es) + 1))
                continue;
            if (c->op == A_ADD && p->sgn)
                continue;       /* may overflow */
            if (c->op == A_INC || c->op == A_SET || c->op == A_SWAP || c->op == A_CSWAP || c->op == A_ADD || c->op == A_XOR) {
                a = c;
                break;
            }
        }
        if (a) {
            unsigned char o[8], f[16];
            uint64_t x = ldv(v, p->es), c = ldv(cur, p->es);
            uint64_t y = a->op == A_ADD ? x - c : a->op == A_XOR ? x ^ c : x;
            memcpy(o, &y, 8);
            a->fn(SHMEM_CTX_DEFAULT, iv, o, cur, f, pe);
            return 10 + (int) a->op;
        }
    }
    switch (k & 3) {
        case 0: p->p(iv, b, pe); break;
        case 1: p->put(iv, b, pe); break;
        case 2: p->nbi(iv, b, pe); break;
        default: p->iput(iv, b, pe); break;
    }
    return k & 3;
}

SCENARIO(p2p)
{
    shmem_init();
    hc_attach();
    world_open(64, (int) hc_arg("space", 1), 0);
    long rounds = hc_arg("rounds", 40);
    for (int i = 0; i < NPT; i++) {
        if (!strcmp(pts[i].name, "short")) pts[i].wt = wt_short;
        if (!strcmp(pts[i].name, "int")) pts[i].wt = wt_int;
        if (!strcmp(pts[i].name, "long")) pts[i].wt = wt_long;
        if (!strcmp(pts[i].name, "longlong")) pts[i].wt = wt_longlong;
    }
    volatile uint64_t *shr = (volatile uint64_t *) hc_shared(4096);    /* [org]: when org began the satisfying update */
    for (long rd = 0; rd < rounds && !(rd % 8 == 0 && hc_max(hc_fails)); rd++) {
        /* 1. the truth table on one's own variable */
        rng_t l = rng_of(100, (uint64_t) (rd * 64 + hc_me));
        for (int i = 0; i < 40; i++) {
            const pt_t *p = &pts[rndn(&l, (uint64_t) NPT)];
            int c = (int) rndn(&l, 6), reg = (int) rndn(&l, (uint64_t) W.nreg);
            unsigned char x[8], v[8];
            edge(&l, p->es, x);
            if (rndn(&l, 3) == 0)
                memcpy(v, x, 8);
            else
                edge(&l, p->es, v);
            if (rndn(&l, 4) == 0) {
                memcpy(v, x, 8);
                v[rndn(&l, (uint64_t) p->es)] ^= (unsigned char) (1u << rndn(&l, 8));
            }
            long off = (long) rndn(&l, (uint64_t) (SLOT / p->es)) * p->es;
            char *iv = slot_at(reg, (int) rndn(&l, 8)) + off;
            unsigned char g0[8], before[SLOT], after[SLOT];
            char *cell = (char *) ((uintptr_t) iv - (uintptr_t) off);
            if (rndn(&l, 2))
                memcpy(iv, x, (size_t) p->es);
            else {
                p->p(iv, x, hc_me);
                shmem_quiet();
            }
            memcpy(before, cell, SLOT);
            int want = p->truth(x, cmps[c], v);
            hc_where("test", rd, i, c);
            int got = p->ts(iv, cmps[c], v);
            if (!!got != want)
                FAIL("test-truth", "shmem_%s_test(%llx %s %llx) returned %d", p->name, (unsigned long long) ldv(x, p->es), cname[c],
                     (unsigned long long) ldv(v, p->es), got);
            hc_where("wait on a condition that holds", rd, i, c);
            if (want) {
                if (p->wt && c == 1)
                    p->wt(iv, v);
                else
                    p->wu(iv, cmps[c], v);
            }
            memcpy(after, cell, SLOT);
            if (memcmp(before, after, SLOT))
                FAIL("wait-modifies", "shmem_%s_test/wait changed the memory around the variable", p->name);
            p->g(g0, iv, hc_me);
            if (memcmp(g0, x, (size_t) p->es))
                FAIL("wait-modifies", "shmem_%s: value %llx read back as %llx", p->name, (unsigned long long) ldv(x, p->es),
                     (unsigned long long) ldv(g0, p->es));
            STAT("conditions", 1);
            COVER(5, (long) (p - pts), c, want, reg, ldv(x, p->es) >> (8 * p->es - 1), ldv(v, p->es) >> (8 * p->es - 1),
                  ldv(x, p->es) == ldv(v, p->es));
        }
        /* 2. signals: every PE sends to one and waits for another, several times; the values are the same on both sides */
        rng_t g = rng_of(101, (uint64_t) rd);
        int shift = 1 + (int) rndn(&g, (uint64_t) (hc_np - 1));
        int onesided = (int) rndn(&g, 2);       /* only some PEs send; the rest just wait */
        hc_barrier_poll();
        shr[hc_me * 8] = 0;
        enum { ST = 5 };
        struct { int ty, c, reg, nbad, data, hold, test; long off; uint64_t v, seq[6], good; } plan[16][ST];
        for (int o = 0; o < hc_np; o++)
            for (int s = 0; s < ST; s++) {
                const pt_t *p = &pts[plan[o][s].ty = (int) rndn(&g, (uint64_t) NPT)];
                plan[o][s].reg = (int) rndn(&g, (uint64_t) W.nreg);
                plan[o][s].off = (long) rndn(&g, (uint64_t) (SLOT / p->es)) * p->es;
                plan[o][s].data = (int) rndn(&g, 3);    /* 0: none, 1: fence, 2: quiet */
                plan[o][s].test = (int) rndn(&g, 3);    /* 0: wait_until, 1: test loop, 2: wait */
                for (;;) {
                    int c = plan[o][s].c = (int) rndn(&g, 6), nb = 0;
                    uint64_t v = 0, x = 0;
                    edge(&g, p->es, &v);
                    plan[o][s].v = v;
                    /* initial and intermediate values do not satisfy, the last one does */
                    for (int tries = 0; tries < 60 && nb < 6; tries++) {
                        x = 0;
                        if (rndn(&g, 3) == 0 && nb)
                            x = plan[o][s].seq[nb - 1] + 1, x &= p->es == 8 ? ~0ull : (1ull << (8 * p->es)) - 1;
                        else
                            edge(&g, p->es, &x);
                        if (!p->truth(&x, cmps[c], &v) && (!nb || x != plan[o][s].seq[nb - 1]))
                            plan[o][s].seq[nb++] = x;
                    }
                    int ok = 0;
                    for (int tries = 0; tries < 60 && !ok; tries++) {
                        plan[o][s].good = 0;
                        edge(&g, p->es, &plan[o][s].good);
                        ok = p->truth(&plan[o][s].good, cmps[c], &v);
                    }
                    if (nb && ok) {
                        plan[o][s].nbad = 1 + (int) rndn(&g, (uint64_t) nb);
                        break;
                    }
                }
                if (plan[o][s].test == 2 && !(pts[plan[o][s].ty].wt && cmps[plan[o][s].c] == SHMEM_CMP_NE))
                    plan[o][s].test = 0;
            }
        int to = (hc_me + shift) % hc_np, from = (hc_me - shift + hc_np) % hc_np;
        /* the waiter owns slot 16+s for the variable, 32+s for data; set the first (bad) values */
        for (int s = 0; s < ST; s++)
            memcpy(slot_at(plan[from][s].reg, 16 + s) + plan[from][s].off, &plan[from][s].seq[0], (size_t) pts[plan[from][s].ty].es);
        for (int r = 0; r < W.nreg; r++)
            for (int s = 0; s < ST; s++)
                memset(slot_at(r, 32 + s), 0, SLOT);
        shmem_barrier_all();
        hc_barrier_poll();
        rng_t j = rng_of(102, (uint64_t) (rd * 64 + hc_me));
        /* in every cycle of senders and waiters someone sends first */
        int cyc = shift, rest = hc_np;
        while (rest) {
            int x = cyc % rest;
            cyc = rest;
            rest = x;
        }
        int sfirst = hc_me < cyc ? 0 : onesided ? 1 : (int) rndn(&j, 2);
        static unsigned char data[ST][SLOT];
        for (int half = 0; half < 2; half++) {
            int sending = (half == 0) == (sfirst == 0);
            for (int s = 0; s < ST; s++) {
                if (sending) {
                    const pt_t *p = &pts[plan[hc_me][s].ty];
                    char *iv = slot_at(plan[hc_me][s].reg, 16 + s) + plan[hc_me][s].off;
                    uint64_t cur = plan[hc_me][s].seq[0];
                    int dreg = (plan[hc_me][s].reg + s) % W.nreg;
                    for (int i = 1; i < plan[hc_me][s].nbad; i++) {
                        update(&j, p, iv, &cur, &plan[hc_me][s].seq[i], to);
                        cur = plan[hc_me][s].seq[i];
                        shmem_quiet();
                        if (rndn(&j, 3) == 0)
                            hc_jitter(&j);
                    }
                    hc_fill(data[s], SLOT, (uint64_t) (rd * 100 + s * 16 + hc_me));
                    if (plan[hc_me][s].data) {
                        switch (rndn(&j, 3)) {
                            case 0: shmem_putmem(slot_at(dreg, 32 + s), data[s], SLOT, to); break;
                            case 1: shmem_putmem_nbi(slot_at(dreg, 32 + s), data[s], SLOT, to); break;
                            default:
                                shmem_iput32(slot_at(dreg, 32 + s), data[s], 2, 2, SLOT / 8, to);
                                shmem_iput32(slot_at(dreg, 32 + s) + 4, data[s] + 4, 2, 2, SLOT / 8, to);
                        }
                        if (plan[hc_me][s].data == 1)
                            shmem_fence();
                        else
                            shmem_quiet();
                    }
                    if (rndn(&j, 4) == 0)
                        usleep((unsigned) rndn(&j, 3000));
                    else
                        hc_jitter(&j);
                    __atomic_store_n(&shr[hc_me * 8 + s], hc_now(), __ATOMIC_SEQ_CST);
                    int how = update(&j, p, iv, &cur, &plan[hc_me][s].good, to);
                    if (rndn(&j, 2))
                        shmem_quiet();
                    COVER(6, plan[hc_me][s].ty, plan[hc_me][s].c, plan[hc_me][s].reg, how, plan[hc_me][s].data,
                          plan[hc_me][s].test, plan[hc_me][s].nbad > 1);
                } else {
                    const pt_t *p = &pts[plan[from][s].ty];
                    int c = plan[from][s].c, dreg = (plan[from][s].reg + s) % W.nreg;
                    char *iv = slot_at(plan[from][s].reg, 16 + s) + plan[from][s].off;
                    hc_where("wait for a signal", rd, s, from);
                    long spins = 0;
                    if (plan[from][s].test == 0)
                        p->wu(iv, cmps[c], &plan[from][s].v);
                    else if (plan[from][s].test == 2)
                        p->wt(iv, &plan[from][s].v);
                    else
                        while (!p->ts(iv, cmps[c], &plan[from][s].v))
                            if (++spins > 50)
                                sched_yield();
                    uint64_t e = hc_now(), b = __atomic_load_n(&shr[from * 8 + s], __ATOMIC_SEQ_CST);
                    if (!b || e < b)
                        FAIL("wait-early", "shmem_%s wait on PE %d (%s %llx) returned before PE %d made the condition hold: value now "
                             "%llx", p->name, hc_me, cname[c], (unsigned long long) plan[from][s].v, from,
                             (unsigned long long) ldv(iv, p->es));
                    if (memcmp(iv, &plan[from][s].good, (size_t) p->es))
                        FAIL("wait-value", "shmem_%s wait (%s %llx) returned with the variable at %llx, the signal is %llx", p->name,
                             cname[c], (unsigned long long) plan[from][s].v, (unsigned long long) ldv(iv, p->es),
                             (unsigned long long) plan[from][s].good);
                    if (plan[from][s].data) {
                        unsigned char w[SLOT];
                        hc_fill(w, SLOT, (uint64_t) (rd * 100 + s * 16 + from));
                        long d = hc_diff(slot_at(dreg, 32 + s), w, SLOT);
                        if (d >= 0)
                            FAIL("wait-data", "data byte %ld put and %s before the signal is not visible after the wait", d,
                                 plan[from][s].data == 1 ? "fenced" : "quieted");
                        STAT("data_checks", 1);
                    }
                    STAT("waits", 1);
                }
            }
            if (sending) {
                shmem_quiet();
            }
        }
        hc_barrier_poll();
        /* 3. nothing pending: a test must see the value at once */
        for (int s = 0; s < ST; s++) {
            const pt_t *p = &pts[plan[from][s].ty];
            char *iv = slot_at(plan[from][s].reg, 16 + s) + plan[from][s].off;
            for (int c = 0; c < 6; c++) {
                int w = p->truth(&plan[from][s].good, cmps[c], &plan[from][s].v);
                if (!!p->ts(iv, cmps[c], &plan[from][s].v) != w)
                    FAIL("test-stale", "shmem_%s_test (%llx %s %llx) gives the wrong answer after the update completed", p->name,
                         (unsigned long long) plan[from][s].good, cname[c], (unsigned long long) plan[from][s].v);
            }
        }
        hc_barrier_poll();
        hc_tick("round");
    }
    hc_barrier_poll();
    world_close();
    hc_detach();
    shmem_finalize();
}
