/* Teams (P13): random trees of splits, every query on every member against a set model, use after each change. */
#include "hc.h"
#define MAXPE 16
#define MAXT 24
typedef struct { int live, fixed, n, pes[MAXPE], rank, depth, nctx; shmem_team_t h; } tm_t;
static tm_t T[MAXT];
static long cnt;
static int src[4], dst[MAXPE * 4];
static long issued;

static int idx(const tm_t * t, int pe)
{
    for (int i = 0; i < t->n; i++)
        if (t->pes[i] == pe)
            return i;
    return -1;
}
static const char *str(const tm_t * t)
{
    static char b[4][128];
    static int k;
    char *p = b[k++ & 3];
    int n = 0;
    p[0] = 0;
    for (int i = 0; i < t->n; i++)
        n += snprintf(p + n, 120 - (size_t) n, "%s%d", i ? "," : "", t->pes[i]);
    return p;
}
static int slot_free(void)
{
    for (int i = 0; i < MAXT; i++)
        if (!T[i].live)
            return i;
    return -1;
}
static int pick_live(rng_t * g, int dyn)
{
    int c[MAXT], n = 0;
    for (int i = 0; i < MAXT; i++)
        if (T[i].live && (!dyn || !T[i].fixed))
            c[n++] = i;
    return n ? c[rndn(g, (uint64_t) n)] : -1;
}
static void traffic(rng_t * r)
{
    int n = (int) rndn(r, 3);
    for (int i = 0; i < n; i++) {
        if (rndn(r, 2))
            shmem_long_atomic_fetch_add(&cnt, 1, (int) rndn(r, (uint64_t) hc_np));
        else
            shmem_long_atomic_add(&cnt, 1, (int) rndn(r, (uint64_t) hc_np));
        issued++;
    }
    hc_jitter(r);
}
static void check_cfg(const tm_t * t, long rd)
{
    shmem_team_config_t c;
    memset(&c, 0x5a, sizeof c);
    int rc = shmem_team_get_config(t->h, SHMEM_TEAM_NUM_CONTEXTS, &c);
    if (rc != 0)
        FAIL("team-config", "PE %d round %ld: get_config of team {%s} returns %d", hc_me, rd, str(t), rc);
    else if (!t->fixed && c.num_contexts != t->nctx)
        FAIL("team-config", "PE %d round %ld: team {%s} created with num_contexts %d reports %d", hc_me, rd, str(t), t->nctx,
             (int) c.num_contexts);
    STAT("queries", 1);
}
static void check_team(const tm_t * t, long rd)
{
    if (t->rank < 0)
        return;
    int p = shmem_team_my_pe(t->h), n = shmem_team_n_pes(t->h);
    STAT("queries", 2);
    if (p != t->rank || n != t->n)
        FAIL("team-rank", "PE %d round %ld: team {%s} reports PE %d of %d, expected %d of %d", hc_me, rd, str(t), p, n, t->rank, t->n);
    check_cfg(t, rd);
}
static void check_pair(const tm_t * a, const tm_t * b, long rd)
{
    if (a->rank < 0 || b->rank < 0)
        return;
    for (int i = 0; i < a->n; i++) {
        int want = idx(b, a->pes[i]), got = shmem_team_translate_pe(a->h, i, b->h);
        STAT("queries", 1);
        if (got != want)
            FAIL("team-translate", "PE %d round %ld: PE %d of team {%s} is %d in team {%s}, translate says %d", hc_me, rd, i, str(a),
                 want, str(b), got);
        if (got >= 0 && got < b->n) {
            int back = shmem_team_translate_pe(b->h, got, a->h);
            STAT("queries", 1);
            if (back != i)
                FAIL("team-translate-back", "PE %d round %ld: PE %d of {%s} translates to %d of {%s} and back to %d", hc_me, rd, i,
                     str(a), got, str(b), back);
        }
    }
    COVER(1, a->n, b->n, a->pes[0], b->pes[0], a->rank, b->rank);
}
static void check_invalid(long rd)
{
    shmem_team_t inv = SHMEM_TEAM_INVALID;
    shmem_team_config_t c;
    memset(&c, 0x5a, sizeof c);
    shmem_team_config_t c0 = c;
    if (shmem_team_my_pe(inv) != -1 || shmem_team_n_pes(inv) != -1)
        FAIL("team-invalid", "PE %d: the invalid team has PE %d of %d", hc_me, shmem_team_my_pe(inv), shmem_team_n_pes(inv));
    if (shmem_team_translate_pe(inv, 0, SHMEM_TEAM_WORLD) != -1 || shmem_team_translate_pe(SHMEM_TEAM_WORLD, 0, inv) != -1)
        FAIL("team-invalid", "PE %d: translation from or to the invalid team gives a PE", hc_me);
    if (shmem_team_get_config(inv, SHMEM_TEAM_NUM_CONTEXTS, &c) == 0 || memcmp(&c, &c0, sizeof c))
        FAIL("team-invalid", "PE %d: get_config of the invalid team succeeds or writes", hc_me);
    shmem_team_destroy(inv);
    STAT("queries", 6);
    (void) rd;
}
/* the team works as a team: sync and a collect that shows the numbering */
static void use(tm_t * t, rng_t * r, long rd)
{
    if (t->rank < 0)
        return;
    src[0] = hc_me * 1000 + (int) rd;
    memset(dst, 0xee, sizeof dst);
    traffic(r);
    int rc = shmem_team_sync(t->h);
    if (rc)
        FAIL("team-sync", "PE %d round %ld: sync of team {%s} returns %d", hc_me, rd, str(t), rc);
    rc = shmem_int_fcollect(t->h, dst, src, 1);
    if (rc)
        FAIL("team-collect", "PE %d round %ld: fcollect on team {%s} returns %d", hc_me, rd, str(t), rc);
    for (int i = 0; i < MAXPE; i++) {
        int want = i < t->n ? t->pes[i] * 1000 + (int) rd : (int) 0xeeeeeeee;
        if (dst[i] != want)
            FAIL("team-collect", "PE %d round %ld: fcollect on team {%s} puts %d at %d, expected %d", hc_me, rd, str(t), dst[i], i, want);
    }
    shmem_team_sync(t->h);
    STAT("uses", 1);
}
static void got(tm_t * t, shmem_team_t h, int rc, const char *what, long rd)
{
    t->h = h;
    if (rc != 0)
        FAIL("team-split", "PE %d round %ld: %s returns %d", hc_me, rd, what, rc);
    if ((t->rank >= 0) != (h != SHMEM_TEAM_INVALID))
        FAIL("team-members", "PE %d round %ld: %s for team {%s} gives a%s", hc_me, rd, what, str(t),
             h == SHMEM_TEAM_INVALID ? "n invalid team to a member" : " team to a non-member");
    for (int i = 0; i < MAXT; i++)
        if (&T[i] != t && T[i].live && T[i].rank >= 0 && T[i].h == h && h != SHMEM_TEAM_INVALID)
            FAIL("team-handle", "PE %d round %ld: %s gives the handle of live team {%s}", hc_me, rd, what, str(&T[i]));
}
static tm_t *add(const int *pes, int n, int depth, int nctx)
{
    tm_t *t = &T[slot_free()];
    memset(t, 0, sizeof *t);
    t->live = 1;
    t->n = n;
    memcpy(t->pes, pes, (size_t) n * sizeof(int));
    t->rank = idx(t, hc_me);
    t->depth = depth;
    t->nctx = nctx;
    return t;
}
static int nlive(void)
{
    int n = 0;
    for (int i = 0; i < MAXT; i++)
        n += T[i].live;
    return n;
}
#define POISON ((shmem_team_t) (uintptr_t) 0xdeadbeef)
SCENARIO(team)
{
    int rounds = (int) hc_arg("rounds", 60), keep = (int) hc_arg("keep", 0);
    shmem_init();
    hc_attach();
    rng_t g = rng_of(1, 0), r = rng_of(2, (uint64_t) hc_me);
    int all[MAXPE];
    for (int i = 0; i < hc_np; i++)
        all[i] = i;
    tm_t *w = add(all, hc_np, 0, 0);
    w->fixed = 1;
    w->h = SHMEM_TEAM_WORLD;
    /* the team of those who share memory: one for each (simulated) node */
    for (int k = 0; k < hc_nodes; k++) {
        int on[MAXPE], n = 0;
        for (int i = 0; i < hc_np; i++)
            if (hc_node(i) == k)
                on[n++] = i;
        if (!n)
            continue;
        tm_t *s = add(on, n, 0, 0);
        s->fixed = 1;
        s->h = hc_node(hc_me) == k ? SHMEM_TEAM_SHARED : SHMEM_TEAM_INVALID;
    }
    shmem_barrier_all();
    for (long rd = 0; rd < rounds; rd++) {
        hc_where("team round", rd, 0, 0);
        int act = (int) rndn(&g, 12), full = nlive() > MAXT - 3;
        if (full)
            act = 9;
        int pi = pick_live(&g, 0);
        tm_t *P = &T[pi];
        shmem_team_config_t cf;
        memset(&cf, 0, sizeof cf);
        cf.num_contexts = (int) rndn(&g, 5);
        int withcf = (int) rndn(&g, 4);   /* 0: none, 1: given but masked out, else given */
        const shmem_team_config_t *cfp = withcf ? &cf : NULL;
        long mask = withcf > 1 ? SHMEM_TEAM_NUM_CONTEXTS : 0;
        int nctx = withcf > 1 ? (int) cf.num_contexts : 0;
        if (act < 5) {
            /* strided split of any live team, called by its members */
            int st = 1 + (int) rndn(&g, 4), start = (int) rndn(&g, (uint64_t) P->n), max = (P->n - 1 - start) / st + 1;
            int size = 1 + (int) rndn(&g, (uint64_t) max);
            if (rndn(&g, 3) == 0)
                size = max;
            if (size == 1 && rndn(&g, 3) == 0)
                st = (int) rndn(&g, 9);     /* any stride names the same single PE */
            int pes[MAXPE];
            for (int i = 0; i < size; i++)
                pes[i] = P->pes[start + i * st];
            tm_t *t = add(pes, size, P->depth + 1, nctx);
            if (P->rank >= 0) {
                shmem_team_t h = POISON;
                traffic(&r);
                char what[96];
                snprintf(what, sizeof what, "split_strided(start %d, stride %d, size %d)", start, st, size);
                int rc = shmem_team_split_strided(P->h, start, st, size, cfp, mask, &h);
                got(t, h, rc, what, rd);
                STAT("splits", 1);
                COVER(2, P->n, P->depth, start, st, size, t->rank, nctx);
            } else
                t->h = SHMEM_TEAM_INVALID;
            check_team(t, rd);
            use(t, &r, rd);
        } else if (act < 7) {
            /* grid: the model knows every row and column, each PE holds its own two */
            int xr = 1 + (int) rndn(&g, (uint64_t) P->n + 2);
            int x = P->rank >= 0 ? P->rank % xr : -1, y = P->rank >= 0 ? P->rank / xr : -1;
            shmem_team_t hx = POISON, hy = POISON;
            int rows = (P->n + xr - 1) / xr, cols = xr < P->n ? xr : P->n;
            if (P->rank >= 0) {
                traffic(&r);
                int rc = shmem_team_split_2d(P->h, xr, cfp, mask, &hx, cfp, mask, &hy);
                if (rc)
                    FAIL("team-split", "PE %d round %ld: split_2d(%d) of {%s} returns %d", hc_me, rd, xr, str(P), rc);
                STAT("splits", 2);
                COVER(3, P->n, xr, P->rank, P->depth);
            }
            for (int k = 0; k < rows + cols; k++) {
                int pes[MAXPE], n = 0;
                for (int i = 0; i < P->n; i++)
                    if (k < rows ? i / xr == k : i % xr == k - rows)
                        pes[n++] = P->pes[i];
                if (nlive() > MAXT - 2) {
                    /* no room in the model: the members check and drop it at once */
                    tm_t t = { 1, 0, n, { 0 }, -1, P->depth + 1, nctx, SHMEM_TEAM_INVALID };
                    memcpy(t.pes, pes, sizeof pes);
                    t.rank = idx(&t, hc_me);
                    if (t.rank >= 0) {
                        t.h = k < rows ? hx : hy;
                        check_team(&t, rd);
                        check_pair(&t, P, rd);
                        use(&t, &r, rd);
                        shmem_team_destroy(t.h);
                    }
                    continue;
                }
                tm_t *t = add(pes, n, P->depth + 1, nctx);
                int mine = P->rank >= 0 && (k < rows ? y == k : x == k - rows);
                got(t, mine ? (k < rows ? hx : hy) : SHMEM_TEAM_INVALID, 0, k < rows ? "split_2d row" : "split_2d column", rd);
                check_team(t, rd);
                check_pair(t, P, rd);
                check_pair(P, t, rd);
                use(t, &r, rd);
            }
        } else if (act < 9) {
            /* requests that cannot be satisfied give the invalid team and an error everywhere, and disturb nothing */
            static const char *const bn[] = { "start below 0", "start beyond the team", "end beyond the team", "size 0",
                "negative size", "invalid parent" };
            int k = (int) rndn(&g, 6), st = 1 + (int) rndn(&g, 3), start = (int) rndn(&g, (uint64_t) P->n), size = 1;
            shmem_team_t par = P->h;
            if (k == 0)
                start = -1 - (int) rndn(&g, 3);
            else if (k == 1)
                start = P->n + (int) rndn(&g, 3);
            else if (k == 2)
                size = (P->n - 1 - start) / st + 2 + (int) rndn(&g, 2);
            else if (k == 3)
                size = 0;
            else if (k == 4)
                size = -1 - (int) rndn(&g, 3);
            else
                par = SHMEM_TEAM_INVALID;
            if (P->rank >= 0) {
                shmem_team_t h = POISON, h2 = POISON;
                int rc = shmem_team_split_strided(par, start, st, size, cfp, mask, &h);
                /* an empty request names no PE: everyone gets the invalid team, the return value is not specified */
                if ((rc == 0 && k != 3 && k != 4) || h != SHMEM_TEAM_INVALID)
                    FAIL("team-bad-split", "PE %d round %ld: split_strided of {%s} with %s (%d,%d,%d) returns %d and a team that is %s",
                         hc_me, rd, str(P), bn[k], start, st, size, rc, h == SHMEM_TEAM_INVALID ? "invalid" : "valid");
                if (k == 5) {
                    h = POISON;
                    rc = shmem_team_split_2d(par, 1, cfp, mask, &h, cfp, mask, &h2);
                    if (rc == 0 || h != SHMEM_TEAM_INVALID || h2 != SHMEM_TEAM_INVALID)
                        FAIL("team-bad-split", "PE %d round %ld: split_2d of the invalid team returns %d", hc_me, rd, rc);
                }
                STAT("splits", 1);
                COVER(4, k, P->n, start, st, size);
            }
        } else if (act < 11) {
            int k = pick_live(&g, 1);
            if (k >= 0) {
                tm_t *t = &T[k];
                if (t->rank >= 0) {
                    traffic(&r);
                    shmem_team_destroy(t->h);
                }
                t->live = 0;
                STAT("destroys", 1);
            }
            for (int i = 0; i < MAXT; i++)
                if (T[i].live)
                    use(&T[i], &r, rd);
        } else {
            check_invalid(rd);
            /* destroying the predefined teams is ignored */
            if (rndn(&g, 4) == 0)
                shmem_team_destroy(rndn(&g, 2) ? SHMEM_TEAM_WORLD : SHMEM_TEAM_SHARED);
        }
        /* queries: some teams and pairs, as this PE sees them */
        for (int k = 0; k < 6; k++) {
            tm_t *a = &T[pick_live(&r, 0)], *b = &T[pick_live(&r, 0)];
            check_team(a, rd);
            check_pair(a, b, rd);
        }
        hc_tick("team");
    }
    shmem_barrier_all();
    hc_barrier();
    for (int i = 0; i < MAXT; i++)
        if (T[i].live) {
            check_team(&T[i], rounds);
            use(&T[i], &r, rounds);
            for (int j = 0; j < MAXT; j++)
                if (T[j].live)
                    check_pair(&T[i], &T[j], rounds);
        }
    shmem_barrier_all();
    hc_barrier();
    long v = shmem_long_atomic_fetch(&cnt, hc_me), tot = hc_sum(issued), have = hc_sum(v);
    if (tot != have)
        FAIL("team-traffic", "PE %d: %ld atomic increments issued around the splits, %ld counted", hc_me, tot, have);
    if (!keep)
        for (int i = MAXT - 1; i >= 0; i--)
            if (T[i].live && !T[i].fixed && T[i].rank >= 0)
                shmem_team_destroy(T[i].h);
    hc_detach();
    shmem_finalize();
    hc_done();
}
