/* Collectives: team data movement (P10), reductions (P11), active-set data movement (P12). */
#include "sops.h"
#include "types.h"

typedef struct { int start, lg, size; shmem_team_t team; int isteam, member, rank, n, pes[MAXPE]; } set_t;
#define MAXSET 12
static set_t sets[MAXSET];
static int nsets, nfixed;

/* teams: world, shared, random strided ones and a grid; active sets: random triplets. Same on all PEs. */
static void add_set(int start, int stride, int size, int lg, shmem_team_t team, int isteam)
{
    set_t *s = &sets[nsets++];
    memset(s, 0, sizeof *s);
    s->start = start;
    s->lg = lg;
    s->size = s->n = size;
    s->team = team;
    s->isteam = isteam;
    s->rank = -1;
    for (int i = 0; i < size; i++)
        if ((s->pes[i] = start + i * stride) == hc_me)
            s->rank = i;
    s->member = s->rank >= 0;
}
static void make_teams(rng_t * g)
{
    nsets = 0;
    add_set(0, 1, hc_np, 0, SHMEM_TEAM_WORLD, 1);
    for (int k = 0; k < hc_nodes; k++) {
        /* one shared team per node */
        set_t *s = &sets[nsets++];
        memset(s, 0, sizeof *s);
        s->isteam = 1;
        s->rank = -1;
        for (int i = 0; i < hc_np; i++)
            if (hc_node(i) == k) {
                if (i == hc_me)
                    s->rank = s->n;
                s->pes[s->n++] = i;
            }
        if (!s->n) {
            nsets--;
            continue;
        }
        s->size = s->n;
        s->start = s->pes[0];
        s->member = s->rank >= 0;
        s->team = s->member ? SHMEM_TEAM_SHARED : SHMEM_TEAM_INVALID;
    }
    nfixed = nsets;
    int n = 1 + (int) rndn(g, 3);
    for (int i = 0; i < n; i++) {
        int st = 1 + (int) rndn(g, 3), start = (int) rndn(g, (uint64_t) hc_np), max = (hc_np - 1 - start) / st + 1;
        int size = 1 + (int) rndn(g, (uint64_t) max);
        shmem_team_t t = SHMEM_TEAM_INVALID;
        shmem_team_split_strided(SHMEM_TEAM_WORLD, start, st, size, NULL, 0, &t);
        add_set(start, st, size, 0, t, 1);
        if (sets[nsets - 1].member != (t != SHMEM_TEAM_INVALID))
            FAIL("team-members", "PE %d: split_strided(%d,%d,%d) gives a %s team", hc_me, start, st, size,
                 t == SHMEM_TEAM_INVALID ? "n invalid" : " valid");
    }
}
static void drop_teams(void)
{
    for (int i = nfixed; i < nsets; i++)
        if (sets[i].member && sets[i].team != SHMEM_TEAM_INVALID)
            shmem_team_destroy(sets[i].team);
    nsets = 0;
}
static void make_asets(rng_t * g)
{
    nsets = 0;
    add_set(0, 1, hc_np, 0, 0, 0);
    int n = 2 + (int) rndn(g, 5);
    for (int i = 0; i < n; i++) {
        int lg = (int) rndn(g, 3), start = (int) rndn(g, (uint64_t) hc_np), max = (hc_np - 1 - start) / (1 << lg) + 1;
        add_set(start, 1 << lg, 1 + (int) rndn(g, (uint64_t) max), lg, 0, 0);
    }
}

/* ---- data movement ---- */
enum { K_BCAST, K_COLLECT, K_FCOLLECT, K_A2A, K_A2AS };
typedef struct {
    const char *name;
    int kind, es;
    void (*team) (shmem_team_t t, void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int root, int *rc);
    void (*aset) (void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int root, int st, int lg, int sz, long *ps);
    void (*put) (void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe);
    void (*get) (void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe);
} cf_t;
#define TA shmem_team_t t, void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int root, int *rc
#define DEF(N, T) \
    static void b_##N(TA) { *rc = shmem_##N##_broadcast(t, (T *) d, (const T *) s, n, root); } \
    static void c_##N(TA) { *rc = shmem_##N##_collect(t, (T *) d, (const T *) s, n); } \
    static void f_##N(TA) { *rc = shmem_##N##_fcollect(t, (T *) d, (const T *) s, n); } \
    static void a_##N(TA) { *rc = shmem_##N##_alltoall(t, (T *) d, (const T *) s, n); } \
    static void as_##N(TA) { *rc = shmem_##N##_alltoalls(t, (T *) d, (const T *) s, dst, sst, n); } \
    static void ip_##N(void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe) { shmem_##N##_iput((T *) d, (const T *) s, dst, sst, n, pe); } \
    static void ig_##N(void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe) { shmem_##N##_iget((T *) d, (const T *) s, dst, sst, n, pe); }
COLL_TYPES(DEF)
static void b_mem(TA) { *rc = shmem_broadcastmem(t, d, s, n, root); }
static void c_mem(TA) { *rc = shmem_collectmem(t, d, s, n); }
static void f_mem(TA) { *rc = shmem_fcollectmem(t, d, s, n); }
static void a_mem(TA) { *rc = shmem_alltoallmem(t, d, s, n); }
static void as_mem(TA) { *rc = shmem_alltoallsmem(t, d, s, dst, sst, n); }
#define AA void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int root, int st, int lg, int sz, long *ps
#define ADEF(B) \
    static void ab_##B(AA) { shmem_broadcast##B(d, s, n, root, st, lg, sz, ps); } \
    static void ac_##B(AA) { shmem_collect##B(d, s, n, st, lg, sz, ps); } \
    static void af_##B(AA) { shmem_fcollect##B(d, s, n, st, lg, sz, ps); } \
    static void aa_##B(AA) { shmem_alltoall##B(d, s, n, st, lg, sz, ps); } \
    static void aas_##B(AA) { shmem_alltoalls##B(d, s, dst, sst, n, st, lg, sz, ps); } \
    static void aip_##B(void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe) { shmem_iput##B(d, s, dst, sst, n, pe); } \
    static void aig_##B(void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe) { shmem_iget##B(d, s, dst, sst, n, pe); }
ADEF(32) ADEF(64)
#define ROW(N, T) \
    { #N "_broadcast", K_BCAST, (int) sizeof(T), b_##N, NULL }, { #N "_collect", K_COLLECT, (int) sizeof(T), c_##N, NULL }, \
    { #N "_fcollect", K_FCOLLECT, (int) sizeof(T), f_##N, NULL }, { #N "_alltoall", K_A2A, (int) sizeof(T), a_##N, NULL }, \
    { #N "_alltoalls", K_A2AS, (int) sizeof(T), as_##N, NULL, ip_##N, ig_##N },
static cf_t tforms[] = {
    COLL_TYPES(ROW)
    { "broadcastmem", K_BCAST, 1, b_mem, NULL }, { "collectmem", K_COLLECT, 1, c_mem, NULL },
    { "fcollectmem", K_FCOLLECT, 1, f_mem, NULL }, { "alltoallmem", K_A2A, 1, a_mem, NULL },
    { "alltoallsmem", K_A2AS, 1, as_mem, NULL }
};
#define AROW(B) \
    { "broadcast" #B, K_BCAST, B / 8, NULL, ab_##B }, { "collect" #B, K_COLLECT, B / 8, NULL, ac_##B }, \
    { "fcollect" #B, K_FCOLLECT, B / 8, NULL, af_##B }, { "alltoall" #B, K_A2A, B / 8, NULL, aa_##B }, \
    { "alltoalls" #B, K_A2AS, B / 8, NULL, aas_##B, aip_##B, aig_##B },
static cf_t aforms[] = { AROW(32) AROW(64) };

static long psync[3][SHMEM_COLLECT_SYNC_SIZE + SHMEM_BCAST_SYNC_SIZE + SHMEM_ALLTOALL_SYNC_SIZE + SHMEM_ALLTOALLS_SYNC_SIZE +
    SHMEM_REDUCE_SYNC_SIZE + 8];
static double _Complex pwrk[3][20000];
/* element counts of the long mode: around powers of two and anything between, up to max elements */
static long long_count(rng_t * g, long max)
{
    long c = 1 + (long) rndn(g, (uint64_t) max);
    if (rndn(g, 3)) {
        int k = 6 + (int) rndn(g, 9);
        c = (1L << k) - 1 + (long) rndn(g, 3);
        if (rndn(g, 4) == 0)
            c = c * 3 / 2;
    }
    return c > max ? max : c;
}
/* strided traffic with the layout of a strided all-to-all: the library may share what it derived from it */
#define SCRN 8192
static char scr[SCRN] __attribute__((aligned(64))), scl[SCRN] __attribute__((aligned(64)));

typedef struct { int sreg, dreg; long spos, dpos, slen, dlen; } place_t;
static long bump[3];
static int take(rng_t * g, int es, long len, int *reg, long *pos)
{
    long gap = (long) rndn(g, 5) * es;
    for (int i = 0; i < 3; i++) {
        int r = *reg = (int) ((i + rndn(g, 3)) % (uint64_t) W.nreg);
        long p = (bump[r] + gap + es - 1) / es * es;
        if (p + len + 16 > (long) W.ns * SLOT)
            continue;
        *pos = p;
        bump[r] = p + len;
        return 1;
    }
    return 0;
}
static uint64_t sseed(long rd, int k, int pe) { return hc_mix(hc_seed * 31 + (uint64_t) rd * 1009 + (uint64_t) k * 64 + (uint64_t) pe); }
/* byte b of element e of PE pe's source in operation k */
static unsigned char sbyte(long rd, int k, int pe, long e, int b) { return hc_byte(sseed(rd, k, pe), (size_t) (e * 16 + b)); }

/* traffic that a PE inside a collective has to serve */
static void traffic(rng_t * j)
{
    hc_jitter(j);
    if (rndn(j, 3) == 0) {
        int t = (int) rndn(j, (uint64_t) hc_np);
        (void) shmem_int_atomic_fetch_inc((int *) slot_at(0, 0), t);
        STAT("traffic", 1);
    }
}

static void data_moves(int aset)
{
    shmem_init();
    hc_attach();
    int big = (int) hc_arg("big", 0);
    world_open(big ? 8192 : 512, (int) hc_arg("space", 1), 0);
    long rounds = hc_arg("rounds", big ? 6 : 25);
    int nc = (int) hc_arg("colls", 10);
    for (int i = 0; i < 3; i++)
        for (size_t k = 0; k < sizeof psync[0] / sizeof(long); k++)
            psync[i][k] = SHMEM_SYNC_VALUE;
    size_t rsz = (size_t) W.ns * SLOT;
    for (long rd = 0; rd < rounds && !(rd % 8 == 0 && hc_max(hc_fails)); rd++) {
        rng_t g = rng_of(aset ? 121 : 120, (uint64_t) rd);
        rng_t j = rng_of(122, (uint64_t) (rd * 64 + hc_me));
        if (rd % 4 == 0) {
            if (rd && !aset)
                drop_teams();
            if (aset)
                make_asets(&g);
            else
                make_teams(&g);
        }
        bump[0] = bump[1] = bump[2] = SLOT;     /* slot 0 is for the traffic */
        struct { cf_t *f; set_t *s; int k, root, inplace; long cnt[MAXPE], tot, dst, sst; place_t p; } op[24];
        int n = 0;
        for (int k = 0; k < nc; k++) {
            cf_t *f = aset ? &aforms[rndn(&g, sizeof aforms / sizeof aforms[0])] : &tforms[rndn(&g, sizeof tforms / sizeof tforms[0])];
            set_t *s = &sets[rndn(&g, (uint64_t) nsets)];
            static const int mx[] = { 1, 2, 3, 8, 20, 60 };
            long cnt = rndn(&g, 12) == 0 ? 0 : 1 + (long) rndn(&g, (uint64_t) mx[rndn(&g, 6)]);
            if (big)
                cnt = long_count(&g, 200000 / f->es / (f->kind == K_BCAST ? 1 : f->kind == K_A2AS ? s->n * 4 : s->n));
            op[n].f = f;
            op[n].s = s;
            op[n].k = k;
            op[n].root = (int) rndn(&g, (uint64_t) s->n);
            op[n].inplace = 0;
            op[n].dst = op[n].sst = 1;
            op[n].tot = 0;
            int unequal = f->kind == K_COLLECT && rndn(&g, 3);
            for (int i = 0; i < s->n; i++) {
                op[n].cnt[i] = unequal ? (rndn(&g, 5) ? (long) rndn(&g, (uint64_t) cnt + 3) : 0) : cnt;
                op[n].tot += op[n].cnt[i];
            }
            long sl = 0, dl = 0;
            for (int i = 0; i < s->n; i++)
                if (op[n].cnt[i] > sl)
                    sl = op[n].cnt[i];
            switch (f->kind) {
                case K_BCAST: dl = cnt; break;
                case K_COLLECT: case K_FCOLLECT: dl = op[n].tot; break;
                case K_A2A: sl = dl = cnt * s->n; break;
                case K_A2AS:
                    op[n].dst = rndn(&g, 3) ? 1 + (long) rndn(&g, 4) : 1;
                    op[n].sst = rndn(&g, 3) ? 1 + (long) rndn(&g, 4) : op[n].dst;
                    sl = cnt * s->n * op[n].sst;
                    dl = cnt * s->n * op[n].dst;
                    break;
            }
            if (sl * f->es > (big ? 300000 : 12000) || dl * f->es > (big ? 300000 : 12000))
                continue;
            if (!take(&g, f->es, sl * f->es, &op[n].p.sreg, &op[n].p.spos) || !take(&g, f->es, dl * f->es, &op[n].p.dreg, &op[n].p.dpos))
                break;
            op[n].p.slen = sl;
            op[n].p.dlen = dl;
            if (f->kind == K_BCAST && !aset && rndn(&g, 8) == 0) {
                op[n].inplace = 1;
                op[n].p.dreg = op[n].p.sreg;
                op[n].p.dpos = op[n].p.spos;
            }
            n++;
        }
        /* the sources */
        for (int k = 0; k < n; k++) {
            unsigned char *src = (unsigned char *) W.mem[op[k].p.sreg] + op[k].p.spos, *ms = W.model[hc_me][op[k].p.sreg] + op[k].p.spos;
            for (long e = 0; e < op[k].p.slen; e++)
                for (int b = 0; b < op[k].f->es; b++)
                    ms[e * op[k].f->es + b] = src[e * op[k].f->es + b] = sbyte(rd, op[k].k, hc_me, e, b);
        }
        hc_barrier_poll();
        /* each PE calls those it takes part in, without synchronising in between */
        for (int k = 0; k < n; k++) {
            set_t *s = op[k].s;
            cf_t *f = op[k].f;
            if (!s->member) {
                if (rndn(&j, 2))
                    traffic(&j);
                continue;
            }
            char *src = W.mem[op[k].p.sreg] + op[k].p.spos, *dst = W.mem[op[k].p.dreg] + op[k].p.dpos;
            unsigned char *md = W.model[hc_me][op[k].p.dreg] + op[k].p.dpos, *ms = W.model[hc_me][op[k].p.sreg] + op[k].p.spos;
            int es = f->es, rc = 0;
            long cnt = op[k].cnt[s->rank];
            traffic(&j);
            hc_where(f->name, rd, k, s->start * 10000 + s->pes[s->n - 1] * 100 + s->n);
            if (f->put && (op[k].dst > 1 || op[k].sst > 1) && rndn(&j, 2)) {
                long m = op[k].dst > op[k].sst ? op[k].dst : op[k].sst;
                if (cnt * m * es <= SCRN) {
                    (rndn(&j, 2) ? f->put : f->get) (scr, scl, op[k].dst, op[k].sst, (size_t) cnt, (hc_me + 1) % hc_np);
                    STAT("traffic", 1);
                }
            }
            if (aset) {
                /* the same array may serve again only after everybody returned: use three in turn per set and kind... the
                 * arrays are alternated by position and separated by a barrier at the end of the round */
                f->aset(dst, src, op[k].dst, op[k].sst, (size_t) cnt, op[k].root, s->start, s->lg, s->size, psync[k % 3]);
            } else
                f->team(s->team, dst, src, op[k].dst, op[k].sst, (size_t) cnt, op[k].root, &rc);
            if (rc)
                FAIL("coll-rc", "shmem_%s returned %d", f->name, rc);
            /* what the destination must hold */
            long o = 0;
            for (int i = 0; i < s->n; i++) {
                int pe = s->pes[i];
                switch (f->kind) {
                    case K_BCAST:
                        if (i == op[k].root && !(aset && s->rank == op[k].root))
                            for (long e = 0; e < cnt; e++)
                                for (int b = 0; b < es; b++)
                                    md[e * es + b] = sbyte(rd, op[k].k, pe, e, b);
                        break;
                    case K_COLLECT: case K_FCOLLECT:
                        for (long e = 0; e < op[k].cnt[i]; e++, o++)
                            for (int b = 0; b < es; b++)
                                md[o * es + b] = sbyte(rd, op[k].k, pe, e, b);
                        break;
                    default:
                        for (long e = 0; e < cnt; e++)
                            for (int b = 0; b < es; b++)
                                md[(i * cnt + e) * op[k].dst * es + b] = sbyte(rd, op[k].k, pe, (s->rank * cnt + e) * op[k].sst, b);
                }
            }
            long d = hc_diff(dst, md, (size_t) (op[k].p.dlen * es));
            if (d >= 0)
                FAIL("coll-data", "%s of %d PEs from %d (%s %d): rank %d: byte %ld of destination element %ld is %02x, expected %02x "
                     "(n=%ld root=%d dst=%ld sst=%ld)", f->name, s->n, s->start, aset ? "log stride" : "stride",
                     aset ? s->lg : s->n > 1 ? s->pes[1] - s->pes[0] : 1, s->rank, d % es, d / es, (unsigned char) dst[d], md[d], cnt,
                     op[k].root, op[k].dst, op[k].sst);
            if (!op[k].inplace) {
                d = hc_diff(src, ms, (size_t) (op[k].p.slen * es));
                if (d >= 0)
                    FAIL("coll-source", "%s changed its source", f->name);
                /* the source is the caller's again */
                memset(src, 0x3e, (size_t) (op[k].p.slen * es));
                memset(ms, 0x3e, (size_t) (op[k].p.slen * es));
            }
            STAT("collectives", 1);
            COVER(8, aset, (long) (f - (aset ? aforms : tforms)), s->n, s->start, cnt == 0 ? 0 : cnt < 4 ? 1 : cnt < 500 ? 2 : 3,
                  op[k].root * 8 + s->rank, op[k].dst * 8 + op[k].sst);
        }
        shmem_quiet();
        hc_barrier_poll();
        shmem_barrier_all();
        memcpy(W.model[hc_me][0], W.mem[0], SLOT);
        for (int r = 0; r < W.nreg; r++) {
            long d = hc_diff(W.mem[r], W.model[hc_me][r], rsz);
            if (d >= 0) {
                int who = -1;
                for (int k = 0; k < n; k++)
                    if (op[k].p.dreg == r && d >= op[k].p.dpos - 64 && d < op[k].p.dpos + op[k].p.dlen * op[k].f->es + 64)
                        who = k;
                FAIL("coll-stray", "region %d byte %ld is %02x, expected %02x, at the end of the round (near the destination of %s, %s)",
                     r, d, (unsigned char) W.mem[r][d], W.model[hc_me][r][d], who < 0 ? "nothing" : op[who].f->name,
                     who >= 0 && op[who].s->member ? "member" : "not a member");
                memcpy(W.mem[r], W.model[hc_me][r], rsz);
            }
            STAT("bytes_checked", (long) rsz);
        }
        hc_barrier_poll();
        hc_tick("round");
    }
    if (!aset)
        drop_teams();
    hc_barrier_poll();
    world_close();
    hc_detach();
    shmem_finalize();
}
SCENARIO(tcoll) { data_moves(0); }
SCENARIO(acoll) { data_moves(1); }

/* ---- reductions ---- */
enum { R_AND, R_OR, R_XOR, R_MIN, R_MAX, R_SUM, R_PROD };
typedef struct {
    const char *name;
    int op, es, vs, cls;        /* cls: 0 signed, 1 unsigned, 2 floating, 3 complex */
    void (*comb) (void *acc, const void *x);
    int (*team) (shmem_team_t t, void *d, const void *s, size_t n);
    void (*aset) (void *d, const void *s, int n, int st, int lg, int sz, void *w, long *ps);
} rf_t;
#define COMB(N, T, o, E) static void k_##o##_##N(void *acc, const void *x) { T a = *(T *) acc, b = *(const T *) x; *(T *) acc = (T) (E); }
#define CMM(N, T) COMB(N, T, min, b < a ? b : a) COMB(N, T, max, b > a ? b : a)
#define CSP(N, T) COMB(N, T, sum, a + b) COMB(N, T, prod, a * b)
#define CBW(N, T) COMB(N, T, and, a & b) COMB(N, T, or, a | b) COMB(N, T, xor, a ^ b)
#define TBIT(X) X(uchar, unsigned char) X(ushort, unsigned short) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long) X(int8, int8_t) X(int16, int16_t) X(int32, int32_t) X(int64, int64_t) X(uint8, uint8_t) \
    X(uint16, uint16_t) X(uint32, uint32_t) X(uint64, uint64_t) X(size, size_t)
#define CPLX(X) X(complexf, float _Complex) X(complexd, double _Complex)
#define ABIT(X) X(short, short) X(int, int) X(long, long) X(longlong, long long)
#define AMM(X) ABIT(X) X(float, float) X(double, double) X(longdouble, long double)
RMA_TYPES(CMM) RMA_TYPES(CSP) CPLX(CSP) TBIT(CBW)
CBW(short, short) CBW(int, int) CBW(long, long) CBW(longlong, long long)
#define TR(N, T, o) static int t_##o##_##N(shmem_team_t t, void *d, const void *s, size_t n) { return shmem_##N##_##o##_reduce(t, (T *) d, (const T *) s, n); }
#define TMM(N, T) TR(N, T, min) TR(N, T, max)
#define TSP(N, T) TR(N, T, sum) TR(N, T, prod)
#define TBW(N, T) TR(N, T, and) TR(N, T, or) TR(N, T, xor)
RMA_TYPES(TMM) RMA_TYPES(TSP) CPLX(TSP) TBIT(TBW)
#define AR(N, T, o) static void a_##o##_##N(void *d, const void *s, int n, int st, int lg, int sz, void *w, long *ps) \
    { shmem_##N##_##o##_to_all((T *) d, (const T *) s, n, st, lg, sz, (T *) w, ps); }
#define AMMF(N, T) AR(N, T, min) AR(N, T, max)
#define ASP(N, T) AR(N, T, sum) AR(N, T, prod)
#define ABW(N, T) AR(N, T, and) AR(N, T, or) AR(N, T, xor)
AMM(AMMF) AMM(ASP) CPLX(ASP) ABIT(ABW)
#define CLS(T) _Generic((T) 0, float: 2, double: 2, long double: 2, float _Complex: 3, double _Complex: 3, \
    unsigned char: 1, unsigned short: 1, unsigned int: 1, unsigned long: 1, unsigned long long: 1, default: 0)
#define VS(T) _Generic((T) 0, long double: 10, default: (int) sizeof(T))
#define RT(N, T, o, O) { #N "_" #o "_reduce", O, (int) sizeof(T), VS(T), CLS(T), k_##o##_##N, t_##o##_##N, NULL },
#define RTMM(N, T) RT(N, T, min, R_MIN) RT(N, T, max, R_MAX)
#define RTSP(N, T) RT(N, T, sum, R_SUM) RT(N, T, prod, R_PROD)
#define RTBW(N, T) RT(N, T, and, R_AND) RT(N, T, or, R_OR) RT(N, T, xor, R_XOR)
#define RA(N, T, o, O) { #N "_" #o "_to_all", O, (int) sizeof(T), VS(T), CLS(T), k_##o##_##N, NULL, a_##o##_##N },
#define RAMM(N, T) RA(N, T, min, R_MIN) RA(N, T, max, R_MAX)
#define RASP(N, T) RA(N, T, sum, R_SUM) RA(N, T, prod, R_PROD)
#define RABW(N, T) RA(N, T, and, R_AND) RA(N, T, or, R_OR) RA(N, T, xor, R_XOR)
static rf_t trf[] = { RMA_TYPES(RTMM) RMA_TYPES(RTSP) CPLX(RTSP) TBIT(RTBW) };
static rf_t arf[] = { AMM(RAMM) AMM(RASP) CPLX(RASP) ABIT(RABW) };

/* contribution e of PE pe: combinations stay exact and in range whatever the order */
static void contribution(const rf_t * f, long rd, int k, int pe, long e, void *out)
{
    uint64_t z = hc_mix(sseed(rd, k, pe) + (uint64_t) e * 7919u);
    memset(out, 0, 16);
    if (f->cls >= 2) {
        double v, w;
        if (f->op == R_PROD) {
            static const double ps[] = { 1, 2, -1, 0.5, -2, 4, 1, 3 };
            v = ps[z % 8];
            w = f->cls == 3 ? (double) ((z >> 8) % 3) - 1 : 0;
        } else if (f->op == R_SUM) {
            v = (double) ((long) (z % 4001) - 2000) / 4;
            w = (double) ((long) ((z >> 20) % 4001) - 2000) / 4;
        } else {
            static const double ms[] = { 0, -1.5, 1e30, -1e30, 3.25, -3.25, 1e-30, 42 };
            v = (z >> 40) % 3 ? (double) ((long) (z % 2000001) - 1000000) / 16 : ms[z % 8];
            w = 0;
        }
        if (f->cls == 3) {
            if (f->es == 8) {
                float c[2] = { (float) v, (float) w };
                memcpy(out, c, 8);
            } else {
                double c[2] = { v, w };
                memcpy(out, c, 16);
            }
        } else if (f->es == 4) {
            float x = (float) v;
            memcpy(out, &x, 4);
        } else if (f->es == 8)
            memcpy(out, &v, 8);
        else {
            long double x = v;
            memcpy(out, &x, 10);
        }
        return;
    }
    static const uint64_t edges[] = { 0, ~0ull, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0x7fffffff, 0x80000000u, 0x7fffffffffffffffull,
        0x8000000000000000ull, ~1ull
    };
    uint64_t v = (z >> 50) % 2 ? z : edges[z % 12];
    if (f->op == R_SUM && f->cls == 0)
        /* wide values whose sum over up to 15 PEs stays within the type */
        v = (uint64_t) (f->es == 1 ? (int64_t) (z % 17) - 8 : (int64_t) z >> (68 - 8 * f->es));
    if (f->op == R_SUM && f->cls == 1 && f->es < 4)
        v = z % (f->es == 1 ? 17 : 4000);   /* Open MPI's vectorised sum saturates instead of wrapping for narrow unsigned types */
    if (f->op == R_PROD && f->cls == 0) {
        static const int ps[] = { 1, -1, 2, 1, -1, 1 };
        v = (uint64_t) (int64_t) ps[f->es == 1 && hc_np > 6 ? z % 2 : z % 6];
    }
    memcpy(out, &v, (size_t) f->es);
}

SCENARIO(reduce)
{
    shmem_init();
    hc_attach();
    int big = (int) hc_arg("big", 0);
    world_open(big ? 8192 : 512, (int) hc_arg("space", 1), 0);
    long rounds = hc_arg("rounds", big ? 8 : 25);
    int nc = (int) hc_arg("colls", 14);
    const char *only = hc_args("only", NULL);
    for (int i = 0; i < 3; i++)
        for (size_t k = 0; k < sizeof psync[0] / sizeof(long); k++)
            psync[i][k] = SHMEM_SYNC_VALUE;
    size_t rsz = (size_t) W.ns * SLOT;
    static set_t aset[MAXSET], team[MAXSET];
    int nas = 0, nts = 0;
    for (long rd = 0; rd < rounds && !(rd % 8 == 0 && hc_max(hc_fails)); rd++) {
        rng_t g = rng_of(125, (uint64_t) rd), j = rng_of(126, (uint64_t) (rd * 64 + hc_me));
        if (rd % 4 == 0) {
            if (rd) {
                memcpy(sets, team, sizeof sets);
                nsets = nts;
                drop_teams();
            }
            make_asets(&g);
            memcpy(aset, sets, sizeof sets);
            nas = nsets;
            make_teams(&g);
            memcpy(team, sets, sizeof sets);
            nts = nsets;
        }
        bump[0] = bump[1] = bump[2] = SLOT;
        struct { rf_t *f; set_t *s; int k, inplace; long cnt; place_t p; } op[24];
        int n = 0;
        for (int k = 0; k < nc; k++) {
            int isteam = (int) rndn(&g, 2);
            rf_t *f = isteam ? &trf[rndn(&g, sizeof trf / sizeof trf[0])] : &arf[rndn(&g, sizeof arf / sizeof arf[0])];
            set_t *s = isteam ? &team[rndn(&g, (uint64_t) nts)] : &aset[rndn(&g, (uint64_t) nas)];
            static const int mx[] = { 1, 2, 5, 20, 100 };
            long cnt = rndn(&g, 14) == 0 ? 0 : 1 + (long) rndn(&g, (uint64_t) mx[rndn(&g, 5)]);
            if (big)
                cnt = long_count(&g, 19000);
            if (only && !strstr(f->name, only))
                continue;
            op[n].f = f;
            op[n].s = s;
            op[n].k = k;
            op[n].cnt = cnt;
            if (!take(&g, f->es, cnt * f->es, &op[n].p.sreg, &op[n].p.spos))
                break;
            op[n].inplace = rndn(&g, 3) == 0;
            if (op[n].inplace) {
                op[n].p.dreg = op[n].p.sreg;
                op[n].p.dpos = op[n].p.spos;
            } else if (!take(&g, f->es, cnt * f->es, &op[n].p.dreg, &op[n].p.dpos))
                break;
            n++;
        }
        for (int k = 0; k < n; k++) {
            unsigned char *src = (unsigned char *) W.mem[op[k].p.sreg] + op[k].p.spos, *ms = W.model[hc_me][op[k].p.sreg] + op[k].p.spos;
            for (long e = 0; e < op[k].cnt; e++) {
                unsigned char v[16] __attribute__((aligned(16)));
                contribution(op[k].f, rd, op[k].k, hc_me, e, v);
                memcpy(src + e * op[k].f->es, v, (size_t) op[k].f->es);
                memcpy(ms + e * op[k].f->es, v, (size_t) op[k].f->es);
            }
        }
        hc_barrier_poll();
        for (int k = 0; k < n; k++) {
            set_t *s = op[k].s;
            rf_t *f = op[k].f;
            if (!s->member) {
                if (rndn(&j, 2))
                    traffic(&j);
                continue;
            }
            char *src = W.mem[op[k].p.sreg] + op[k].p.spos, *dst = W.mem[op[k].p.dreg] + op[k].p.dpos;
            unsigned char *md = W.model[hc_me][op[k].p.dreg] + op[k].p.dpos, *ms = W.model[hc_me][op[k].p.sreg] + op[k].p.spos;
            int es = f->es;
            traffic(&j);
            hc_where(f->name, rd, k, s->start * 10000 + s->pes[s->n - 1] * 100 + s->n);
            if (f->team) {
                int rc = f->team(s->team, dst, src, (size_t) op[k].cnt);
                if (rc)
                    FAIL("reduce-rc", "shmem_%s returned %d", f->name, rc);
            } else
                f->aset(dst, src, (int) op[k].cnt, s->start, s->lg, s->size, pwrk[k % 3], psync[k % 3]);
            for (long e = 0; e < op[k].cnt; e++) {
                unsigned char acc[16] __attribute__((aligned(16))), v[16] __attribute__((aligned(16)));
                for (int i = 0; i < s->n; i++) {
                    contribution(f, rd, op[k].k, s->pes[i], e, v);
                    if (i == 0)
                        memcpy(acc, v, 16);
                    else
                        f->comb(acc, v);
                }
                /* equal values, not equal bytes: signed zeros */
                if (f->cls >= 2) {
                    for (int c = 0; c < (f->cls == 3 ? 2 : 1); c++) {
                        long double a, b;
                        int ps = f->cls == 3 ? es / 2 : es;
                        const char *pa = (const char *) acc + c * ps, *pb = dst + e * es + c * ps;
                        if (ps == 4) { float x, y; memcpy(&x, pa, 4); memcpy(&y, pb, 4); a = x; b = y; }
                        else if (ps == 8) { double x, y; memcpy(&x, pa, 8); memcpy(&y, pb, 8); a = x; b = y; }
                        else { memcpy(&a, pa, 16); memcpy(&b, pb, 16); }
                        if (!(a == b)) {
                            FAIL("reduce-value", "%s over %d PEs from %d n=%ld%s: element %ld is %.20Lg, expected %.20Lg", f->name, s->n,
                                 s->start, op[k].cnt, op[k].inplace ? " in place" : "", e, b, a);
                            break;
                        }
                    }
                } else if (memcmp(acc, dst + e * es, (size_t) f->vs)) {
                    uint64_t a = 0, b = 0;
                    memcpy(&a, acc, (size_t) es);
                    memcpy(&b, dst + e * es, (size_t) es);
                    FAIL("reduce-value", "%s over %d PEs from %d n=%ld%s: element %ld is %llx, expected %llx", f->name, s->n, s->start,
                         op[k].cnt, op[k].inplace ? " in place" : "", e, (unsigned long long) b, (unsigned long long) a);
                    break;
                }
            }
            memcpy(md, dst, (size_t) (op[k].cnt * es));
            if (!op[k].inplace) {
                if (hc_diff(src, ms, (size_t) (op[k].cnt * es)) >= 0)
                    FAIL("coll-source", "%s changed its source", f->name);
                memset(src, 0x3e, (size_t) (op[k].cnt * es));
                memset(ms, 0x3e, (size_t) (op[k].cnt * es));
            }
            STAT("reductions", 1);
            STAT("elements", op[k].cnt);
            COVER(9, f->team ? (long) (f - trf) : 1000 + (long) (f - arf), s->n, s->start, s->lg, op[k].inplace,
                  op[k].cnt == 0 ? 0 : op[k].cnt < 4 ? 1 : op[k].cnt < 1000 ? 2 : 3);
        }
        shmem_quiet();
        hc_barrier_poll();
        shmem_barrier_all();
        memcpy(W.model[hc_me][0], W.mem[0], SLOT);
        for (int r = 0; r < W.nreg; r++) {
            long d = hc_diff(W.mem[r], W.model[hc_me][r], rsz);
            if (d >= 0) {
                FAIL("coll-stray", "region %d byte %ld is %02x, expected %02x, at the end of a round of reductions", r, d,
                     (unsigned char) W.mem[r][d], W.model[hc_me][r][d]);
                memcpy(W.mem[r], W.model[hc_me][r], rsz);
            }
            STAT("bytes_checked", (long) rsz);
        }
        hc_barrier_poll();
        hc_tick("round");
    }
    memcpy(sets, team, sizeof sets);
    nsets = nts;
    drop_teams();
    hc_barrier_poll();
    world_close();
    hc_detach();
    shmem_finalize();
}
