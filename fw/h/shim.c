/* A legal but hostile MPI between the library and the real one (PMPI).
 *
 * One-sided operations are held back and handed to MPI only when the standard says they must have happened:
 *   - MPI_Win_flush_local[_all]: origin buffers of Put/Accumulate are copied away, Get/Fetch results arrive;
 *   - MPI_Win_flush[_all], unlock_all, free: everything held for that target (or window) is delivered, in a random
 *     order unless accumulate ordering applies;
 *   - otherwise after a random number of further MPI calls (so that progress is still made).
 * Until then Get and fetch results are filled with junk.  MPI_Test may miss a completed request for a while, sends
 * may be synchronous, and calls may be delayed.  All of that is allowed by MPI; a SHMEM library that relies on more
 * than the standard is exposed by it.
 *
 * Monitors: every one-sided access must lie inside the target's window; handles and requests are counted and must be
 * gone at MPI_Finalize.
 */
#define _GNU_SOURCE
#include "hc.h"
#include <pthread.h>

static pthread_mutex_t mu;
static pthread_once_t once = PTHREAD_ONCE_INIT;
static rng_t sr;
static int hold = 0;            /* per-mille chance that an operation is held back */
static int late = 0;            /* per-mille chance per MPI call that one held operation is delivered */
static int missp = 0;           /* per-mille chance that MPI_Test misses */
static int ssend = 0;           /* per-mille chance that a send is synchronous */
static int after = 0;            /* per-mille chance of a pause after one */
static int tagub_;
static int tagub = 0;            /* what MPI_TAG_UB says; the standard asks for at least 32767 */
static int delayp = 0;          /* per-mille chance of a pause in an MPI call */
static int lifo = 0;            /* deliver newest first instead of shuffled */
static int paused = 0;

static long n_held, n_forced, n_late, n_miss, n_ssend, n_delay, n_direct, n_snap;
static long n_made, live_comm, live_group, live_win, live_type, live_info, live_req;

static long ev(const char *n, long d)
{
    const char *s = getenv(n);
    return s ? atol(s) : d;
}
static void init_(void)
{
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE);
    pthread_mutex_init(&mu, &a);
    sr.s = hc_mix((uint64_t) ev("HC_SHIM_SEED", 1) * 1000003ULL + (uint64_t) (hc_me + 17));
    hold = (int) ev("HC_HOLD", 0);
    late = (int) ev("HC_LATE", 0);
    missp = (int) ev("HC_MISS", 0);
    ssend = (int) ev("HC_SSEND", 0);
    delayp = (int) ev("HC_DELAY", 0);
    lifo = (int) ev("HC_LIFO", 0);
    after = (int) ev("HC_AFTER", 0);
    tagub = (int) ev("HC_TAGUB", 0);
}
#define IN() do { pthread_once(&once, init_); pthread_mutex_lock(&mu); } while (0)
#define OUT() pthread_mutex_unlock(&mu)
static int chance(int pm) { return pm > 0 && !paused && (int) rndn(&sr, 1000) < pm; }

void hc_shim_pause(int on)
{
    IN();
    paused = on;
    OUT();
}

/* ---- windows ---- */
typedef enum { K_PUT, K_GET, K_ACC, K_FOP, K_CAS } kind_t;
typedef struct op {
    struct op *next, *prev;
    kind_t k;
    const void *o;              /* origin address */
    void *snap;                 /* owned copy, NULL while the origin is still the user's */
    void *base;                 /* address to pass to MPI */
    int oc;
    MPI_Datatype ot;
    int oown;
    void *res;
    const void *cmp;
    char cmpv[32], orgv[32];
    int t;
    MPI_Aint d;
    int tc;
    MPI_Datatype tt;
    int town;
    MPI_Op mop;
    unsigned long seq;
} op_t;
#define MAXW 64
typedef struct {
    int used;
    MPI_Win w;
    MPI_Comm comm;
    int n, dyn, ordered;
    void *base;
    MPI_Aint mine;
    MPI_Aint *size;
    int *unit;
    op_t head;
    long nheld;
} win_t;
static win_t wins[MAXW];
static unsigned long seqno;

static win_t *wfind(MPI_Win w)
{
    for (int i = 0; i < MAXW; i++)
        if (wins[i].used && wins[i].w == w)
            return &wins[i];
    return NULL;
}
static void wadd(MPI_Win w, MPI_Comm comm, void *base, MPI_Aint size, int unit, int dyn, MPI_Info info)
{
    int i, flag = 0;
    char val[64];
    IN();
    for (i = 0; i < MAXW && wins[i].used; i++);
    if (i == MAXW) {
        OUT();
        return;
    }
    win_t *x = &wins[i];
    memset(x, 0, sizeof *x);
    x->used = 1;
    x->w = w;
    x->comm = comm;
    x->base = base;
    x->mine = size;
    x->dyn = dyn;
    PMPI_Comm_size(comm, &x->n);
    x->size = (MPI_Aint *) malloc(sizeof(MPI_Aint) * (size_t) x->n);
    x->unit = (int *) malloc(sizeof(int) * (size_t) x->n);
    PMPI_Allgather(&size, 1, MPI_AINT, x->size, 1, MPI_AINT, comm);
    PMPI_Allgather(&unit, 1, MPI_INT, x->unit, 1, MPI_INT, comm);
    x->head.next = x->head.prev = &x->head;
    x->ordered = 1;
    if (info != MPI_INFO_NULL) {
        PMPI_Info_get(info, "accumulate_ordering", 63, val, &flag);
        if (flag && !strcmp(val, "none"))
            x->ordered = 0;
    }
    live_win++;
    OUT();
}

static int predefined(MPI_Datatype t)
{
    int ni, na, nd, c;
    PMPI_Type_get_envelope(t, &ni, &na, &nd, &c);
    return c == MPI_COMBINER_NAMED;
}
static MPI_Datatype tdup(MPI_Datatype t, int *own)
{
    MPI_Datatype o = t;
    *own = 0;
    if (!predefined(t)) {
        PMPI_Type_dup(t, &o);
        *own = 1;
    }
    return o;
}
static void span(int c, MPI_Datatype t, MPI_Aint * lb, MPI_Aint * len)
{
    MPI_Aint l, e, tl, te;
    PMPI_Type_get_extent(t, &l, &e);
    PMPI_Type_get_true_extent(t, &tl, &te);
    *lb = tl;
    *len = c > 0 ? e * (c - 1) + te : 0;
}
static void junk(void *p, int c, MPI_Datatype t)
{
    int sz;
    PMPI_Type_size(t, &sz);
    if (sz <= 0 || c <= 0)
        return;
    if (predefined(t)) {
        memset(p, 0xEB, (size_t) sz * (size_t) c);
        return;
    }
    int n = sz * c, pos = 0;
    void *b = malloc((size_t) n);
    memset(b, 0xEB, (size_t) n);
    PMPI_Unpack(b, n, &pos, p, c, t, MPI_COMM_SELF);
    free(b);
}
static void check_bounds(win_t * x, const char *who, int t, MPI_Aint d, int c, MPI_Datatype ty)
{
    if (!x)
        return;
    if (t < 0 || t >= x->n) {
        hc_fail("mpi-window-target", "%s to rank %d of %d", who, t, x->n);
        return;
    }
    if (x->dyn || c == 0)
        return;
    MPI_Aint lb, len;
    span(c, ty, &lb, &len);
    MPI_Aint a = d * x->unit[t] + lb;
    if (len > 0 && (a < 0 || a + len > x->size[t]))
        hc_fail("mpi-window-bounds", "%s touches bytes [%ld,%ld) of a window of %ld bytes at rank %d", who, (long) a,
                (long) (a + len), (long) x->size[t], t);
}

static void snapshot(op_t * p)
{
    if (p->snap || (p->k != K_PUT && p->k != K_ACC) || p->oc == 0)
        return;
    MPI_Aint lb, len;
    span(p->oc, p->ot, &lb, &len);
    if (len <= 0)
        return;
    p->snap = malloc((size_t) len);
    memcpy(p->snap, (const char *) p->o + lb, (size_t) len);
    p->base = (char *) p->snap - lb;
    n_snap++;
}
static void deliver(win_t * x, op_t * p)
{
    switch (p->k) {
        case K_PUT:
            PMPI_Put(p->base, p->oc, p->ot, p->t, p->d, p->tc, p->tt, x->w);
            break;
        case K_GET:
            PMPI_Get((void *) p->o, p->oc, p->ot, p->t, p->d, p->tc, p->tt, x->w);
            break;
        case K_ACC:
            PMPI_Accumulate(p->base, p->oc, p->ot, p->t, p->d, p->tc, p->tt, p->mop, x->w);
            break;
        case K_FOP:
            PMPI_Fetch_and_op(p->o ? (const void *) p->o : NULL, p->res, p->ot, p->t, p->d, p->mop, x->w);
            break;
        case K_CAS:
            PMPI_Compare_and_swap(p->o, p->cmp, p->res, p->ot, p->t, p->d, x->w);
            break;
    }
    PMPI_Win_flush_local(p->t, x->w);
    p->prev->next = p->next;
    p->next->prev = p->prev;
    x->nheld--;
    if (p->oown)
        PMPI_Type_free(&p->ot);
    if (p->town)
        PMPI_Type_free(&p->tt);
    free(p->snap);
    free(p);
}
static int is_acc(op_t * p) { return p->k == K_ACC || p->k == K_FOP || p->k == K_CAS; }
/* an accumulate-like operation must not overtake an older one to the same target when ordering applies */
static op_t *oldest(win_t * x, op_t * p)
{
    if (!x->ordered || !is_acc(p))
        return p;
    for (op_t * q = x->head.next; q != p; q = q->next)
        if (q->t == p->t && is_acc(q))
            return q;
    return p;
}
static void force(win_t * x, int t, int only_results)
{
    while (1) {
        op_t *pick = NULL;
        long m = 0;
        for (op_t * q = x->head.next; q != &x->head; q = q->next) {
            if (t >= 0 && q->t != t)
                continue;
            if (only_results && (q->k == K_PUT || q->k == K_ACC))
                continue;
            m++;
            if (lifo || rndn(&sr, (uint64_t) m) == 0)
                pick = q;
        }
        if (!pick)
            return;
        deliver(x, oldest(x, pick));
        n_forced++;
    }
}
static void localise(win_t * x, int t)
{
    for (op_t * q = x->head.next; q != &x->head; q = q->next)
        if (t < 0 || q->t == t)
            snapshot(q);
    force(x, t, 1);
}
static void late_one(void)
{
    long m = 0;
    op_t *pick = NULL;
    win_t *w = NULL;
    for (int i = 0; i < MAXW; i++)
        if (wins[i].used && wins[i].nheld)
            for (op_t * q = wins[i].head.next; q != &wins[i].head; q = q->next)
                if (rndn(&sr, (uint64_t) ++m) == 0) {
                    pick = q;
                    w = &wins[i];
                }
    if (pick) {
        pick = oldest(w, pick);
        int t = pick->t;
        deliver(w, pick);
        /* actually reach the target now */
        PMPI_Win_flush(t, w->w);
        n_late++;
    }
}
static void force_all(void)
{
    for (int i = 0; i < MAXW; i++)
        if (wins[i].used && wins[i].nheld) {
            force(&wins[i], -1, 0);
            PMPI_Win_flush_all(wins[i].w);
        }
}
/* every MPI call the library makes */
static void tick_(void)
{
    IN();
    if (late > 0 && (int) rndn(&sr, 1000) < (paused ? 200 : late))
        late_one();
    int dl = chance(delayp);
    uint64_t k = dl ? rndn(&sr, 12) : 0;
    if (dl)
        n_delay++;
    OUT();
    if (dl) {
        if (k < 9)
            for (uint64_t i = 0; i <= k; i++)
                sched_yield();
        else
            usleep((useconds_t) (20 * k));
    }
}
/* and after some of them: another thread may get ahead of what follows */
static void tock_(void)
{
    if (!after)
        return;
    IN();
    int dl = chance(after);
    uint64_t k = dl ? rndn(&sr, 12) : 0;
    n_delay += dl;
    OUT();
    if (dl)
        usleep((useconds_t) (30 * k));
}
static op_t *mk(kind_t k, int t, MPI_Aint d)
{
    op_t *p = (op_t *) calloc(1, sizeof *p);
    p->k = k;
    p->t = t;
    p->d = d;
    p->seq = seqno++;
    return p;
}
static void enq(win_t * x, op_t * p)
{
    p->prev = x->head.prev;
    p->next = &x->head;
    p->prev->next = p;
    x->head.prev = p;
    x->nheld++;
    n_held++;
    if (x->nheld > 300)
        deliver(x, oldest(x, x->head.next));
}
/* an operation that is not held must still respect ordering against held ones */
static void pre_direct(win_t * x, int t, int acc)
{
    if (!acc || !x->ordered)
        return;
    int again = 1;
    while (again) {
        again = 0;
        for (op_t * q = x->head.next; q != &x->head; q = q->next)
            if (q->t == t && is_acc(q)) {
                deliver(x, q);
                again = 1;
                break;
            }
    }
}

#define HELD(x) ((x) && chance(hold))

int MPI_Put(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w)
{
    int r = MPI_SUCCESS;
    tick_();
    IN();
    win_t *x = wfind(w);
    check_bounds(x, "MPI_Put", t, d, tc, tt);
    if (HELD(x)) {
        op_t *p = mk(K_PUT, t, d);
        p->o = o;
        p->base = (void *) o;
        p->oc = oc;
        p->ot = tdup(ot, &p->oown);
        p->tc = tc;
        p->tt = tdup(tt, &p->town);
        enq(x, p);
    } else {
        n_direct++;
        r = PMPI_Put(o, oc, ot, t, d, tc, tt, w);
    }
    OUT();
    return r;
}
int MPI_Get(void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w)
{
    int r = MPI_SUCCESS;
    tick_();
    IN();
    win_t *x = wfind(w);
    check_bounds(x, "MPI_Get", t, d, tc, tt);
    if (HELD(x)) {
        op_t *p = mk(K_GET, t, d);
        p->o = o;
        p->oc = oc;
        p->ot = tdup(ot, &p->oown);
        p->tc = tc;
        p->tt = tdup(tt, &p->town);
        junk(o, oc, ot);
        enq(x, p);
    } else {
        n_direct++;
        r = PMPI_Get(o, oc, ot, t, d, tc, tt, w);
    }
    OUT();
    return r;
}
int MPI_Accumulate(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op,
                   MPI_Win w)
{
    int r = MPI_SUCCESS;
    tick_();
    IN();
    win_t *x = wfind(w);
    check_bounds(x, "MPI_Accumulate", t, d, tc, tt);
    if (HELD(x)) {
        op_t *p = mk(K_ACC, t, d);
        p->o = o;
        p->base = (void *) o;
        p->oc = oc;
        p->ot = tdup(ot, &p->oown);
        p->tc = tc;
        p->tt = tdup(tt, &p->town);
        p->mop = op;
        enq(x, p);
    } else {
        n_direct++;
        if (x)
            pre_direct(x, t, 1);
        r = PMPI_Accumulate(o, oc, ot, t, d, tc, tt, op, w);
    }
    OUT();
    return r;
}
int MPI_Fetch_and_op(const void *o, void *res, MPI_Datatype ty, int t, MPI_Aint d, MPI_Op op, MPI_Win w)
{
    int r = MPI_SUCCESS;
    tick_();
    IN();
    win_t *x = wfind(w);
    check_bounds(x, "MPI_Fetch_and_op", t, d, 1, ty);
    if (HELD(x)) {
        op_t *p = mk(K_FOP, t, d);
        p->o = o;
        p->res = res;
        p->ot = ty;
        p->mop = op;
        junk(res, 1, ty);
        enq(x, p);
    } else {
        n_direct++;
        if (x)
            pre_direct(x, t, 1);
        r = PMPI_Fetch_and_op(o, res, ty, t, d, op, w);
    }
    OUT();
    return r;
}
int MPI_Compare_and_swap(const void *o, const void *c, void *res, MPI_Datatype ty, int t, MPI_Aint d, MPI_Win w)
{
    int r = MPI_SUCCESS;
    tick_();
    IN();
    win_t *x = wfind(w);
    check_bounds(x, "MPI_Compare_and_swap", t, d, 1, ty);
    if (HELD(x)) {
        op_t *p = mk(K_CAS, t, d);
        p->o = o;
        p->cmp = c;
        p->res = res;
        p->ot = ty;
        junk(res, 1, ty);
        enq(x, p);
    } else {
        n_direct++;
        if (x)
            pre_direct(x, t, 1);
        r = PMPI_Compare_and_swap(o, c, res, ty, t, d, w);
    }
    OUT();
    return r;
}

int MPI_Win_flush_local(int t, MPI_Win w)
{
    tick_();
    IN();
    win_t *x = wfind(w);
    if (x)
        localise(x, t);
    int r = PMPI_Win_flush_local(t, w);
    OUT();
    return r;
}
int MPI_Win_flush_local_all(MPI_Win w)
{
    tick_();
    IN();
    win_t *x = wfind(w);
    if (x)
        localise(x, -1);
    int r = PMPI_Win_flush_local_all(w);
    OUT();
    return r;
}
int MPI_Win_flush(int t, MPI_Win w)
{
    tick_();
    IN();
    win_t *x = wfind(w);
    if (x)
        force(x, t, 0);
    int r = PMPI_Win_flush(t, w);
    OUT();
    return r;
}
int MPI_Win_flush_all(MPI_Win w)
{
    tick_();
    IN();
    win_t *x = wfind(w);
    if (x)
        force(x, -1, 0);
    int r = PMPI_Win_flush_all(w);
    OUT();
    tock_();
    return r;
}
int MPI_Win_unlock_all(MPI_Win w)
{
    tick_();
    IN();
    win_t *x = wfind(w);
    if (x)
        force(x, -1, 0);
    int r = PMPI_Win_unlock_all(w);
    OUT();
    return r;
}
int MPI_Win_unlock(int t, MPI_Win w)
{
    tick_();
    IN();
    win_t *x = wfind(w);
    if (x)
        force(x, t, 0);
    int r = PMPI_Win_unlock(t, w);
    OUT();
    return r;
}
int MPI_Win_create(void *b, MPI_Aint sz, int du, MPI_Info info, MPI_Comm comm, MPI_Win * w)
{
    tick_();
    IN();
    force_all();
    OUT();
    int r = PMPI_Win_create(b, sz, du, info, comm, w);
    wadd(*w, comm, b, sz, du, 0, info);
    return r;
}
int MPI_Win_allocate(MPI_Aint sz, int du, MPI_Info info, MPI_Comm comm, void *b, MPI_Win * w)
{
    tick_();
    IN();
    force_all();
    OUT();
    int r = PMPI_Win_allocate(sz, du, info, comm, b, w);
    wadd(*w, comm, *(void **) b, sz, du, 0, info);
    return r;
}
int MPI_Win_create_dynamic(MPI_Info info, MPI_Comm comm, MPI_Win * w)
{
    tick_();
    IN();
    force_all();
    OUT();
    int r = PMPI_Win_create_dynamic(info, comm, w);
    wadd(*w, comm, NULL, 0, 1, 1, info);
    return r;
}
/* memory to be looked at in the last moment in which remote updates can reach it */
#define MAXWATCH 16
static struct { char *p; size_t n; void *copy; const char *when; } watch[MAXWATCH];
static int nwatch;
void hc_watch(void *p, size_t n, void *copy)
{
    if (nwatch < MAXWATCH) {
        watch[nwatch].p = (char *) p;
        watch[nwatch].n = n;
        watch[nwatch].when = NULL;
        watch[nwatch++].copy = copy;
    }
}
const char *hc_watched(void *p)
{
    for (int i = 0; i < nwatch; i++)
        if (watch[i].p == (char *) p)
            return watch[i].when;
    return NULL;
}
/* the region [b, b+n) is going away; comm: a collective call that ends with everybody's operations */
static void last_look(void *b, size_t n, MPI_Comm comm, const char *when)
{
    int any = comm == MPI_COMM_WORLD;
    for (int i = 0; i < nwatch; i++)
        any |= !watch[i].when && watch[i].p >= (char *) b && watch[i].p < (char *) b + n;
    if (!any)
        return;
    if (comm != MPI_COMM_NULL) {
        MPI_Request q;
        int f = 0;
        PMPI_Ibarrier(comm, &q);
        while (!f) {
            PMPI_Test(&q, &f, MPI_STATUS_IGNORE);
            sched_yield();
        }
    }
    for (int i = 0; i < nwatch; i++)
        if (!watch[i].when && watch[i].p >= (char *) b && watch[i].p < (char *) b + n) {
            memcpy(watch[i].copy, watch[i].p, watch[i].n);
            watch[i].when = when;
        }
}
/* what is attached to dynamic windows */
#define MAXATT 64
static struct { MPI_Win w; char *b; MPI_Aint n; } att[MAXATT];
int MPI_Win_attach(MPI_Win w, void *b, MPI_Aint n)
{
    tick_();
    for (int i = 0; i < MAXATT; i++)
        if (!att[i].b) {
            att[i].w = w;
            att[i].b = (char *) b;
            att[i].n = n;
            break;
        }
    return PMPI_Win_attach(w, b, n);
}
int MPI_Win_detach(MPI_Win w, const void *b)
{
    tick_();
    for (int i = 0; i < MAXATT; i++)
        if (att[i].b == (char *) b && att[i].w == w) {
            if (nwatch)
                last_look(att[i].b, (size_t) att[i].n, MPI_COMM_NULL, "MPI_Win_detach");
            att[i].b = NULL;
            break;
        }
    return PMPI_Win_detach(w, b);
}
/* the i-th region of this process that any window exposes; 0: no such */
int hc_region(int i, char **b, long *n)
{
    for (int k = 0; k < MAXW; k++)
        if (wins[k].used && wins[k].base && !wins[k].dyn && i-- == 0) {
            *b = (char *) wins[k].base;
            *n = (long) wins[k].mine;
            return 1;
        }
    for (int k = 0; k < MAXATT; k++)
        if (att[k].b && i-- == 0) {
            *b = att[k].b;
            *n = (long) att[k].n;
            return 1;
        }
    return 0;
}
int MPI_Win_free(MPI_Win * w)
{
    tick_();
    if (nwatch && wfind(*w) && wfind(*w)->base)
        last_look(wfind(*w)->base, (size_t) wfind(*w)->mine, wfind(*w)->comm, "MPI_Win_free");
    IN();
    force_all();
    win_t *x = wfind(*w);
    if (x) {
        if (x->nheld)
            hc_fail("mpi-rma-outside-epoch", "window freed with %ld operations outstanding", x->nheld);
        x->used = 0;
        free(x->size);
        free(x->unit);
        live_win--;
    }
    OUT();
    return PMPI_Win_free(w);
}

/* ---- requests ---- */
#define MAXR 8192
static MPI_Request reqs[MAXR];
static int rq(MPI_Request q)
{
    for (int i = 0; i < MAXR; i++)
        if (reqs[i] == q)
            return i;
    return -1;
}
static int inited;
static void rinit(void)
{
    if (!inited) {
        for (int i = 0; i < MAXR; i++)
            reqs[i] = MPI_REQUEST_NULL;
        inited = 1;
    }
}
static void radd(MPI_Request q)
{
    IN();
    rinit();
    int i = rq(MPI_REQUEST_NULL);
    if (i >= 0) {
        reqs[i] = q;
        live_req++;
    }
    OUT();
}
static void rdel(MPI_Request q)
{
    IN();
    rinit();
    int i = q == MPI_REQUEST_NULL ? -1 : rq(q);
    if (i >= 0) {
        reqs[i] = MPI_REQUEST_NULL;
        live_req--;
    }
    OUT();
}
static int missed(void)
{
    IN();
    int m = chance(missp);
    if (m)
        n_miss++;
    OUT();
    return m;
}
static int sync_send(void)
{
    IN();
    int m = chance(ssend);
    if (m)
        n_ssend++;
    OUT();
    return m;
}
static int await(MPI_Request * q, MPI_Status * st)
{
    int f = 0, r;
    while (1) {
        r = PMPI_Test(q, &f, st);
        if (r != MPI_SUCCESS || f)
            return r;
        tick_();
        sched_yield();
    }
}
static void tagcheck(int tag)
{
    if (tagub && tag > tagub)
        FAIL("mpi-tag", "PE %d: tag %d is beyond MPI_TAG_UB %d", hc_me, tag, tagub);
}
int MPI_Isend(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm comm, MPI_Request * q)
{
    tagcheck(tag);
    tick_();
    int r = sync_send() ? PMPI_Issend(b, c, t, d, tag, comm, q) : PMPI_Isend(b, c, t, d, tag, comm, q);
    radd(*q);
    return r;
}
int MPI_Irecv(void *b, int c, MPI_Datatype t, int s, int tag, MPI_Comm comm, MPI_Request * q)
{
    tagcheck(tag);
    tick_();
    int r = PMPI_Irecv(b, c, t, s, tag, comm, q);
    radd(*q);
    return r;
}
int MPI_Send(const void *b, int c, MPI_Datatype t, int d, int tag, MPI_Comm comm)
{
    tagcheck(tag);
    MPI_Request q;
    tick_();
    int r = sync_send() ? PMPI_Issend(b, c, t, d, tag, comm, &q) : PMPI_Isend(b, c, t, d, tag, comm, &q);
    if (r == MPI_SUCCESS)
        r = await(&q, MPI_STATUS_IGNORE);
    tock_();
    return r;
}
int MPI_Recv(void *b, int c, MPI_Datatype t, int s, int tag, MPI_Comm comm, MPI_Status * st)
{
    tagcheck(tag);
    MPI_Request q;
    tick_();
    int r = PMPI_Irecv(b, c, t, s, tag, comm, &q);
    if (r == MPI_SUCCESS)
        r = await(&q, st);
    return r;
}
int MPI_Test(MPI_Request * q, int *f, MPI_Status * st)
{
    tick_();
    if (missed()) {
        *f = 0;
        return MPI_SUCCESS;
    }
    MPI_Request o = *q;
    int r = PMPI_Test(q, f, st);
    if (*f)
        rdel(o);
    tock_();
    return r;
}
int MPI_Testall(int n, MPI_Request * q, int *f, MPI_Status * st)
{
    tick_();
    if (missed()) {
        *f = 0;
        return MPI_SUCCESS;
    }
    MPI_Request *o = (MPI_Request *) malloc(sizeof(MPI_Request) * (size_t) (n + 1));
    memcpy(o, q, sizeof(MPI_Request) * (size_t) n);
    int r = PMPI_Testall(n, q, f, st);
    tock_();
    if (*f)
        for (int i = 0; i < n; i++)
            rdel(o[i]);
    free(o);
    return r;
}
int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *f)
{
    IN();
    OUT();
    int r = PMPI_Comm_get_attr(c, k, v, f);
    if (k == MPI_TAG_UB && *f && tagub) {
        tagub_ = tagub;
        *(int **) v = &tagub_;
    }
    return r;
}
int MPI_Wait(MPI_Request * q, MPI_Status * st)
{
    tick_();
    MPI_Request o = *q;
    int r = await(q, st);
    rdel(o);
    return r;
}
int MPI_Waitall(int n, MPI_Request * q, MPI_Status * st)
{
    for (int i = 0; i < n; i++)
        MPI_Wait(&q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
    return MPI_SUCCESS;
}
int MPI_Iprobe(int s, int tag, MPI_Comm comm, int *f, MPI_Status * st)
{
    tick_();
    if (missed()) {
        *f = 0;
        return MPI_SUCCESS;
    }
    return PMPI_Iprobe(s, tag, comm, f, st);
}
int MPI_Cancel(MPI_Request * q)
{
    return PMPI_Cancel(q);
}
int MPI_Request_free(MPI_Request * q)
{
    rdel(*q);
    return PMPI_Request_free(q);
}

/* ---- collectives: progress continues while they wait ---- */
#define COLL(call) do { MPI_Request q_; tick_(); int r_ = call; if (r_ != MPI_SUCCESS) return r_; \
    return await(&q_, MPI_STATUS_IGNORE); } while (0)
int MPI_Barrier(MPI_Comm c) { COLL(PMPI_Ibarrier(c, &q_)); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { COLL(PMPI_Ibcast(b, n, t, root, c, &q_)); }
int MPI_Allreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
    COLL(PMPI_Iallreduce(s, d, n, t, o, c, &q_));
}
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *d, int dn, MPI_Datatype dt, MPI_Comm c)
{
    COLL(PMPI_Iallgather(s, sn, st, d, dn, dt, c, &q_));
}
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *d, const int *dn, const int *ds, MPI_Datatype dt,
                   MPI_Comm c)
{
    COLL(PMPI_Iallgatherv(s, sn, st, d, dn, ds, dt, c, &q_));
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *d, int dn, MPI_Datatype dt, MPI_Comm c)
{
    COLL(PMPI_Ialltoall(s, sn, st, d, dn, dt, c, &q_));
}
#define ICOLL(call) do { tick_(); int r_ = call; radd(*q); return r_; } while (0)
int MPI_Ibarrier(MPI_Comm c, MPI_Request * q) { ICOLL(PMPI_Ibarrier(c, q)); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request * q)
{
    ICOLL(PMPI_Ibcast(b, n, t, root, c, q));
}
int MPI_Iallreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request * q)
{
    ICOLL(PMPI_Iallreduce(s, d, n, t, o, c, q));
}
int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *d, int dn, MPI_Datatype dt, MPI_Comm c,
                   MPI_Request * q)
{
    ICOLL(PMPI_Iallgather(s, sn, st, d, dn, dt, c, q));
}
int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype st, void *d, const int *dn, const int *ds, MPI_Datatype dt,
                    MPI_Comm c, MPI_Request * q)
{
    ICOLL(PMPI_Iallgatherv(s, sn, st, d, dn, ds, dt, c, q));
}
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *d, int dn, MPI_Datatype dt, MPI_Comm c,
                  MPI_Request * q)
{
    ICOLL(PMPI_Ialltoall(s, sn, st, d, dn, dt, c, q));
}

/* ---- handles ---- */
static void lv(long *c, long d)
{
    IN();
    *c += d;
    if (d > 0)
        n_made += d;
    OUT();
}
static void flush_held(void)
{
    IN();
    force_all();
    OUT();
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm * n) { tick_(); flush_held(); int r = PMPI_Comm_dup(c, n); lv(&live_comm, 1); return r; }
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm * n)
{
    tick_();
    flush_held();
    int r = PMPI_Comm_split(c, col, key, n);
    if (*n != MPI_COMM_NULL)
        lv(&live_comm, 1);
    return r;
}
/* pretends that the processes run on several nodes: HC_NODES of them, numbered in blocks (HC_NODEMAP=0), in turn (1) or
 * scattered (2) */
static int nodes_(void) { const char *e = getenv("HC_NODES"); return e ? atoi(e) : 1; }
static int node_(int pe, int nodes)
{
    const char *e = getenv("HC_NODEMAP");
    int m = e ? atoi(e) : 0, np;
    PMPI_Comm_size(MPI_COMM_WORLD, &np);
    return m == 0 ? pe / ((np + nodes - 1) / nodes) : m == 1 ? pe % nodes : (pe * 7 + 3) % 5 % nodes;
}
int MPI_Get_processor_name(char *s, int *n)
{
    int nodes = nodes_(), me;
    if (nodes < 2)
        return PMPI_Get_processor_name(s, n);
    PMPI_Comm_rank(MPI_COMM_WORLD, &me);
    *n = sprintf(s, "node%d", node_(me, nodes));
    return MPI_SUCCESS;
}
int MPI_Comm_split_type(MPI_Comm c, int ty, int key, MPI_Info i, MPI_Comm * n)
{
    tick_();
    flush_held();
    int me, nodes, r;
    PMPI_Comm_rank(MPI_COMM_WORLD, &me);
    nodes = nodes_();
    r = nodes > 1 && ty == MPI_COMM_TYPE_SHARED ? PMPI_Comm_split(c, node_(me, nodes), key, n) : PMPI_Comm_split_type(c, ty, key, i, n);
    if (*n != MPI_COMM_NULL)
        lv(&live_comm, 1);
    return r;
}
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm * n)
{
    tick_();
    flush_held();
    int r = PMPI_Comm_create_group(c, g, tag, n);
    if (*n != MPI_COMM_NULL)
        lv(&live_comm, 1);
    return r;
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm * n)
{
    tick_();
    flush_held();
    int r = PMPI_Comm_create(c, g, n);
    if (*n != MPI_COMM_NULL)
        lv(&live_comm, 1);
    return r;
}
int MPI_Comm_free(MPI_Comm * c) { tick_(); flush_held(); lv(&live_comm, -1); return PMPI_Comm_free(c); }
int MPI_Comm_group(MPI_Comm c, MPI_Group * g) { int r = PMPI_Comm_group(c, g); lv(&live_group, 1); return r; }
static int gnew(int r, MPI_Group * g)
{
    if (r == MPI_SUCCESS && *g != MPI_GROUP_EMPTY && *g != MPI_GROUP_NULL)
        lv(&live_group, 1);
    return r;
}
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group * o) { return gnew(PMPI_Group_incl(g, n, r, o), o); }
int MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group * o)
{
    return gnew(PMPI_Group_range_incl(g, n, r, o), o);
}
int MPI_Group_free(MPI_Group * g)
{
    if (*g != MPI_GROUP_EMPTY)
        lv(&live_group, -1);
    return PMPI_Group_free(g);
}
int MPI_Type_vector(int a, int b, int c, MPI_Datatype o, MPI_Datatype * n)
{
    int r = PMPI_Type_vector(a, b, c, o, n);
    if (r == MPI_SUCCESS)
        lv(&live_type, 1);
    return r;
}
int MPI_Type_contiguous(int a, MPI_Datatype o, MPI_Datatype * n)
{
    int r = PMPI_Type_contiguous(a, o, n);
    if (r == MPI_SUCCESS)
        lv(&live_type, 1);
    return r;
}
int MPI_Type_create_hvector(int a, int b, MPI_Aint c, MPI_Datatype o, MPI_Datatype * n)
{
    int r = PMPI_Type_create_hvector(a, b, c, o, n);
    if (r == MPI_SUCCESS)
        lv(&live_type, 1);
    return r;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint e, MPI_Datatype * n)
{
    int r = PMPI_Type_create_resized(o, lb, e, n);
    if (r == MPI_SUCCESS)
        lv(&live_type, 1);
    return r;
}
int MPI_Type_free(MPI_Datatype * t) { lv(&live_type, -1); return PMPI_Type_free(t); }
int MPI_Info_create(MPI_Info * i) { int r = PMPI_Info_create(i); lv(&live_info, 1); return r; }
int MPI_Info_free(MPI_Info * i) { lv(&live_info, -1); return PMPI_Info_free(i); }

long hc_mpi_made(void) { return n_made; }
long hc_mpi_live(const char *k)
{
    return !strcmp(k, "comm") ? live_comm : !strcmp(k, "group") ? live_group : !strcmp(k, "win") ? live_win :
        !strcmp(k, "type") ? live_type : !strcmp(k, "info") ? live_info : live_req;
}
long hc_fin_live[6];
int hc_fin_seen;

int MPI_Finalize(void)
{
    if (nwatch)
        last_look(NULL, (size_t) -1, MPI_COMM_WORLD, "MPI_Finalize");
    IN();
    force_all();
    long l[6] = { live_comm, live_group, live_win, live_type, live_info, live_req };
    memcpy(hc_fin_live, l, sizeof l);
    hc_fin_seen++;
    hc_stat("mpi_rma_held", n_held);
    hc_stat("mpi_rma_delivered_at_flush", n_forced);
    hc_stat("mpi_rma_delivered_late", n_late);
    hc_stat("mpi_rma_direct", n_direct);
    hc_stat("mpi_origin_snapshots", n_snap);
    hc_stat("mpi_test_missed", n_miss);
    hc_stat("mpi_sync_sends", n_ssend);
    hc_stat("mpi_delays", n_delay);
    OUT();
    return PMPI_Finalize();
}
