/* Startup, settings and queries (P16): every way to initialise, and what the library then says about itself. */
#include "hc.h"
#include <limits.h>
#define NSP 3
static char zdata[3000] = { 1 };
static char zbss[5000];
static int one_static;
static long word;
typedef struct { shmemx_space_t h; int att; char *p; size_t n; } sp_t;
static sp_t S[NSP];

static int prov = -1;
static const int LV[4] = { SHMEM_THREAD_SINGLE, SHMEM_THREAD_FUNNELED, SHMEM_THREAD_SERIALIZED, SHMEM_THREAD_MULTIPLE };

static void level(const char *who, int want, int got, int rc)
{
    int q = -1;
    shmem_query_thread(&q);
    STAT("level_answers", 1);
    if (q != got)
        FAIL("setup-level", "PE %d: %s(%d) provides %d, shmem_query_thread says %d", hc_me, who, want, got, q);
    if (rc != -1 && (rc == 0) != (want <= got))
        FAIL("setup-level-rc", "PE %d: %s(%d) provides %d and returns %d", hc_me, who, want, got, rc);
}
static int lib_max(void)
{
#if defined(HC_THREAD_MULTIPLE)
    return SHMEM_THREAD_MULTIPLE;
#else
    return SHMEM_THREAD_SERIALIZED;
#endif
}
static void init_once(int how, int want, const char *when, int mpi, int first)
{
    int got = -7, rc = -1;
    if (how == 0)
        shmem_init();
    else if (how == 1) {
        rc = shmem_init_thread(want, &got);
    } else
        start_pes(0);
    const char *who = how == 0 ? "shmem_init" : how == 1 ? "shmem_init_thread" : "start_pes";
    if (how == 1)
        level(who, want, got, rc);
    else
        shmem_query_thread(&got);
    if (got != LV[0] && got != LV[1] && got != LV[2] && got != LV[3])
        FAIL("setup-level", "PE %d: %s (%s) leaves thread level %d", hc_me, who, when, got);
    if (first) {
        prov = got;
        if (mpi >= 0)
            /* Open MPI: MPI_T_init_thread lowers what MPI_Query_thread answers, which is all the library can know */
            PMPI_Query_thread(&mpi);
        /* no less than both sides support; shmem_init is as shmem_init_thread(SINGLE) or better */
        int floor_ = how == 1 ? want : SHMEM_THREAD_SINGLE;
        if (floor_ > lib_max())
            floor_ = lib_max();
        if (mpi >= 0 && floor_ > mpi)
            floor_ = mpi;
        if (got < floor_)
            FAIL("setup-level", "PE %d: %s with level %d provides only %d where %d is supported", hc_me, who, want, got, floor_);
        if (mpi >= 0 && got > mpi)
            FAIL("setup-level", "PE %d: %s provides level %d, the MPI library was started with %d", hc_me, who, got, mpi);
        if (got > lib_max())
            FAIL("setup-level", "PE %d: %s provides level %d, the library was built for %d", hc_me, who, got, lib_max());
    } else if (got != prov)
        FAIL("setup-level", "PE %d: a further %s(%d) changes the level from %d to %d", hc_me, who, want, prov, got);
    COVER(1, how, want, got, mpi, first);
}
static void pes(const char *when)
{
    STAT("pe_answers", 4);
    if (shmem_my_pe() != hc_me || shmem_n_pes() != hc_np || _my_pe() != hc_me || _num_pes() != hc_np)
        FAIL("setup-pe", "PE %d of %d %s: shmem_my_pe %d, _my_pe %d, shmem_n_pes %d, _num_pes %d", hc_me, hc_np, when, shmem_my_pe(), _my_pe(),
             shmem_n_pes(), _num_pes());
    if (shmem_team_my_pe(SHMEM_TEAM_WORLD) != hc_me || shmem_team_n_pes(SHMEM_TEAM_WORLD) != hc_np)
        FAIL("setup-pe", "PE %d of %d %s: the world team says %d of %d", hc_me, hc_np, when, shmem_team_my_pe(SHMEM_TEAM_WORLD),
             shmem_team_n_pes(SHMEM_TEAM_WORLD));
}
static void names(void)
{
    int a = -1, b = -1;
    shmem_info_get_version(&a, &b);
    if (a != SHMEM_MAJOR_VERSION || b != SHMEM_MINOR_VERSION || a != _SHMEM_MAJOR_VERSION || b != _SHMEM_MINOR_VERSION)
        FAIL("setup-version", "PE %d: shmem_info_get_version gives %d.%d, the header %d.%d", hc_me, a, b, SHMEM_MAJOR_VERSION, SHMEM_MINOR_VERSION);
    char buf[SHMEM_MAX_NAME_LEN + 16];
    memset(buf, 0x5c, sizeof buf);
    shmem_info_get_name(buf);
    if (!memchr(buf, 0, SHMEM_MAX_NAME_LEN) || strcmp(buf, SHMEM_VENDOR_STRING))
        FAIL("setup-name", "PE %d: shmem_info_get_name gives '%.40s', the header says '%.40s'", hc_me, buf, SHMEM_VENDOR_STRING);
    for (int i = 0; i < 16; i++)
        if (buf[SHMEM_MAX_NAME_LEN + i] != 0x5c)
            FAIL("setup-name", "PE %d: shmem_info_get_name writes beyond SHMEM_MAX_NAME_LEN", hc_me);
    STAT("name_answers", 2);
}
static void acc(const void *p, int pe, int want, const char *what, long off)
{
    int in = pe >= 0 && pe < hc_np, w = want && in, g = shmem_addr_accessible(p, pe);
    STAT("access_answers", 1);
    COVER(2, what[0] * 256 + what[1], pe < 0 ? -1 : pe >= hc_np ? -2 : pe == hc_me, w, off > 0);
    if ((g == 1) != w || (g != 0 && g != 1))
        FAIL(w ? "setup-accessible-no" : "setup-accessible-yes", "PE %d: shmem_addr_accessible(%s + %ld, PE %d of %d) is %d", hc_me, what, off, pe, hc_np, g);
    if (want && pe == hc_me && shmem_ptr(p, pe) != p)
        FAIL("setup-ptr", "PE %d: shmem_ptr(%s + %ld, self) is %p instead of %p", hc_me, what, off, shmem_ptr(p, pe), p);
}
static int some_pe(rng_t * r)
{
    switch (rndn(r, 8)) {
        case 0: return -1;
        case 1: return hc_np;
        case 2: return rndn(r, 2) ? INT_MAX : INT_MIN;
        case 3: return (int) rnd(r);
        case 4: return hc_me;
        default: return (int) rndn(r, (uint64_t) hc_np);
    }
}
static void range(rng_t * r, char *p, size_t n, int want, const char *what)
{
    acc(p, some_pe(r), want, what, 0);
    acc(p + n - 1, some_pe(r), want, what, (long) n - 1);
    long o = (long) rndn(r, n);
    acc(p + o, (int) rndn(r, (uint64_t) hc_np), want, what, o);
}
/* what no window exposes cannot be reached: addresses just outside every exposed region */
static void edges(rng_t * r)
{
    char *b, *c;
    long n, m;
    for (int i = 0; hc_region(i, &b, &n); i++) {
        const long off[6] = { n, n + (long) rndn(r, 16), -1, -1 - (long) rndn(r, 16), n + (long) rndn(r, 4096), -1 - (long) rndn(r, 4096) };
        for (int k = 0; k < 6; k++) {
            char *p = b + off[k];
            int seen = 0;
            for (int j = 0; hc_region(j, &c, &m); j++)
                seen |= p >= c && p < c + m;
            if (!seen) {
                acc(p, (int) rndn(r, (uint64_t) hc_np), 0, "exposed memory", off[k]);
                STAT("edge_answers", 1);
            }
        }
    }
}
static void queries(rng_t * r, char *heapblk, size_t n)
{
    static const char *const SN[NSP] = { "space-a", "space-b", "space-c" };
    char stack[64];
    char *priv = malloc(5000), *big = malloc(3 << 20);
    for (int k = 0; k < 12; k++) {
        int pe = some_pe(r), in = pe >= 0 && pe < hc_np, g = shmem_pe_accessible(pe);
        STAT("access_answers", 1);
        if (g != in)
            FAIL("setup-pe-accessible", "PE %d: shmem_pe_accessible(%d) of %d is %d", hc_me, pe, hc_np, g);
    }
    range(r, zdata, sizeof zdata, 1, "data");
    range(r, zbss, sizeof zbss, 1, "bss");
    range(r, (char *) &one_static, sizeof one_static, 1, "int");
    range(r, heapblk, n, 1, "heap");
    range(r, stack, sizeof stack, 0, "stack");
    range(r, priv, 5000, 0, "private");
    range(r, big, 3 << 20, 0, "large private");
    acc(NULL, hc_me, 0, "null", 0);
    for (int i = 0; i < NSP; i++)
        if (S[i].p)
            range(r, S[i].p, S[i].n, S[i].att, SN[i]);
    edges(r);
    free(priv);
    free(big);
}
/* the whole configured heap can be allocated and reached */
static void whole(long heap)
{
    char *p = shmem_malloc((size_t) heap);
    if (!p) {
        FAIL("setup-heap-size", "PE %d: the configured heap of %ld bytes (%s) cannot give a block of that size, blocks of %ld and %ld: %p, %p", hc_me, heap, getenv("SHMEM_SYMMETRIC_SIZE"), heap - 4096, heap / 2, shmem_malloc((size_t) heap - 4096), shmem_malloc((size_t) heap / 2));
        return;
    }
    int to = (hc_me + 1) % hc_np, from = (hc_me + hc_np - 1) % hc_np;
    p[0] = p[heap - 1] = 0;
    p[heap / 2] = 0;
    shmem_barrier_all();
    char v = (char) (hc_me + 1);
    shmem_putmem(p, &v, 1, to);
    shmem_putmem(p + heap - 1, &v, 1, to);
    shmem_putmem(p + heap / 2, &v, 1, to);
    shmem_barrier_all();
    if (p[heap - 1] != from + 1 || p[heap / 2] != from + 1 || p[0] != from + 1)
        FAIL("setup-heap-reach", "PE %d: bytes of the configured heap of %ld bytes are not reached by puts", hc_me, heap);
    STAT("heap_checked", 1);
    shmem_free(p);
}
SCENARIO(setup)
{
    int how = (int) hc_arg("how", 0), want = LV[hc_arg("want", 0)], again = (int) hc_arg("again", 0), mpi = (int) hc_arg("mpi", -1);
    long heap = hc_arg("heap", 0);
    rng_t g = rng_of(50, 0), r = rng_of(51, (uint64_t) hc_me);
    if (mpi >= 0) {
        static const int ML[4] = { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
        int p;
        PMPI_Init_thread(NULL, NULL, ML[mpi], &p);

    }
    usleep((useconds_t) rndn(&r, 20000));
    init_once(how, want, "first", mpi, 1);
    hc_attach();
    pes("after the first initialisation");
    hc_tick("init");
    if (heap)
        whole(heap);
    size_t n = (size_t) rndr(&g, 1, heap && heap < 18000 ? heap / 2 : 9000);
    char *b = shmem_malloc(n);
    memset(b, 0x31 + hc_me, n);
    names();
    for (int k = 0; k < again; k++) {
        init_once((int) rndn(&r, 3), LV[rndn(&r, 4)], "again", mpi, 0);
        pes("after a repeated initialisation");
    }
    /* still the same heap and the same symmetric data */
    for (size_t i = 0; i < n; i++)
        if (b[i] != (char) (0x31 + hc_me)) {
            FAIL("setup-again", "PE %d: byte %zu of a block changed over repeated initialisation", hc_me, i);
            break;
        }
    queries(&r, b, n);
    int lap = (int) hc_arg("laps", 6);
    for (int k = 0; k < lap; k++) {
        int i = (int) rndn(&g, NSP);
        sp_t *s = &S[i];
        if (!s->p) {
            shmemx_space_config_t cf;
            memset(&cf, 0, sizeof cf);
            cf.sheap_size = (size_t) rndr(&g, 1, 40000);
            cf.num_contexts = (int) rndn(&g, 2);
            shmemx_space_create(cf, &s->h);
            s->n = (size_t) cf.sheap_size;
            s->p = shmemx_space_malloc(s->h, s->n);
            s->att = 0;
        } else if (!s->att) {
            if (rndn(&g, 4)) {
                shmemx_space_attach(s->h);
                s->att = 1;
            } else {
                shmem_free(s->p);
                shmemx_space_destroy(s->h);
                s->p = NULL;
            }
        } else {
            shmem_barrier_all();
            shmemx_space_detach(s->h);
            s->att = 0;
        }
        queries(&r, b, n);
        hc_tick("setup");
    }
    /* the answers are true: what is accessible can be updated everywhere */
    shmem_barrier_all();
    for (int i = 0; i < NSP; i++)
        if (S[i].p && S[i].att)
            for (int pe = 0; pe < hc_np; pe++)
                if (shmem_addr_accessible(S[i].p, pe)) {
                    char v = (char) (1 + pe);
                    if (hc_me == (pe + 1) % hc_np)
                        shmem_putmem(S[i].p, &v, 1, pe);
                }
    for (int pe = 0; pe < hc_np; pe++)
        if (shmem_addr_accessible(&word, pe))
            shmem_long_atomic_add(&word, 1, pe);
    shmem_barrier_all();
    if (word != hc_np)
        FAIL("setup-accessible-use", "PE %d: %ld of %d PEs could update an accessible word", hc_me, word, hc_np);
    for (int i = 0; i < NSP; i++)
        if (S[i].p) {
            if (S[i].att) {
                if (S[i].p[0] != (char) (1 + hc_me))
                    FAIL("setup-accessible-use", "PE %d: an accessible byte of a space was not updated", hc_me);
                shmemx_space_detach(S[i].h);
            }
            shmem_free(S[i].p);
            shmemx_space_destroy(S[i].h);
        }
    pes("at the end");
    shmem_free(b);
    hc_detach();
    shmem_finalize();
}
