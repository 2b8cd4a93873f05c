#define _GNU_SOURCE
#include "hc.h"
#include <stdarg.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/stat.h>

int hc_me = -1, hc_np = 0, hc_fails = 0;
uint64_t hc_seed = 1;
MPI_Comm hc_comm = MPI_COMM_NULL;

static int hc_argc;
static char **hc_argv;
static FILE *logf_;
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;

/* shared with the driver: it reads the heartbeat to tell a stall from a slow run */
typedef struct { volatile uint64_t beat; volatile uint64_t done; volatile long a, b, c; char what[96]; } beat_t;
static beat_t nobeat, *beat = &nobeat;

#define MAXSCN 64
static hc_scn_t scns[MAXSCN];
static int nscn;
void hc_register(const char *name, void (*fn) (void))
{
    scns[nscn].name = name;
    scns[nscn++].fn = fn;
}

const char *hc_args(const char *name, const char *dflt)
{
    size_t l = strlen(name);
    for (int i = 1; i < hc_argc; i++)
        if (!strncmp(hc_argv[i], name, l) && hc_argv[i][l] == '=')
            return hc_argv[i] + l + 1;
    return dflt;
}
long hc_arg(const char *name, long dflt)
{
    const char *s = hc_args(name, NULL);
    return s ? strtol(s, NULL, 0) : dflt;
}

void hc_open(int argc, char **argv)
{
    hc_argc = argc;
    hc_argv = argv;
    /* never outlive the launcher, nor the driver's patience */
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    alarm(900);
    hc_seed = (uint64_t) hc_arg("seed", 1);
    const char *r = getenv("OMPI_COMM_WORLD_RANK"), *n = getenv("OMPI_COMM_WORLD_SIZE"), *o = getenv("HC_OUT");
    hc_me = r ? atoi(r) : 0;
    hc_np = n ? atoi(n) : 1;
    hc_nodes = getenv("HC_NODES") ? atoi(getenv("HC_NODES")) : 1;
    if (o) {
        char p[600];
        snprintf(p, sizeof p, "%s/r%d.log", o, hc_me);
        logf_ = fopen(p, "w");
        if (!logf_) {
            perror(p);
            _exit(97);
        }
        snprintf(p, sizeof p, "%s/r%d.beat", o, hc_me);
        int fd = open(p, O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void *m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED)
                beat = (beat_t *) m;
            close(fd);
        }
    } else
        logf_ = stdout;
}

/* as the interposed MPI has it (shim.c) */
int hc_nodes = 1;
int hc_node(int pe)
{
    const char *e = getenv("HC_NODEMAP");
    int m = e ? atoi(e) : 0;
    return hc_nodes < 2 ? 0 : m == 0 ? pe / ((hc_np + hc_nodes - 1) / hc_nodes) : m == 1 ? pe % hc_nodes : (pe * 7 + 3) % 5 % hc_nodes;
}

/* zero-filled memory shared by all PEs of the run, outside the library */
void *hc_shared(size_t n)
{
    const char *o = getenv("HC_OUT");
    char p[600];
    snprintf(p, sizeof p, "%s/shared", o ? o : ".");
    int fd = open(p, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, (off_t) n) != 0)
        _exit(97);
    void *m = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (m == MAP_FAILED)
        _exit(97);
    return m;
}
uint64_t hc_now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t) t.tv_sec * 1000000000u + (uint64_t) t.tv_nsec;
}

void hc_attach(void) { PMPI_Comm_dup(MPI_COMM_WORLD, &hc_comm); }
void hc_detach(void)
{
    if (hc_comm != MPI_COMM_NULL)
        PMPI_Comm_free(&hc_comm);
}

/* ---- statistics ---- */
#define MAXSTAT 512
static struct { char name[56]; long v; } stats[MAXSTAT];
static int nstat;
void hc_stat(const char *name, long add)
{
    pthread_mutex_lock(&lk);
    int i;
    for (i = 0; i < nstat; i++)
        if (!strcmp(stats[i].name, name))
            break;
    if (i == nstat && nstat < MAXSTAT)
        snprintf(stats[nstat++].name, sizeof stats[0].name, "%s", name);
    if (i < MAXSTAT)
        stats[i].v += add;
    pthread_mutex_unlock(&lk);
}
#define COVN 65536
static uint64_t cov[COVN];
static int ncov;
void hc_cover(uint64_t h)
{
    if (!h)
        h = 1;
    pthread_mutex_lock(&lk);
    if (ncov < COVN / 2) {
        uint64_t i = h % COVN;
        while (cov[i] && cov[i] != h)
            i = (i + 1) % COVN;
        if (!cov[i]) {
            cov[i] = h;
            ncov++;
        }
    }
    pthread_mutex_unlock(&lk);
}
uint64_t hc_hash(int n, ...)
{
    va_list ap;
    uint64_t h = (uint64_t) n;
    va_start(ap, n);
    for (int i = 0; i < n; i++)
        h = hc_mix(h ^ (uint64_t) va_arg(ap, long));
    va_end(ap);
    return h;
}

void hc_fail(const char *key, const char *fmt, ...)
{
    va_list ap;
    pthread_mutex_lock(&lk);
    if (hc_fails++ < 40) {
        fprintf(logf_, "FAIL %s | rank %d: ", key, hc_me);
        va_start(ap, fmt);
        vfprintf(logf_, fmt, ap);
        va_end(ap);
        fprintf(logf_, "\n");
        fflush(logf_);
    }
    pthread_mutex_unlock(&lk);
}
void hc_note(const char *fmt, ...)
{
    va_list ap;
    pthread_mutex_lock(&lk);
    fprintf(logf_, "NOTE ");
    va_start(ap, fmt);
    vfprintf(logf_, fmt, ap);
    va_end(ap);
    fprintf(logf_, "\n");
    fflush(logf_);
    pthread_mutex_unlock(&lk);
}
void hc_done(void)
{
    if (hc_arg("leaks", 0))
        hc_leaks();
    for (int i = 0; i < nstat; i++)
        fprintf(logf_, "STAT %s %ld\n", stats[i].name, stats[i].v);
    for (int i = 0; i < COVN; i++)
        if (cov[i])
            fprintf(logf_, "COV %016lx\n", (unsigned long) cov[i]);
    fprintf(logf_, "DONE %d\n", hc_fails);
    fflush(logf_);
    beat->done = 1;
}

void hc_tick(const char *what)
{
    __atomic_fetch_add(&beat->beat, 1, __ATOMIC_RELAXED);
    snprintf(beat->what, sizeof beat->what, "%s", what);
}
void hc_where(const char *what, long a, long b, long c)
{
    snprintf(beat->what, sizeof beat->what, "%s", what);
    beat->a = a;
    beat->b = b;
    beat->c = c;
}

/* ---- control plane ---- */
static void nap(void)
{
    sched_yield();
}
void hc_poll(void)
{
    static long word;
    /* a data-segment word is symmetric; a test that fails is the smallest call that makes progress */
    (void) shmem_long_test(&word, SHMEM_CMP_EQ, 1L);
}
static void spin_req(MPI_Request * q, int poll)
{
    int f = 0;
    while (1) {
        PMPI_Test(q, &f, MPI_STATUS_IGNORE);
        if (f)
            return;
        if (poll)
            hc_poll();
        nap();
    }
}
void hc_barrier(void)
{
    MPI_Request q;
    PMPI_Ibarrier(hc_comm, &q);
    spin_req(&q, 0);
}
void hc_barrier_poll(void)
{
    MPI_Request q;
    PMPI_Ibarrier(hc_comm, &q);
    spin_req(&q, 1);
}
void hc_send(int to, long v)
{
    PMPI_Send(&v, 1, MPI_LONG, to, 7, hc_comm);
}
int hc_probe(int from)
{
    int f = 0;
    PMPI_Iprobe(from, 7, hc_comm, &f, MPI_STATUS_IGNORE);
    return f;
}
static long recv_(int from, int poll)
{
    long v;
    MPI_Request q;
    PMPI_Irecv(&v, 1, MPI_LONG, from, 7, hc_comm, &q);
    spin_req(&q, poll);
    return v;
}
long hc_recv(int from) { return recv_(from, 0); }
long hc_recv_poll(int from) { return recv_(from, 1); }
static long red(long v, MPI_Op op)
{
    long o;
    MPI_Request q;
    PMPI_Iallreduce(&v, &o, 1, MPI_LONG, op, hc_comm, &q);
    spin_req(&q, 0);
    return o;
}
long hc_max(long v) { return red(v, MPI_MAX); }
long hc_sum(long v) { return red(v, MPI_SUM); }
void hc_jitter(rng_t * r)
{
    uint64_t k = rndn(r, 16);
    if (k < 9)
        return;
    if (k < 14) {
        for (uint64_t i = 0; i < (k - 8) * 3; i++)
            nap();
    } else
        usleep((useconds_t) rndn(r, 300));
}

/* ---- the library's heap accounting (mon_alloc.h) ---- */
static long live, live_bytes, n_alloc, map_bytes;
#define LIVEN 4096
typedef struct blk { struct blk *next; void *p; size_t n; } blk_t;
static blk_t *blks[LIVEN];
static void live_add(void *p, size_t n)
{
    if (!p)
        return;
    blk_t *b = malloc(sizeof *b);
    b->p = p;
    b->n = n;
    blk_t **h = &blks[hc_mix((uint64_t) (uintptr_t) p) % LIVEN];
    pthread_mutex_lock(&lk);
    b->next = *h;
    *h = b;
    live++;
    n_alloc++;
    live_bytes += (long) n;
    pthread_mutex_unlock(&lk);
}
static int live_del(void *p)
{
    blk_t **h = &blks[hc_mix((uint64_t) (uintptr_t) p) % LIVEN], *b;
    pthread_mutex_lock(&lk);
    while (*h && (*h)->p != p)
        h = &(*h)->next;
    b = *h;
    if (b) {
        *h = b->next;
        live--;
        live_bytes -= (long) b->n;
    }
    pthread_mutex_unlock(&lk);
    free(b);
    return b != NULL;
}
long hc_alloc_live(void) { return live; }
long hc_alloc_bytes(void) { return live_bytes; }
/* sizes of what is still live, for the report */
static const char *live_list(void)
{
    static char s[200];
    int k = 0;
    s[0] = 0;
    for (int i = 0; i < LIVEN && k < 160; i++)
        for (blk_t * b = blks[i]; b && k < 160; b = b->next)
            k += snprintf(s + k, sizeof s - (size_t) k, "%s%zu", k ? "," : "", b->n);
    return s;
}
void *mon_mmap(void *a, size_t n, int p, int f, int fd, long o);
int mon_munmap(void *a, size_t n);
void *mon_mmap(void *a, size_t n, int p, int f, int fd, long o)
{
    void *r = mmap(a, n, p, f, fd, o);
    if (r != MAP_FAILED) {
        pthread_mutex_lock(&lk);
        map_bytes += (long) n;
        pthread_mutex_unlock(&lk);
    }
    return r;
}
int mon_munmap(void *a, size_t n)
{
    int r = munmap(a, n);
    if (r == 0 && a != MAP_FAILED) {
        pthread_mutex_lock(&lk);
        map_bytes -= (long) n;
        pthread_mutex_unlock(&lk);
    }
    return r;
}
/* after shmem_finalize: everything the library acquired is back (P21) */
void hc_leaks(void)
{
    static const char *N[6] = { "communicators", "groups", "windows", "datatypes", "info-objects", "requests" };
    if (!hc_fin_seen) {
        FAIL("leak:mpi", "PE %d: shmem_finalize did not finalize MPI", hc_me);
        return;
    }
    for (int i = 0; i < 6; i++)
        if (hc_fin_live[i] > 0)
            FAIL("leak:mpi", "PE %d: %ld MPI %s of the library not released when it finalized MPI", hc_me, hc_fin_live[i], N[i]);
    if (live > 0)
        FAIL("leak:heap", "PE %d: %ld private heap blocks (%ld bytes; sizes %s) not freed by the end of finalize", hc_me, live,
             live_bytes, live_list());
    if (map_bytes > 0)
        FAIL("leak:map", "PE %d: %ld bytes of mapped memory not released by the end of finalize", hc_me, map_bytes);
    STAT("finalizes_audited", 1);
    STAT("heap_blocks_acquired", n_alloc);
    STAT("mpi_objects_acquired", hc_mpi_made());
}
/* make use of uninitialised memory visible; not under memcheck, which tracks it itself */
static void scar(void *p, size_t n)
{
    static int off = -1;
    if (off < 0)
        off = getenv("HC_NOJUNK") != NULL;
    if (!off)
        memset(p, 0xA5, n > 65536 ? 65536 : n);
}
void *mon_malloc(size_t n);
void *mon_calloc(size_t n, size_t m);
void *mon_realloc(void *p, size_t n);
void mon_free(void *p);
void *mon_malloc(size_t n)
{
    void *p = malloc(n);
    if (p)
        scar(p, n);   /* malloc promises no contents */
    live_add(p, n);
    return p;
}
void *mon_calloc(size_t n, size_t m)
{
    void *p = calloc(n, m);
    live_add(p, n * m);
    return p;
}
void *mon_realloc(void *p, size_t n)
{
    if (p)
        live_del(p);
    void *q = realloc(p, n);
    live_add(q, n);
    return q;
}
int mon_posix_memalign(void **p, size_t a, size_t n);
void *mon_aligned_alloc(size_t a, size_t n);
char *mon_strdup(const char *s);
int mon_posix_memalign(void **p, size_t a, size_t n)
{
    int rc = posix_memalign(p, a, n);
    if (rc == 0) {
        scar(*p, n);
        live_add(*p, n);
    }
    return rc;
}
void *mon_aligned_alloc(size_t a, size_t n)
{
    void *p = aligned_alloc(a, n);
    if (p)
        scar(p, n);
    live_add(p, n);
    return p;
}
char *mon_strdup(const char *s)
{
    char *p = strdup(s);
    live_add(p, strlen(s) + 1);
    return p;
}
void mon_free(void *p)
{
    if (p)
        live_del(p);
    free(p);
}

int hc_late, hc_status;
int main(int argc, char **argv)
{
    hc_open(argc, argv);
    const char *s = argc > 1 ? argv[1] : "";
    for (int i = 0; i < nscn; i++)
        if (!strcmp(scns[i].name, s)) {
            scns[i].fn();
            if (!hc_late)
                hc_done();
            return hc_status;
        }
    fprintf(stderr, "no scenario '%s'\n", s);
    return 98;
}

/* Open MPI and PMIx unload their plug-ins in MPI_Finalize while their own progress threads may still be running code of them,
   which now and then ends a process that is all done; the plug-ins stay. */
__attribute__((visibility("default"), used)) int dlclose(void *h)
{
    (void) h;
    return 0;
}
