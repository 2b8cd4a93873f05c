/* Harness core: seeded randomness, logging, heartbeats and an out-of-band control plane for the workloads. */
#ifndef HC_H
#define HC_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stddef.h>
#include <complex.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <mpi.h>
#include <shmem.h>
#include <shmemx.h>

extern int hc_me, hc_np;
extern uint64_t hc_seed;
extern int hc_fails;

typedef struct { uint64_t s; } rng_t;
static inline uint64_t hc_mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t rnd(rng_t * r)
{
    r->s += 0x9e3779b97f4a7c15ULL;
    return hc_mix(r->s);
}
/* in [0,n) */
static inline uint64_t rndn(rng_t * r, uint64_t n) { return n ? rnd(r) % n : 0; }
/* in [a,b] */
static inline long rndr(rng_t * r, long a, long b) { return a + (long) rndn(r, (uint64_t) (b - a + 1)); }
static inline rng_t rng_of(uint64_t a, uint64_t b)
{
    rng_t r = { hc_mix(hc_mix(hc_seed ^ hc_mix(a)) ^ b) };
    return r;
}

/* arguments are key=value */
long hc_arg(const char *name, long dflt);
const char *hc_args(const char *name, const char *dflt);

void hc_open(int argc, char **argv);     /* before shmem_init: finds the rank from the launcher's environment */
void *hc_shared(size_t n);               /* zero-filled memory shared by the PEs, outside the library; once per run */
uint64_t hc_now(void);                   /* ns, same clock on all PEs */
void hc_attach(void);                    /* after shmem_init: control communicator */
void hc_detach(void);                    /* before shmem_finalize */
extern int hc_late, hc_status;           /* the scenario calls hc_done itself, at exit; main returns this */
void hc_done(void);                      /* at the very end: marks the rank's log complete */

void hc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void hc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define FAIL(key, ...) hc_fail(key, __VA_ARGS__)
void hc_stat(const char *name, long add);
#define STAT(name, n) hc_stat(name, n)
void hc_cover(uint64_t h);               /* one distinct situation observed */
uint64_t hc_hash(int n, ...);            /* of n longs */
#define COVER(...) hc_cover(hc_hash(HC_NARG(__VA_ARGS__), HC_CAST(__VA_ARGS__)))
#define HC_NARG(...) HC_NARG_(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1)
#define HC_NARG_(a, b, c, d, e, f, g, h, n, ...) n
#define HC_CAST(...) HC_CAST_(__VA_ARGS__, 0, 0, 0, 0, 0, 0, 0, 0)
#define HC_CAST_(a, b, c, d, e, f, g, h, ...) (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f), (long)(g), (long)(h)

/* nodes that the interposed MPI pretends there are (HC_NODES, HC_NODEMAP), and the one a PE is on */
extern int hc_nodes;
int hc_node(int pe);
void hc_tick(const char *what);          /* heartbeat: real progress was made */
void hc_where(const char *what, long a, long b, long c);  /* recorded for the witness, no heartbeat */

/* control plane: plain MPI on a private communicator, invisible to the library */
extern MPI_Comm hc_comm;
void hc_barrier(void);                   /* no SHMEM progress while waiting */
void hc_barrier_poll(void);              /* makes SHMEM progress while waiting */
void hc_send(int to, long v);
long hc_recv(int from);                  /* no SHMEM progress while waiting */
int hc_probe(int from);                  /* is there a message? */
long hc_recv_poll(int from);             /* with SHMEM progress */
long hc_max(long v);
long hc_sum(long v);
void hc_jitter(rng_t * r);               /* small random pause */
void hc_shim_pause(int on);              /* stop / restart the adversary (the monitors stay) */
/* what the library holds: private heap blocks and bytes; MPI objects ("comm", "group", "win", "type", "info", "req") */
long hc_alloc_live(void);
long hc_alloc_bytes(void);
long hc_mpi_live(const char *kind);
long hc_mpi_made(void);
extern long hc_fin_live[6];              /* the latter at MPI_Finalize */
extern int hc_fin_seen;
void hc_leaks(void);
void hc_watch(void *p, size_t n, void *copy);   /* copy it in the last moment in which remote updates can reach it */
int hc_region(int i, char **b, long *n);
const char *hc_watched(void *p);         /* which moment that was; NULL: not yet */
void hc_poll(void);                      /* one non-blocking SHMEM progress step through the public API */

static inline void hc_fill(void *p, size_t n, uint64_t seed)
{
    unsigned char *c = (unsigned char *) p;
    for (size_t i = 0; i < n; i++)
        c[i] = (unsigned char) (hc_mix(seed + (i >> 3)) >> (8 * (i & 7)));
}
static inline unsigned char hc_byte(uint64_t seed, size_t i)
{
    return (unsigned char) (hc_mix(seed + (i >> 3)) >> (8 * (i & 7)));
}
/* position of the first difference, -1 if none */
static inline long hc_diff(const void *a, const void *b, size_t n)
{
    if (memcmp(a, b, n) == 0)
        return -1;
    for (size_t i = 0; i < n; i++)
        if (((const unsigned char *) a)[i] != ((const unsigned char *) b)[i])
            return (long) i;
    return -1;
}

typedef struct { const char *name; void (*fn) (void); } hc_scn_t;
#define SCENARIO(nm) void scn_##nm(void); \
    __attribute__((constructor)) static void reg_##nm(void) { hc_register(#nm, scn_##nm); } \
    void scn_##nm(void)
void hc_register(const char *name, void (*fn) (void));
#endif
