/* Locks (P08). */
#include "sops.h"
#define NL 8
/* per lock, outside the library */
typedef struct {
    int holder;                 /* PE + 1 */
    int claim;                  /* PEs between the start of an acquisition and the end of the release */
    unsigned seq;               /* acquisitions so far */
    unsigned acts;              /* starts and ends of claims */
    int dt, dreg, last;         /* where the protected data are, and who wrote them */
    unsigned ver;
    long pad[8];
} ext_t;
static long slocks[NL][4];
static char *heaplocks, *splocks;
static long *lock_at(int k)
{
    switch (k % 3) {
        case 0: return (long *) heaplocks + k * 2;
        case 1: return &slocks[k][k & 3];
        default: return splocks ? (long *) splocks + k * 3 : (long *) heaplocks + k * 2 + 1;
    }
}
#define DW 16                   /* words of protected data per lock and region */
static uint64_t dword(unsigned ver, int i) { return hc_mix(ver * 64u + (unsigned) i) | 1; }

static ext_t *ext;
static void acquired(int k, const char *how)
{
    int z = 0;
    if (!__atomic_compare_exchange_n(&ext[k].holder, &z, hc_me + 1, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
        FAIL("mutual-exclusion", "PE %d got lock %d by %s while PE %d holds it", hc_me, k, how, z - 1);
    __atomic_add_fetch(&ext[k].seq, 1, __ATOMIC_SEQ_CST);
    STAT("acquisitions", 1);
}
static void released(int k)
{
    int z = hc_me + 1;
    if (!__atomic_compare_exchange_n(&ext[k].holder, &z, 0, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
        FAIL("mutual-exclusion", "PE %d releases lock %d, now held by PE %d", hc_me, k, z - 1);
}
static void claim(int k, int d)
{
    __atomic_add_fetch(&ext[k].claim, d, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&ext[k].acts, 1, __ATOMIC_SEQ_CST);
}
/* protected data: words 0..DW-1 of slot k at PE ext.dt region ext.dreg (plus an atomic counter at word DW-1 of slot 32+k) */
static void critical(rng_t * j, int k)
{
    ext_t *e = &ext[k];
    uint64_t w[DW];
    int dt = e->dt, dreg = e->dreg;
    char *p = slot_at(dreg, k);
    if (dt == hc_me && rndn(j, 2))
        memcpy(w, p, sizeof w);
    else
        shmem_getmem(w, p, sizeof w, dt);
    for (int i = 0; i < DW; i++)
        if (w[i] != dword(e->ver, i)) {
            FAIL("lock-data", "holder PE %d of lock %d (acquisition %u) reads word %d of version %u written by PE %d to PE %d region %d: "
                 "%llx, expected %llx", hc_me, k, e->seq, i, e->ver, e->last, dt, dreg, (unsigned long long) w[i],
                 (unsigned long long) dword(e->ver, i));
            break;
        }
    uint64_t c = shmem_uint64_atomic_fetch((uint64_t *) slot_at(dreg, 32 + k), dt);
    if (c != e->ver)
        FAIL("lock-data", "holder PE %d of lock %d: the counter at PE %d region %d kept by the holders is %llu, expected %u", hc_me, k,
             dt, dreg, (unsigned long long) c, e->ver);
    STAT("handovers", 1);
    COVER(7, k, e->last, hc_me, dt, dreg);
    /* the data move now and then, with their counter */
    if (rndn(j, 6) == 0) {
        e->dt = dt = (int) rndn(j, (uint64_t) hc_np);
        e->dreg = dreg = (int) rndn(j, (uint64_t) W.nreg);
        p = slot_at(dreg, k);
        shmem_uint64_atomic_set((uint64_t *) slot_at(dreg, 32 + k), e->ver, dt);
        shmem_fence();
    }
    e->ver++;
    e->last = hc_me;
    static uint64_t src[64][DW];
    static int sk;
    uint64_t *s = src[sk++ & 63];
    for (int i = 0; i < DW; i++)
        s[i] = dword(e->ver, i);
    switch (rndn(j, 6)) {
        case 0: shmem_putmem(p, s, sizeof w, dt); break;
        case 1: shmem_putmem_nbi(p, s, sizeof w, dt); break;
        case 2:
            for (int i = 0; i < DW; i++)
                shmem_uint64_p((uint64_t *) p + i, s[i], dt);
            break;
        case 3:
            shmem_uint64_iput((uint64_t *) p, s, 2, 2, DW / 2, dt);
            shmem_uint64_iput((uint64_t *) p + 1, s + 1, 2, 2, DW / 2, dt);
            break;
        case 4:
            for (int i = 0; i < DW; i++)
                shmem_uint64_atomic_set((uint64_t *) p + i, s[i], dt);
            break;
        default:
            if (dt == hc_me)
                memcpy(p, s, sizeof w);
            else
                shmem_put64_nbi(p, s, DW, dt);
    }
    shmem_uint64_atomic_inc((uint64_t *) slot_at(dreg, 32 + k), dt);
    /* reach out to others while holding: they must serve it, wherever they wait */
    if (rndn(j, 3) == 0) {
        int t = (int) rndn(j, (uint64_t) hc_np);
        (void) shmem_int_atomic_fetch_inc((int *) slot_at(0, 60), t);
    }
    if (rndn(j, 4) == 0)
        hc_jitter(j);
}

SCENARIO(lock)
{
    shmem_init();
    hc_attach();
    world_open(64, (int) hc_arg("space", 1), 0);
    heaplocks = (char *) shmem_calloc(64, sizeof(long));
    if (W.nreg > 2) {
        splocks = (char *) shmemx_space_malloc(W.space, 64 * sizeof(long));
        if (splocks)
            memset(splocks, 0, 64 * sizeof(long));
    }
    ext = (ext_t *) hc_shared(sizeof(ext_t) * NL);
    long rounds = hc_arg("rounds", 4), per = hc_arg("per", 40);
    int nl = (int) hc_arg("locks", NL);
    for (long rd = 0; rd < rounds && !hc_max(hc_fails); rd++) {
        rng_t g = rng_of(110, (uint64_t) rd);
        int use = 1 + (int) rndn(&g, (uint64_t) nl), base = (int) rndn(&g, NL), try_only = (int) rndn(&g, 4) == 0;
        for (int k = 0; k < NL; k++) {
            int dt = (int) rndn(&g, (uint64_t) hc_np), dreg = (int) rndn(&g, (uint64_t) W.nreg);
            if (hc_me == 0) {
                ext[k].dt = dt;
                ext[k].dreg = dreg;
                ext[k].ver = 0;
                ext[k].last = -1;
            }
            if (dt == hc_me) {
                uint64_t z = 0;
                for (int i = 0; i < DW; i++)
                    ((uint64_t *) slot_at(dreg, k))[i] = dword(0, i);
                memcpy(slot_at(dreg, 32 + k), &z, 8);
            }
        }
        shmem_barrier_all();
        hc_barrier_poll();
        rng_t j = rng_of(111, (uint64_t) (rd * 64 + hc_me));
        unsigned got = 0;
        for (long n = 0; n < per; n++) {
            int k = (base + (int) rndn(&j, (uint64_t) use)) % NL, k2 = -1;
            long *l = lock_at(k);
            int how = try_only ? 1 : (int) rndn(&j, 4);
            if (how == 1) {
                /* try until taken */
                long tries = 0;
                hc_where("test_lock", rd, n, k);
                while (1) {
                    claim(k, 1);
                    unsigned a0 = __atomic_load_n(&ext[k].acts, __ATOMIC_SEQ_CST);
                    int alone = __atomic_load_n(&ext[k].claim, __ATOMIC_SEQ_CST) == 1;
                    int r = shmem_test_lock(l);
                    if (r == 0)
                        break;
                    if (alone && __atomic_load_n(&ext[k].acts, __ATOMIC_SEQ_CST) == a0)
                        FAIL("try-free", "shmem_test_lock on lock %d failed (%d) though nobody held or wanted it", k, r);
                    STAT("try_failed", 1);
                    claim(k, -1);
                    if (++tries > 20)
                        sched_yield();
                }
            } else {
                hc_where("set_lock", rd, n, k);
                claim(k, 1);
                shmem_set_lock(l);
            }
            acquired(k, how == 1 ? "shmem_test_lock" : "shmem_set_lock");
            if (rndn(&j, 5) == 0) {
                /* a second lock, taken in a fixed order */
                k2 = (base + (int) rndn(&j, (uint64_t) use)) % NL;
                if (k2 > k && k >= 0) {
                    hc_where("second lock", rd, n, k2);
                    claim(k2, 1);
                    shmem_set_lock(lock_at(k2));
                    acquired(k2, "shmem_set_lock");
                    critical(&j, k2);
                } else
                    k2 = -1;
            }
            critical(&j, k);
            if (rndn(&j, 3) == 0) {
                /* a held lock is not taken: not even by its holder's own try */
                int r = shmem_test_lock(l);
                if (r == 0) {
                    FAIL("try-held", "shmem_test_lock took lock %d, held by PE %d", k, hc_me);
                }
            }
            int first = k2 >= 0 && rndn(&j, 2) ? k2 : k, second = k2 >= 0 ? (first == k ? k2 : k) : -1;
            hc_where("clear_lock", rd, n, first);
            released(first);
            shmem_clear_lock(lock_at(first));
            claim(first, -1);
            if (second >= 0) {
                hc_where("clear_lock", rd, n, second);
                released(second);
                shmem_clear_lock(lock_at(second));
                claim(second, -1);
            }
            got++;
            if (rndn(&j, 3) == 0)
                hc_jitter(&j);
        }
        STAT("turns", got);
        hc_barrier_poll();
        /* all are free now: the first try takes each */
        for (int k = hc_me; k < NL; k += hc_np) {
            if (shmem_test_lock(lock_at(k)) != 0)
                FAIL("try-free", "lock %d is not free after everybody released it", k);
            else
                shmem_clear_lock(lock_at(k));
        }
        shmem_quiet();
        hc_barrier_poll();
        hc_tick("round");
    }
    hc_barrier_poll();
    shmem_free(heaplocks);
    if (splocks)
        shmem_free(splocks);
    world_close();
    hc_detach();
    shmem_finalize();
}
