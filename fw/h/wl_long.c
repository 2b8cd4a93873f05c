/* Long executions (P18): more operations than the messages the library sends have distinct tags, every one checked. */
#include "hc.h"
#define NPM 12
static long ctr[NPM], slot[NPM][8], strided[NPM][32];
static long buf[8], back[8];

SCENARIO(longrun)
{
    long n = hc_arg("n", 60000);
    if (hc_arg("level", 0) >= 0) {
        int p;
        shmem_init_thread((int) hc_arg("level", 0), &p);
    }
    hc_attach();
    rng_t r = rng_of(hc_me, 91);
    long mine[NPM] = { 0 }, cur[NPM] = { 0 };
    hc_barrier_poll();
    for (long i = 0; i < n; i++) {
        int q = (int) rndn(&r, (uint64_t) hc_np);
        if (i % 256 == 0) {
            hc_where("long", i, q, 0);
            hc_tick("long");
        }
        switch (rndn(&r, 8)) {
            case 0:
            case 1:
            case 2: {
                long v = rndr(&r, 1, 1 << 20), o = shmem_long_atomic_swap(&ctr[hc_me], v, q);
                if (o != cur[q])
                    FAIL("long-fetch", "PE %d, operation %ld: swap at PE %d returns %ld, the cell held %ld", hc_me, i, q, o, cur[q]);
                cur[q] = v;
                break;
            }
            case 3: {
                long o = shmem_long_atomic_compare_swap(&ctr[hc_me], cur[q], i, q);
                if (o != cur[q])
                    FAIL("long-fetch", "PE %d, operation %ld: compare-and-swap at PE %d returns %ld, the cell held %ld", hc_me, i, q, o, cur[q]);
                cur[q] = i;
                break;
            }
            case 4: {
                long o = shmem_long_atomic_fetch_add(&ctr[hc_me], 3, q);
                if (o != cur[q])
                    FAIL("long-fetch", "PE %d, operation %ld: fetch-add at PE %d returns %ld, the cell held %ld", hc_me, i, q, o, cur[q]);
                cur[q] += 3;
                break;
            }
            case 5:
                shmem_long_atomic_inc(&ctr[hc_me], q);
                cur[q]++;
                if (rndn(&r, 2))
                    shmem_fence();
                else
                    shmem_quiet();
                break;
            case 6:
                for (int k = 0; k < 8; k++)
                    buf[k] = i * 8 + k;
                shmem_long_put(slot[hc_me], buf, 8, q);
                if (rndn(&r, 2))
                    shmem_quiet();
                else
                    shmem_fence();
                mine[q] = i;
                break;
            case 7:
                shmem_quiet();
                if (mine[q]) {
                    if (rndn(&r, 2))
                        shmem_long_get(back, slot[hc_me], 8, q);
                    else
                        shmem_long_iget(back, slot[hc_me], 1, 1, 8, q);
                    for (int k = 0; k < 8; k++)
                        if (back[k] != mine[q] * 8 + k)
                            FAIL("long-data", "PE %d, operation %ld: element %d at PE %d is %ld, %ld was put", hc_me, i, k, q, back[k], mine[q] * 8 + k);
                }
                for (int k = 0; k < 32; k++)
                    buf[k % 8] = i;
                shmem_long_iput(strided[hc_me], buf, 4, 1, 8, q);
                break;
        }
        STAT("operations", 1);
    }
    COVER(n / 4096, hc_np);
    shmem_barrier_all();
    hc_detach();
    shmem_finalize();
}
