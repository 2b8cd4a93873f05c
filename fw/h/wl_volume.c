/* Very many operations between two completion points, in numbers around powers of two (P03, P04, P09). */
#include "sops.h"
#define CELLS 4096              /* of each half: transfers below, additions above */
static const int counts[] = { 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096 };
static const int more[] = { 32768, 65535, 65536, 65537 };

static long *loc;               /* sources, CELLS; results, CELLS */
static long value(long rd, int o, int i) { return (rd + 1) * 1000003L + o * 131071L + i * 3L + 1; }

enum { V_P, V_PUT, V_NBI, V_ADD, V_MIX, V_GETNBI, V_INC, V_PGET, NV };
static const char *vname[] = { "p", "put", "put_nbi", "add", "put_nbi and add", "get_nbi", "inc", "p and get_nbi" };

static void issue(int kind, int c, long *mem, int i, int t)
{
    int j = i % CELLS;
    shmem_ctx_t x = sop_ctx(c);
    int k = kind == V_MIX ? (i & 1 ? V_ADD : V_NBI) : kind == V_PGET ? (i & 1 ? V_GETNBI : V_P) : kind;
    switch (k) {
        case V_P: c < 0 ? shmem_long_p(mem + j, loc[j], t) : shmem_ctx_long_p(x, mem + j, loc[j], t); break;
        case V_PUT: c < 0 ? shmem_long_put(mem + j, loc + j, 1, t) : shmem_ctx_long_put(x, mem + j, loc + j, 1, t); break;
        case V_NBI: c < 0 ? shmem_long_put_nbi(mem + j, loc + j, 1, t) : shmem_ctx_long_put_nbi(x, mem + j, loc + j, 1, t); break;
        case V_ADD: c < 0 ? shmem_long_atomic_add(mem + CELLS + j, 3, t) : shmem_ctx_long_atomic_add(x, mem + CELLS + j, 3, t); break;
        case V_INC: c < 0 ? shmem_long_atomic_inc(mem + CELLS + j, t) : shmem_ctx_long_atomic_inc(x, mem + CELLS + j, t); break;
        case V_GETNBI:
            c < 0 ? shmem_long_get_nbi(loc + CELLS + j, mem + 2 * CELLS + j, 1, t) : shmem_ctx_long_get_nbi(x, loc + CELLS + j, mem + 2 * CELLS + j, 1, t);
            break;
    }
}
/* which cells the first n operations on each target wrote, got or added to */
static int wrote(int kind, int i) { return kind == V_P || kind == V_PUT || kind == V_NBI || ((kind == V_MIX || kind == V_PGET) && !(i & 1)); }
static int got(int kind, int i) { return kind == V_GETNBI || (kind == V_PGET && (i & 1)); }
static int added(int kind, int i) { return kind == V_ADD ? 3 : kind == V_INC ? 1 : kind == V_MIX && (i & 1) ? 3 : 0; }

SCENARIO(volume)
{
    int sp = (int) hc_arg("space", 1), fence = (int) hc_arg("fence", 0);
    long rounds = hc_arg("rounds", 8);
    shmem_init();
    hc_attach();
    world_open(3 * CELLS * (int) sizeof(long) / SLOT + 1, sp, 2);
    loc = malloc(2 * CELLS * sizeof(long));
    long *sum = malloc(CELLS * sizeof(long));
    for (long rd = 0; rd < rounds && !(rd % 4 == 0 && hc_max(hc_fails)); rd++) {
        rng_t g = rng_of(80, (uint64_t) rd);
        int org = (int) rndn(&g, (uint64_t) hc_np), t = (int) rndn(&g, (uint64_t) hc_np), all = rndn(&g, 4) == 0;
        int kind = (int) rndn(&g, NV), big = rndn(&g, 8) == 0 && (kind == V_P || kind == V_NBI || kind == V_ADD || kind == V_MIX);
        int n = big ? more[rndn(&g, sizeof more / sizeof *more)] : counts[rndn(&g, sizeof counts / sizeof *counts)];
        if (big && hc_arg("slow", 0))
            n = 4096;
        if (all && n > 1024)
            all = 0;
        int c = W.nctx && rndn(&g, 3) == 0 ? 1 + (int) rndn(&g, (uint64_t) W.nctx) : -(int) rndn(&g, 2);
        int reg = c > 0 ? 2 : (int) rndn(&g, (uint64_t) W.nreg), how = (int) rndn(&g, 3);
        if (fence && t == org)
            t = (t + 1) % hc_np;
        long *mem = (long *) W.mem[reg];
        memset(mem, 0, 2 * CELLS * sizeof(long));
        for (int j = 0; j < CELLS; j++)
            mem[2 * CELLS + j] = value(rd, hc_me, j + 7);
        long *flag = mem + 3 * CELLS;   /* the update after the fence, on the same context */
        *flag = 0;
        hc_barrier_poll();
        if (org == hc_me) {
            hc_shim_pause(0);
            for (int j = 0; j < CELLS; j++) {
                loc[j] = value(rd, org, j);
                loc[CELLS + j] = -1;
            }
            for (int i = 0; i < n; i++) {
                if (i % 64 == 0)
                    hc_where(vname[kind], n, t, reg);
                if (all)
                    for (int p = 0; p < hc_np; p++)
                        issue(kind, c, mem, i, p);
                else
                    issue(kind, c, mem, i, t);
            }
            hc_where(fence ? "fence" : "quiet", n, kind, c);
            if (fence) {
                if (c > 0)
                    shmem_ctx_fence(sop_ctx(c));
                else
                    shmem_fence();
                if (c > 0)
                    shmem_ctx_long_p(sop_ctx(c), flag, rd + 1, t);
                else
                    shmem_long_p(flag, rd + 1, t);
                STAT("fences", 1);
            } else {
                if (c > 0)
                    shmem_ctx_quiet(sop_ctx(c));
                else if (how)
                    shmem_quiet();
                else
                    shmem_ctx_quiet(SHMEM_CTX_DEFAULT);
                STAT("quiets", 1);
                for (int p = 0; p < hc_np; p++)
                    if (p != hc_me)
                        hc_send(p, rd);
                int last = all ? hc_np - 1 : t;
                for (int j = 0; j < CELLS; j++) {
                    int g = 0;
                    for (int i = j; i < n; i += CELLS)
                        g |= got(kind, i);
                    if (g && !all && loc[CELLS + j] != value(rd, last, j + 7))
                        FAIL("quiet-result", "after %d of %s to PE %d: result %d is %ld", n, vname[kind], last, j, loc[CELLS + j]);
                }
                memset(loc, 0x5e, CELLS * sizeof(long));
            }
            STAT("ops", n);
            COVER(30, kind, n, all, c > 0, reg, t == org, fence);
        }
        int mine = all ? 1 : t == hc_me;
        if (fence)
            mine = t == hc_me;
        if (fence && org == hc_me) {
            /* it has to arrive in the end */
            for (int q = (int) rndn(&g, 20); q > 0; q--)
                hc_poll();
            shmem_quiet();
            for (int x = 0; x < W.nctx; x++)
                shmem_ctx_quiet(W.ctxs[x]);
        }
        if (!fence && org != hc_me)
            hc_recv_poll(org);
        if (fence && mine) {
            hc_where("watch for the later update", rd, n, org);
            while (*(volatile long *) flag != rd + 1)
                hc_poll();
        }
        __asm__ volatile ("":::"memory");
        if (mine) {
            memset(sum, 0, CELLS * sizeof(long));
            for (int i = 0; i < n; i++)
                sum[i % CELLS] += added(kind, i);
            for (int j = 0; j < CELLS; j++) {
                int w = 0;
                for (int i = j; i < n; i += CELLS)
                    w |= wrote(kind, i);
                long want = w ? value(rd, org, j) : 0;
                if (mem[j] != want) {
                    FAIL(fence ? "fence-order" : "quiet-incomplete", "PE %d: of %d %s of PE %d, number %d has not arrived (%ld) %s", hc_me, n, vname[kind], org, j,
                         mem[j], fence ? "when an update after the fence has" : "when the origin's quiet has returned");
                    break;
                }
                if (mem[CELLS + j] != sum[j]) {
                    FAIL(fence ? "fence-order" : "quiet-incomplete", "PE %d: of %d %s of PE %d, cell %d holds %ld, not %ld %s", hc_me, n, vname[kind], org, j,
                         mem[CELLS + j], sum[j], fence ? "when an update after the fence has arrived" : "when the origin's quiet has returned");
                    break;
                }
            }
            STAT("checks", 2 * CELLS);
        }
        hc_barrier_poll();
        hc_tick("round");
    }
    free(loc);
    free(sum);
    world_close();
    hc_detach();
    shmem_finalize();
}
