/* Small remote operations on 128-byte slots of symmetric memory, with a model: used by the completion, ordering,
 * synchronisation, progress and finalize workloads. */
#ifndef SOPS_H
#define SOPS_H
#include "hc.h"
#include "rma_forms.h"
#include "amo_forms.h"
#define SLOT 128
#define MAXPE 16
typedef struct {
    char *mem[3];
    int nreg, nctx, ns;         /* ns: slots per region */
    shmem_ctx_t ctxs[4];
    shmemx_space_t space;
    unsigned char *model[MAXPE][3];
} world_t;
extern world_t W;
typedef struct {
    int amo;                    /* 1: atomic; 0: transfer */
    int form;
    int ctx;                    /* -1: plain call, 0: SHMEM_CTX_DEFAULT, k: context k-1 of the space */
    int org, t, reg, slot;
    long off, n, st;            /* transfer: byte offset in the slot, elements, remote stride */
    uint64_t seed;
    unsigned char val[16], cond[16];
    /* after issue */
    unsigned char *loc;         /* the local buffer (SLOT bytes) */
    unsigned char want[SLOT];   /* what loc must hold once complete (results) */
    int wantn;
} sop_t;
/* what may be picked */
#define S_PUT 1
#define S_NBI 2
#define S_IPUT 4
#define S_POST 8
#define S_FETCH 16             /* fetching atomics that modify */
#define S_AMONBI 32
#define S_GETNBI 64            /* non-blocking gets and fetches */
#define S_ALL 127
void world_open(int ns, int use_space, int nctx);   /* collective */
void world_close(void);
void sop_pick(rng_t * g, sop_t * s, int mask, int org, int t, int reg, int slot, int ctx);
void sop_issue(sop_t * s, unsigned char *loc);      /* loc: SLOT bytes, kept until completion */
int sop_reusable(const sop_t * s);                  /* may loc be overwritten already? */
int sop_has_result(const sop_t * s);
void sop_spoil(sop_t * s);                          /* overwrite loc */
void sop_check_result(sop_t * s, const char *key);
void sop_model(sop_t * s);                          /* apply to the model (every PE does this for every operation) */
const char *sop_str(const sop_t * s);
shmem_ctx_t sop_ctx(int ctx);
static inline char *slot_at(int reg, int slot) { return W.mem[reg] + (long) slot * SLOT; }
static inline unsigned char *slot_model(int t, int reg, int slot) { return W.model[t][reg] + (long) slot * SLOT; }
#endif
