#include "hc.h"
#include "types.h"
#include "amo_forms.h"
#define A shmem_ctx_t c, void *d, const void *v, const void *k, void *f, int pe
#define EXT(N, T) \
    static void fet_##N(A) { *(T *) f = shmem_##N##_atomic_fetch((const T *) d, pe); } \
    static void cfet_##N(A) { *(T *) f = shmem_ctx_##N##_atomic_fetch(c, (const T *) d, pe); } \
    static void dfet_##N(A) { *(T *) f = shmem_##N##_fetch((const T *) d, pe); } \
    static void nfet_##N(A) { shmem_##N##_atomic_fetch_nbi((T *) f, (const T *) d, pe); } \
    static void cnfet_##N(A) { shmem_ctx_##N##_atomic_fetch_nbi(c, (T *) f, (const T *) d, pe); } \
    static void set_##N(A) { shmem_##N##_atomic_set((T *) d, *(const T *) v, pe); } \
    static void cset_##N(A) { shmem_ctx_##N##_atomic_set(c, (T *) d, *(const T *) v, pe); } \
    static void dset_##N(A) { shmem_##N##_set((T *) d, *(const T *) v, pe); } \
    static void swap_##N(A) { *(T *) f = shmem_##N##_atomic_swap((T *) d, *(const T *) v, pe); } \
    static void cswp_##N(A) { *(T *) f = shmem_ctx_##N##_atomic_swap(c, (T *) d, *(const T *) v, pe); } \
    static void dswap_##N(A) { *(T *) f = shmem_##N##_swap((T *) d, *(const T *) v, pe); } \
    static void nswap_##N(A) { shmem_##N##_atomic_swap_nbi((T *) f, (T *) d, *(const T *) v, pe); } \
    static void cnswap_##N(A) { shmem_ctx_##N##_atomic_swap_nbi(c, (T *) f, (T *) d, *(const T *) v, pe); }
AMO_EXT_TYPES(EXT)
#define STD(N, T) \
    static void cas_##N(A) { *(T *) f = shmem_##N##_atomic_compare_swap((T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void ccas_##N(A) { *(T *) f = shmem_ctx_##N##_atomic_compare_swap(c, (T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void dcas_##N(A) { *(T *) f = shmem_##N##_cswap((T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void ncas_##N(A) { shmem_##N##_atomic_compare_swap_nbi((T *) f, (T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void cncas_##N(A) { shmem_ctx_##N##_atomic_compare_swap_nbi(c, (T *) f, (T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void finc_##N(A) { *(T *) f = shmem_##N##_atomic_fetch_inc((T *) d, pe); } \
    static void cfinc_##N(A) { *(T *) f = shmem_ctx_##N##_atomic_fetch_inc(c, (T *) d, pe); } \
    static void dfinc_##N(A) { *(T *) f = shmem_##N##_finc((T *) d, pe); } \
    static void nfinc_##N(A) { shmem_##N##_atomic_fetch_inc_nbi((T *) f, (T *) d, pe); } \
    static void cnfinc_##N(A) { shmem_ctx_##N##_atomic_fetch_inc_nbi(c, (T *) f, (T *) d, pe); } \
    static void inc_##N(A) { shmem_##N##_atomic_inc((T *) d, pe); } \
    static void cinc_##N(A) { shmem_ctx_##N##_atomic_inc(c, (T *) d, pe); } \
    static void dinc_##N(A) { shmem_##N##_inc((T *) d, pe); } \
    static void fadd_##N(A) { *(T *) f = shmem_##N##_atomic_fetch_add((T *) d, *(const T *) v, pe); } \
    static void cfadd_##N(A) { *(T *) f = shmem_ctx_##N##_atomic_fetch_add(c, (T *) d, *(const T *) v, pe); } \
    static void dfadd_##N(A) { *(T *) f = shmem_##N##_fadd((T *) d, *(const T *) v, pe); } \
    static void nfadd_##N(A) { shmem_##N##_atomic_fetch_add_nbi((T *) f, (T *) d, *(const T *) v, pe); } \
    static void cnfadd_##N(A) { shmem_ctx_##N##_atomic_fetch_add_nbi(c, (T *) f, (T *) d, *(const T *) v, pe); } \
    static void add_##N(A) { shmem_##N##_atomic_add((T *) d, *(const T *) v, pe); } \
    static void cadd_##N(A) { shmem_ctx_##N##_atomic_add(c, (T *) d, *(const T *) v, pe); } \
    static void dadd_##N(A) { shmem_##N##_add((T *) d, *(const T *) v, pe); }
AMO_STD_TYPES(STD)
#define BITF(N, T, o) \
    static void o##_##N(A) { shmem_##N##_atomic_##o((T *) d, *(const T *) v, pe); } \
    static void c##o##_##N(A) { shmem_ctx_##N##_atomic_##o(c, (T *) d, *(const T *) v, pe); } \
    static void f##o##_##N(A) { *(T *) f = shmem_##N##_atomic_fetch_##o((T *) d, *(const T *) v, pe); } \
    static void cf##o##_##N(A) { *(T *) f = shmem_ctx_##N##_atomic_fetch_##o(c, (T *) d, *(const T *) v, pe); } \
    static void nf##o##_##N(A) { shmem_##N##_atomic_fetch_##o##_nbi((T *) f, (T *) d, *(const T *) v, pe); } \
    static void cnf##o##_##N(A) { shmem_ctx_##N##_atomic_fetch_##o##_nbi(c, (T *) f, (T *) d, *(const T *) v, pe); }
#define BIT(N, T) BITF(N, T, and) BITF(N, T, or) BITF(N, T, xor)
AMO_BIT_TYPES(BIT)

enum {
#define EN(N, T) T_##N,
    AMO_EXT_TYPES(EN)
};
#define TKOF(T) _Generic((T) 0, float: TK_F, double: TK_F, default: ((T) -1 < (T) 0 ? TK_S : TK_U))
#define R(fn, op, fe, nb, cx, N, T) { #fn, op, fe, nb, cx, (int) sizeof(T), TKOF(T), T_##N, fn },
#define REXT(N, T) \
    R(fet_##N, A_FETCH, 1, 0, 0, N, T) R(cfet_##N, A_FETCH, 1, 0, 1, N, T) R(dfet_##N, A_FETCH, 1, 0, 0, N, T) \
    R(nfet_##N, A_FETCH, 1, 1, 0, N, T) R(cnfet_##N, A_FETCH, 1, 1, 1, N, T) \
    R(set_##N, A_SET, 0, 0, 0, N, T) R(cset_##N, A_SET, 0, 0, 1, N, T) R(dset_##N, A_SET, 0, 0, 0, N, T) \
    R(swap_##N, A_SWAP, 1, 0, 0, N, T) R(cswp_##N, A_SWAP, 1, 0, 1, N, T) R(dswap_##N, A_SWAP, 1, 0, 0, N, T) \
    R(nswap_##N, A_SWAP, 1, 1, 0, N, T) R(cnswap_##N, A_SWAP, 1, 1, 1, N, T)
#define RSTD(N, T) \
    R(cas_##N, A_CSWAP, 1, 0, 0, N, T) R(ccas_##N, A_CSWAP, 1, 0, 1, N, T) R(dcas_##N, A_CSWAP, 1, 0, 0, N, T) \
    R(ncas_##N, A_CSWAP, 1, 1, 0, N, T) R(cncas_##N, A_CSWAP, 1, 1, 1, N, T) \
    R(finc_##N, A_INC, 1, 0, 0, N, T) R(cfinc_##N, A_INC, 1, 0, 1, N, T) R(dfinc_##N, A_INC, 1, 0, 0, N, T) \
    R(nfinc_##N, A_INC, 1, 1, 0, N, T) R(cnfinc_##N, A_INC, 1, 1, 1, N, T) \
    R(inc_##N, A_INC, 0, 0, 0, N, T) R(cinc_##N, A_INC, 0, 0, 1, N, T) R(dinc_##N, A_INC, 0, 0, 0, N, T) \
    R(fadd_##N, A_ADD, 1, 0, 0, N, T) R(cfadd_##N, A_ADD, 1, 0, 1, N, T) R(dfadd_##N, A_ADD, 1, 0, 0, N, T) \
    R(nfadd_##N, A_ADD, 1, 1, 0, N, T) R(cnfadd_##N, A_ADD, 1, 1, 1, N, T) \
    R(add_##N, A_ADD, 0, 0, 0, N, T) R(cadd_##N, A_ADD, 0, 0, 1, N, T) R(dadd_##N, A_ADD, 0, 0, 0, N, T)
#define RB(o, O, N, T) \
    R(o##_##N, O, 0, 0, 0, N, T) R(c##o##_##N, O, 0, 0, 1, N, T) R(f##o##_##N, O, 1, 0, 0, N, T) \
    R(cf##o##_##N, O, 1, 0, 1, N, T) R(nf##o##_##N, O, 1, 1, 0, N, T) R(cnf##o##_##N, O, 1, 1, 1, N, T)
#define RBIT(N, T) RB(and, A_AND, N, T) RB(or, A_OR, N, T) RB(xor, A_XOR, N, T)
amo_t amos[] = { AMO_EXT_TYPES(REXT) AMO_STD_TYPES(RSTD) AMO_BIT_TYPES(RBIT) };
int namos = (int) (sizeof amos / sizeof amos[0]);
const char *amo_opname[] = { "fetch", "set", "swap", "compare-swap", "inc", "add", "and", "or", "xor" };

static uint64_t ld(int es, const void *p)
{
    uint64_t x = 0;
    memcpy(&x, p, (size_t) es); /* little endian */
    return x;
}
void amo_apply(const amo_t * a, void *nw, const void *old, const void *v, const void *cond)
{
    uint64_t o = ld(a->es, old), x = ld(a->es, v), k = ld(a->es, cond), n = o;
    switch (a->op) {
        case A_FETCH: break;
        case A_SET: case A_SWAP: n = x; break;
        case A_CSWAP: n = o == k ? x : o; break;
        case A_INC: n = o + 1; break;
        case A_ADD: n = o + x; break;
        case A_AND: n = o & x; break;
        case A_OR: n = o | x; break;
        case A_XOR: n = o ^ x; break;
    }
    memcpy(nw, &n, (size_t) a->es);
}
void amo_value(const amo_t * a, void *v, uint64_t bits)
{
    uint64_t x = hc_mix(bits);
    if (a->tk == TK_F) {
        /* finite, never NaN: values are moved, not computed with */
        double d = (double) (int64_t) (x >> 12) / 1024.0 * ((x & 1) ? 1 : -1);
        if (a->es == 4) {
            float f = (float) d;
            memcpy(v, &f, 4);
        } else
            memcpy(v, &d, 8);
        return;
    }
    if (a->op == A_ADD && a->tk == TK_S) {
        int64_t s = (int64_t) (x % 2001) - 1000;
        memcpy(v, &s, (size_t) a->es);
        return;
    }
    switch (bits % 5) {
        case 0: x &= 0xff; break;
        case 1: x = ~(x & 0xff); break;
        default: break;
    }
    if (a->tk == TK_S) {
        /* keep room for later additions: a quarter of the range either side of zero */
        int64_t s = (int64_t) (x << (64 - 8 * a->es)) >> (64 - 8 * a->es);
        s /= 4;
        memcpy(v, &s, (size_t) a->es);
        return;
    }
    memcpy(v, &x, (size_t) a->es);
}
