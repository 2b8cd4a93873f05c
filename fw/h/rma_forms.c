#include "hc.h"
#include "types.h"
#include "rma_forms.h"
#define A shmem_ctx_t c, void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe
#define DEF(N, T) \
    static void put_##N(A) { shmem_##N##_put((T *) d, (const T *) s, n, pe); } \
    static void cput_##N(A) { shmem_ctx_##N##_put(c, (T *) d, (const T *) s, n, pe); } \
    static void get_##N(A) { shmem_##N##_get((T *) d, (const T *) s, n, pe); } \
    static void cget_##N(A) { shmem_ctx_##N##_get(c, (T *) d, (const T *) s, n, pe); } \
    static void putn_##N(A) { shmem_##N##_put_nbi((T *) d, (const T *) s, n, pe); } \
    static void cputn_##N(A) { shmem_ctx_##N##_put_nbi(c, (T *) d, (const T *) s, n, pe); } \
    static void getn_##N(A) { shmem_##N##_get_nbi((T *) d, (const T *) s, n, pe); } \
    static void cgetn_##N(A) { shmem_ctx_##N##_get_nbi(c, (T *) d, (const T *) s, n, pe); } \
    static void p_##N(A) { shmem_##N##_p((T *) d, *(const T *) s, pe); } \
    static void cp_##N(A) { shmem_ctx_##N##_p(c, (T *) d, *(const T *) s, pe); } \
    static void g_##N(A) { *(T *) d = shmem_##N##_g((const T *) s, pe); } \
    static void cg_##N(A) { *(T *) d = shmem_ctx_##N##_g(c, (const T *) s, pe); } \
    static void ip_##N(A) { shmem_##N##_iput((T *) d, (const T *) s, dst, sst, n, pe); } \
    static void cip_##N(A) { shmem_ctx_##N##_iput(c, (T *) d, (const T *) s, dst, sst, n, pe); } \
    static void ig_##N(A) { shmem_##N##_iget((T *) d, (const T *) s, dst, sst, n, pe); } \
    static void cig_##N(A) { shmem_ctx_##N##_iget(c, (T *) d, (const T *) s, dst, sst, n, pe); }
RMA_TYPES(DEF)
#define SDEF(W, B) \
    static void put_##W(A) { shmem_put##W(d, s, n, pe); } \
    static void cput_##W(A) { shmem_ctx_put##W(c, d, s, n, pe); } \
    static void get_##W(A) { shmem_get##W(d, s, n, pe); } \
    static void cget_##W(A) { shmem_ctx_get##W(c, d, s, n, pe); } \
    static void putn_##W(A) { shmem_put##W##_nbi(d, s, n, pe); } \
    static void cputn_##W(A) { shmem_ctx_put##W##_nbi(c, d, s, n, pe); } \
    static void getn_##W(A) { shmem_get##W##_nbi(d, s, n, pe); } \
    static void cgetn_##W(A) { shmem_ctx_get##W##_nbi(c, d, s, n, pe); } \
    static void ip_##W(A) { shmem_iput##W(d, s, dst, sst, n, pe); } \
    static void cip_##W(A) { shmem_ctx_iput##W(c, d, s, dst, sst, n, pe); } \
    static void ig_##W(A) { shmem_iget##W(d, s, dst, sst, n, pe); } \
    static void cig_##W(A) { shmem_ctx_iget##W(c, d, s, dst, sst, n, pe); }
RMA_SIZES(SDEF)
static void put_mem(A) { shmem_putmem(d, s, n, pe); }
static void cput_mem(A) { shmem_ctx_putmem(c, d, s, n, pe); }
static void get_mem(A) { shmem_getmem(d, s, n, pe); }
static void cget_mem(A) { shmem_ctx_getmem(c, d, s, n, pe); }
static void putn_mem(A) { shmem_putmem_nbi(d, s, n, pe); }
static void cputn_mem(A) { shmem_ctx_putmem_nbi(c, d, s, n, pe); }
static void getn_mem(A) { shmem_getmem_nbi(d, s, n, pe); }
static void cgetn_mem(A) { shmem_ctx_getmem_nbi(c, d, s, n, pe); }

enum { T0 = 0,
#define EN(N, T) T_##N,
    RMA_TYPES(EN)
#define EN2(N, T) W_##N,
    RMA_SIZES(EN2)
    T_mem };
#define VS(T) (sizeof(T) == 16 ? 10 : (int) sizeof(T))
#define R(pre, N, T, K, C) { #pre #N, K, (int) sizeof(T), VS(T), C, T_##N, pre##N },
#define ROW(N, T) R(put_, N, T, F_PUT, 0) R(cput_, N, T, F_PUT, 1) R(get_, N, T, F_GET, 0) R(cget_, N, T, F_GET, 1) \
    R(putn_, N, T, F_PUTNBI, 0) R(cputn_, N, T, F_PUTNBI, 1) R(getn_, N, T, F_GETNBI, 0) R(cgetn_, N, T, F_GETNBI, 1) \
    R(p_, N, T, F_P, 0) R(cp_, N, T, F_P, 1) R(g_, N, T, F_G, 0) R(cg_, N, T, F_G, 1) \
    R(ip_, N, T, F_IPUT, 0) R(cip_, N, T, F_IPUT, 1) R(ig_, N, T, F_IGET, 0) R(cig_, N, T, F_IGET, 1)
#define S(pre, W, B, K, C) { #pre #W, K, B, B, C, W_##W, pre##W },
#define SROW(W, B) S(put_, W, B, F_PUT, 0) S(cput_, W, B, F_PUT, 1) S(get_, W, B, F_GET, 0) S(cget_, W, B, F_GET, 1) \
    S(putn_, W, B, F_PUTNBI, 0) S(cputn_, W, B, F_PUTNBI, 1) S(getn_, W, B, F_GETNBI, 0) S(cgetn_, W, B, F_GETNBI, 1) \
    S(ip_, W, B, F_IPUT, 0) S(cip_, W, B, F_IPUT, 1) S(ig_, W, B, F_IGET, 0) S(cig_, W, B, F_IGET, 1)
#define M(pre, K, C) { #pre "mem", K, 1, 1, C, T_mem, pre##mem },
form_t forms[] = {
    RMA_TYPES(ROW) RMA_SIZES(SROW)
    M(put_, F_PUT, 0) M(cput_, F_PUT, 1) M(get_, F_GET, 0) M(cget_, F_GET, 1)
    M(putn_, F_PUTNBI, 0) M(cputn_, F_PUTNBI, 1) M(getn_, F_GETNBI, 0) M(cgetn_, F_GETNBI, 1)
};
int nforms = (int) (sizeof forms / sizeof forms[0]);
