/* Compiled on its own: in this file's object every shmem_* routine is reached through a trampoline that records it. */
#include "hc.h"
#include "gforms.h"
#ifdef HC_NO_GENERIC
int hc_nogeneric = 1;
gform_t gforms[1]; gamo_t gamos[1]; gcoll_t gcolls[1]; gp2p_t gp2ps[1];
int ngforms, ngamos, ngcolls, ngp2ps;
void gsync_team(shmem_team_t t) { shmem_team_sync(t); }
void gsync_set(int s, int l, int z, long *P) { (void) s; (void) l; (void) z; (void) P; }
#else
int hc_nogeneric = 0;
/* the types of the specification's C11 bindings */
#define RT(X) X(float, float) X(double, double) X(longdouble, long double) X(char, char) X(schar, signed char) X(short, short) \
    X(int, int) X(long, long) X(longlong, long long) X(uchar, unsigned char) X(ushort, unsigned short) X(uint, unsigned int) \
    X(ulong, unsigned long) X(ulonglong, unsigned long long)
#define ST(X) X(int, int) X(long, long) X(longlong, long long) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long)
#define ET(X) X(float, float) X(double, double) ST(X)
#define BT(X) X(uint, unsigned int) X(ulong, unsigned long) X(ulonglong, unsigned long long)
#define PT(X) X(short, short) X(int, int) X(long, long) X(longlong, long long) X(ushort, unsigned short) X(uint, unsigned int) \
    X(ulong, unsigned long) X(ulonglong, unsigned long long)
/* the fixed-width and size types are the same types again on this platform: called through their own names all the same */
#define RT2(X) RT(X) X(int8, int8_t) X(int16, int16_t) X(int32, int32_t) X(int64, int64_t) X(uint8, uint8_t) X(uint16, uint16_t) \
    X(uint32, uint32_t) X(uint64, uint64_t) X(size, size_t) X(ptrdiff, ptrdiff_t)
#define ST2(X) ST(X) X(int32, int32_t) X(int64, int64_t) X(uint32, uint32_t) X(uint64, uint64_t) X(size, size_t) X(ptrdiff, ptrdiff_t)
#define ET2(X) X(float, float) X(double, double) ST2(X)
#define BT2(X) BT(X) X(uint32, uint32_t) X(uint64, uint64_t)
#define PT2(X) PT(X) X(int32, int32_t) X(int64, int64_t) X(uint32, uint32_t) X(uint64, uint64_t) X(size, size_t) X(ptrdiff, ptrdiff_t)

#define A shmem_ctx_t c, void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe
#define RDEF(N, T) \
    static void put_##N(A) { shmem_put((T *) d, (const T *) s, n, pe); } \
    static void cput_##N(A) { shmem_put(c, (T *) d, (const T *) s, n, pe); } \
    static void get_##N(A) { shmem_get((T *) d, (const T *) s, n, pe); } \
    static void cget_##N(A) { shmem_get(c, (T *) d, (const T *) s, n, pe); } \
    static void putn_##N(A) { shmem_put_nbi((T *) d, (const T *) s, n, pe); } \
    static void cputn_##N(A) { shmem_put_nbi(c, (T *) d, (const T *) s, n, pe); } \
    static void getn_##N(A) { shmem_get_nbi((T *) d, (const T *) s, n, pe); } \
    static void cgetn_##N(A) { shmem_get_nbi(c, (T *) d, (const T *) s, n, pe); } \
    static void p_##N(A) { shmem_p((T *) d, *(const T *) s, pe); } \
    static void cp_##N(A) { shmem_p(c, (T *) d, *(const T *) s, pe); } \
    static void g_##N(A) { *(T *) d = shmem_g((T *) s, pe); } \
    static void cg_##N(A) { *(T *) d = shmem_g(c, (T *) s, pe); } \
    static void ip_##N(A) { shmem_iput((T *) d, (const T *) s, dst, sst, n, pe); } \
    static void cip_##N(A) { shmem_iput(c, (T *) d, (const T *) s, dst, sst, n, pe); } \
    static void ig_##N(A) { shmem_iget((T *) d, (const T *) s, dst, sst, n, pe); } \
    static void cig_##N(A) { shmem_iget(c, (T *) d, (const T *) s, dst, sst, n, pe); }
RT2(RDEF)
#define VS(T) (sizeof(T) == 16 ? 10 : (int) sizeof(T))
#define R(pre, N, T, K, C, op) { { "generic " op "(" #T ")", K, (int) sizeof(T), VS(T), C, -1, pre##N }, op, #N },
#define RROW(N, T) R(put_, N, T, F_PUT, 0, "put") R(cput_, N, T, F_PUT, 1, "put") R(get_, N, T, F_GET, 0, "get") R(cget_, N, T, F_GET, 1, "get") \
    R(putn_, N, T, F_PUTNBI, 0, "put_nbi") R(cputn_, N, T, F_PUTNBI, 1, "put_nbi") R(getn_, N, T, F_GETNBI, 0, "get_nbi") R(cgetn_, N, T, F_GETNBI, 1, "get_nbi") \
    R(p_, N, T, F_P, 0, "p") R(cp_, N, T, F_P, 1, "p") R(g_, N, T, F_G, 0, "g") R(cg_, N, T, F_G, 1, "g") \
    R(ip_, N, T, F_IPUT, 0, "iput") R(cip_, N, T, F_IPUT, 1, "iput") R(ig_, N, T, F_IGET, 0, "iget") R(cig_, N, T, F_IGET, 1, "iget")
gform_t gforms[] = { RT2(RROW) };
int ngforms = (int) (sizeof gforms / sizeof gforms[0]);
#undef A
#undef R

#define A shmem_ctx_t c, void *d, const void *v, const void *k, void *f, int pe
#define V (*(const T *) v)
#define EXT(N, T) \
    static void fet_##N(A) { *(T *) f = shmem_atomic_fetch((T *) d, pe); } \
    static void cfet_##N(A) { *(T *) f = shmem_atomic_fetch(c, (T *) d, pe); } \
    static void dfet_##N(A) { *(T *) f = shmem_fetch((T *) d, pe); } \
    static void nfet_##N(A) { shmem_atomic_fetch_nbi((T *) f, (T *) d, pe); } \
    static void cnfet_##N(A) { shmem_atomic_fetch_nbi(c, (T *) f, (T *) d, pe); } \
    static void set_##N(A) { shmem_atomic_set((T *) d, *(const T *) v, pe); } \
    static void cset_##N(A) { shmem_atomic_set(c, (T *) d, *(const T *) v, pe); } \
    static void dset_##N(A) { shmem_set((T *) d, *(const T *) v, pe); } \
    static void swap_##N(A) { *(T *) f = shmem_atomic_swap((T *) d, *(const T *) v, pe); } \
    static void cswp_##N(A) { *(T *) f = shmem_atomic_swap(c, (T *) d, *(const T *) v, pe); } \
    static void dswap_##N(A) { *(T *) f = shmem_swap((T *) d, *(const T *) v, pe); } \
    static void nswap_##N(A) { shmem_atomic_swap_nbi((T *) f, (T *) d, *(const T *) v, pe); } \
    static void cnswap_##N(A) { shmem_atomic_swap_nbi(c, (T *) f, (T *) d, *(const T *) v, pe); }
ET2(EXT)
#define STD(N, T) \
    static void cas_##N(A) { *(T *) f = shmem_atomic_compare_swap((T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void ccas_##N(A) { *(T *) f = shmem_atomic_compare_swap(c, (T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void dcas_##N(A) { *(T *) f = shmem_cswap((T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void ncas_##N(A) { shmem_atomic_compare_swap_nbi((T *) f, (T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void cncas_##N(A) { shmem_atomic_compare_swap_nbi(c, (T *) f, (T *) d, *(const T *) k, *(const T *) v, pe); } \
    static void finc_##N(A) { *(T *) f = shmem_atomic_fetch_inc((T *) d, pe); } \
    static void cfinc_##N(A) { *(T *) f = shmem_atomic_fetch_inc(c, (T *) d, pe); } \
    static void dfinc_##N(A) { *(T *) f = shmem_finc((T *) d, pe); } \
    static void nfinc_##N(A) { shmem_atomic_fetch_inc_nbi((T *) f, (T *) d, pe); } \
    static void cnfinc_##N(A) { shmem_atomic_fetch_inc_nbi(c, (T *) f, (T *) d, pe); } \
    static void inc_##N(A) { shmem_atomic_inc((T *) d, pe); } \
    static void cinc_##N(A) { shmem_atomic_inc(c, (T *) d, pe); } \
    static void dinc_##N(A) { shmem_inc((T *) d, pe); } \
    static void fadd_##N(A) { *(T *) f = shmem_atomic_fetch_add((T *) d, *(const T *) v, pe); } \
    static void cfadd_##N(A) { *(T *) f = shmem_atomic_fetch_add(c, (T *) d, *(const T *) v, pe); } \
    static void dfadd_##N(A) { *(T *) f = shmem_fadd((T *) d, *(const T *) v, pe); } \
    static void nfadd_##N(A) { shmem_atomic_fetch_add_nbi((T *) f, (T *) d, *(const T *) v, pe); } \
    static void cnfadd_##N(A) { shmem_atomic_fetch_add_nbi(c, (T *) f, (T *) d, *(const T *) v, pe); } \
    static void add_##N(A) { shmem_atomic_add((T *) d, *(const T *) v, pe); } \
    static void cadd_##N(A) { shmem_atomic_add(c, (T *) d, *(const T *) v, pe); } \
    static void dadd_##N(A) { shmem_add((T *) d, *(const T *) v, pe); }
ST2(STD)
#define BITF(N, T, o) \
    static void o##_##N(A) { shmem_atomic_##o((T *) d, *(const T *) v, pe); } \
    static void c##o##_##N(A) { shmem_atomic_##o(c, (T *) d, *(const T *) v, pe); } \
    static void f##o##_##N(A) { *(T *) f = shmem_atomic_fetch_##o((T *) d, *(const T *) v, pe); } \
    static void cf##o##_##N(A) { *(T *) f = shmem_atomic_fetch_##o(c, (T *) d, *(const T *) v, pe); } \
    static void nf##o##_##N(A) { shmem_atomic_fetch_##o##_nbi((T *) f, (T *) d, *(const T *) v, pe); } \
    static void cnf##o##_##N(A) { shmem_atomic_fetch_##o##_nbi(c, (T *) f, (T *) d, *(const T *) v, pe); }
#define BIT(N, T) BITF(N, T, and) BITF(N, T, or) BITF(N, T, xor)
BT2(BIT)
#define TKOF(T) _Generic((T) 0, float: TK_F, double: TK_F, default: ((T) -1 < (T) 0 ? TK_S : TK_U))
#define R(fn, op, fe, nb, cx, N, T, nm) { { "generic " nm "(" #T ")", op, fe, nb, cx, (int) sizeof(T), TKOF(T), -1, fn }, nm, #N },
#define REXT(N, T) \
    R(fet_##N, A_FETCH, 1, 0, 0, N, T, "atomic_fetch") R(cfet_##N, A_FETCH, 1, 0, 1, N, T, "atomic_fetch") R(dfet_##N, A_FETCH, 1, 0, 0, N, T, "fetch") \
    R(nfet_##N, A_FETCH, 1, 1, 0, N, T, "atomic_fetch_nbi") R(cnfet_##N, A_FETCH, 1, 1, 1, N, T, "atomic_fetch_nbi") \
    R(set_##N, A_SET, 0, 0, 0, N, T, "atomic_set") R(cset_##N, A_SET, 0, 0, 1, N, T, "atomic_set") R(dset_##N, A_SET, 0, 0, 0, N, T, "set") \
    R(swap_##N, A_SWAP, 1, 0, 0, N, T, "atomic_swap") R(cswp_##N, A_SWAP, 1, 0, 1, N, T, "atomic_swap") R(dswap_##N, A_SWAP, 1, 0, 0, N, T, "swap") \
    R(nswap_##N, A_SWAP, 1, 1, 0, N, T, "atomic_swap_nbi") R(cnswap_##N, A_SWAP, 1, 1, 1, N, T, "atomic_swap_nbi")
#define RSTD(N, T) \
    R(cas_##N, A_CSWAP, 1, 0, 0, N, T, "atomic_compare_swap") R(ccas_##N, A_CSWAP, 1, 0, 1, N, T, "atomic_compare_swap") R(dcas_##N, A_CSWAP, 1, 0, 0, N, T, "cswap") \
    R(ncas_##N, A_CSWAP, 1, 1, 0, N, T, "atomic_compare_swap_nbi") R(cncas_##N, A_CSWAP, 1, 1, 1, N, T, "atomic_compare_swap_nbi") \
    R(finc_##N, A_INC, 1, 0, 0, N, T, "atomic_fetch_inc") R(cfinc_##N, A_INC, 1, 0, 1, N, T, "atomic_fetch_inc") R(dfinc_##N, A_INC, 1, 0, 0, N, T, "finc") \
    R(nfinc_##N, A_INC, 1, 1, 0, N, T, "atomic_fetch_inc_nbi") R(cnfinc_##N, A_INC, 1, 1, 1, N, T, "atomic_fetch_inc_nbi") \
    R(inc_##N, A_INC, 0, 0, 0, N, T, "atomic_inc") R(cinc_##N, A_INC, 0, 0, 1, N, T, "atomic_inc") R(dinc_##N, A_INC, 0, 0, 0, N, T, "inc") \
    R(fadd_##N, A_ADD, 1, 0, 0, N, T, "atomic_fetch_add") R(cfadd_##N, A_ADD, 1, 0, 1, N, T, "atomic_fetch_add") R(dfadd_##N, A_ADD, 1, 0, 0, N, T, "fadd") \
    R(nfadd_##N, A_ADD, 1, 1, 0, N, T, "atomic_fetch_add_nbi") R(cnfadd_##N, A_ADD, 1, 1, 1, N, T, "atomic_fetch_add_nbi") \
    R(add_##N, A_ADD, 0, 0, 0, N, T, "atomic_add") R(cadd_##N, A_ADD, 0, 0, 1, N, T, "atomic_add") R(dadd_##N, A_ADD, 0, 0, 0, N, T, "add")
#define RB(o, O, N, T) \
    R(o##_##N, O, 0, 0, 0, N, T, "atomic_" #o) R(c##o##_##N, O, 0, 0, 1, N, T, "atomic_" #o) R(f##o##_##N, O, 1, 0, 0, N, T, "atomic_fetch_" #o) \
    R(cf##o##_##N, O, 1, 0, 1, N, T, "atomic_fetch_" #o) R(nf##o##_##N, O, 1, 1, 0, N, T, "atomic_fetch_" #o "_nbi") R(cnf##o##_##N, O, 1, 1, 1, N, T, "atomic_fetch_" #o "_nbi")
#define RBIT(N, T) RB(and, A_AND, N, T) RB(or, A_OR, N, T) RB(xor, A_XOR, N, T)
gamo_t gamos[] = { ET2(REXT) ST2(RSTD) BT2(RBIT) };
int ngamos = (int) (sizeof gamos / sizeof gamos[0]);
#undef A

#define CA shmem_team_t t, void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int root
#define CDEF(N, T) \
    static int gb_##N(CA) { return shmem_broadcast(t, (T *) d, (const T *) s, n, root); } \
    static int tb_##N(CA) { return shmem_##N##_broadcast(t, (T *) d, (const T *) s, n, root); } \
    static int gc_##N(CA) { return shmem_collect(t, (T *) d, (const T *) s, n); } \
    static int tc_##N(CA) { return shmem_##N##_collect(t, (T *) d, (const T *) s, n); } \
    static int gf_##N(CA) { return shmem_fcollect(t, (T *) d, (const T *) s, n); } \
    static int tf_##N(CA) { return shmem_##N##_fcollect(t, (T *) d, (const T *) s, n); } \
    static int ga_##N(CA) { return shmem_alltoall(t, (T *) d, (const T *) s, n); } \
    static int ta_##N(CA) { return shmem_##N##_alltoall(t, (T *) d, (const T *) s, n); } \
    static int gs_##N(CA) { return shmem_alltoalls(t, (T *) d, (const T *) s, dst, sst, n); } \
    static int ts_##N(CA) { return shmem_##N##_alltoalls(t, (T *) d, (const T *) s, dst, sst, n); }
RT2(CDEF)
#define GD(N, T, o) \
    static int gr##o##_##N(CA) { return shmem_##o##_reduce(t, (T *) d, (const T *) s, n); } \
    static int tr##o##_##N(CA) { return shmem_##N##_##o##_reduce(t, (T *) d, (const T *) s, n); }
#define MM(X) X(short, short) X(int, int) X(long, long) X(longlong, long long) X(ushort, unsigned short) X(uint, unsigned int) X(ulong, unsigned long) \
    X(ulonglong, unsigned long long) X(float, float) X(double, double) X(longdouble, long double)
#define BW(X) X(uchar, unsigned char) X(ushort, unsigned short) X(uint, unsigned int) X(ulong, unsigned long) X(ulonglong, unsigned long long)
#define CX(X) X(complexd, double _Complex) X(complexf, float _Complex)
#define MMD(N, T) GD(N, T, min) GD(N, T, max)
#define SPD(N, T) GD(N, T, sum) GD(N, T, prod)
#define BWD(N, T) GD(N, T, and) GD(N, T, or) GD(N, T, xor)
MM(MMD) MM(SPD) CX(SPD) BW(BWD)
#define FL(T) _Generic((T) 0, float: 1, double: 1, long double: 1, float _Complex: 1, double _Complex: 1, default: 0)
#define C1(op, N, T, K, p) { op, #N, K, (int) sizeof(T), FL(T), g##p##_##N, t##p##_##N },
#define CROW(N, T) C1("broadcast", N, T, G_BCAST, b) C1("collect", N, T, G_COLLECT, c) C1("fcollect", N, T, G_FCOLLECT, f) \
    C1("alltoall", N, T, G_ALLTOALL, a) C1("alltoalls", N, T, G_ALLTOALLS, s)
#define MMR(N, T) C1("min_reduce", N, T, G_REDUCE, rmin) C1("max_reduce", N, T, G_REDUCE, rmax)
#define SPR(N, T) C1("sum_reduce", N, T, G_REDUCE, rsum) C1("prod_reduce", N, T, G_REDUCE, rprod)
#define BWR(N, T) C1("and_reduce", N, T, G_REDUCE, rand) C1("or_reduce", N, T, G_REDUCE, ror) C1("xor_reduce", N, T, G_REDUCE, rxor)
gcoll_t gcolls[] = { RT2(CROW) MM(MMR) MM(SPR) CX(SPR) BW(BWR) };
int ngcolls = (int) (sizeof gcolls / sizeof gcolls[0]);

#define PDEF(N, T) \
    static int gt_##N(void *v, int c, const void *x) { return shmem_test((T *) v, c, *(const T *) x); } \
    static int tt_##N(void *v, int c, const void *x) { return shmem_##N##_test((T *) v, c, *(const T *) x); } \
    static void gw_##N(void *v, int c, const void *x) { shmem_wait_until((T *) v, c, *(const T *) x); } \
    static void tw_##N(void *v, int c, const void *x) { shmem_##N##_wait_until((T *) v, c, *(const T *) x); }
PT2(PDEF)
#define PROW(N, T) { #N, (int) sizeof(T), gt_##N, tt_##N, gw_##N, tw_##N },
gp2p_t gp2ps[] = { PT2(PROW) };
int ngp2ps = (int) (sizeof gp2ps / sizeof gp2ps[0]);

void gsync_team(shmem_team_t t) { shmem_sync(t); }
void gsync_set(int s, int l, int z, long *P) { shmem_sync(s, l, z, P); }
#endif
