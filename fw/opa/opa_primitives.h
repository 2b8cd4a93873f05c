/* Stand-in for OpenPA (a submodule that this checkout does not contain), with its contract: plain loads and stores carry no ordering,
   read-modify-write operations are atomic and ordered. */
#ifndef OPA_PRIMITIVES_H
#define OPA_PRIMITIVES_H
typedef struct { volatile int v; } OPA_int_t;
#define OPA_INT_T_INITIALIZER(x) { (x) }
static inline __attribute__((unused)) int OPA_load_int(const OPA_int_t * p) { return __atomic_load_n(&p->v, __ATOMIC_RELAXED); }
static inline __attribute__((unused)) void OPA_store_int(OPA_int_t * p, int x) { __atomic_store_n(&p->v, x, __ATOMIC_RELAXED); }
static inline __attribute__((unused)) int OPA_cas_int(OPA_int_t * p, int o, int n)
{
    __atomic_compare_exchange_n(&p->v, &o, n, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    return o;
}
static inline __attribute__((unused)) void OPA_incr_int(OPA_int_t * p) { __atomic_fetch_add(&p->v, 1, __ATOMIC_SEQ_CST); }
static inline __attribute__((unused)) void OPA_decr_int(OPA_int_t * p) { __atomic_fetch_sub(&p->v, 1, __ATOMIC_SEQ_CST); }
static inline __attribute__((unused)) int OPA_fetch_and_incr_int(OPA_int_t * p) { return __atomic_fetch_add(&p->v, 1, __ATOMIC_SEQ_CST); }
static inline __attribute__((unused)) int OPA_fetch_and_decr_int(OPA_int_t * p) { return __atomic_fetch_sub(&p->v, 1, __ATOMIC_SEQ_CST); }
static inline __attribute__((unused)) int OPA_fetch_and_add_int(OPA_int_t * p, int x) { return __atomic_fetch_add(&p->v, x, __ATOMIC_SEQ_CST); }
static inline __attribute__((unused)) int OPA_swap_int(OPA_int_t * p, int x) { return __atomic_exchange_n(&p->v, x, __ATOMIC_SEQ_CST); }
static inline __attribute__((unused)) void OPA_add_int(OPA_int_t * p, int x) { __atomic_fetch_add(&p->v, x, __ATOMIC_SEQ_CST); }
static inline __attribute__((unused)) int OPA_decr_and_test_int(OPA_int_t * p) { return __atomic_fetch_sub(&p->v, 1, __ATOMIC_SEQ_CST) == 1; }
#define OPA_write_barrier() __atomic_thread_fence(__ATOMIC_SEQ_CST)
#define OPA_read_barrier() __atomic_thread_fence(__ATOMIC_SEQ_CST)
#define OPA_read_write_barrier() __atomic_thread_fence(__ATOMIC_SEQ_CST)
#endif
