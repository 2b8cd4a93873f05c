/* Every atomic routine behind one signature, and what each must do. */
#ifndef AMO_FORMS_H
#define AMO_FORMS_H
#include <stdint.h>
#include <shmem.h>
typedef enum { A_FETCH, A_SET, A_SWAP, A_CSWAP, A_INC, A_ADD, A_AND, A_OR, A_XOR } aop_t;
typedef enum { TK_S, TK_U, TK_F } tk_t;
typedef struct {
    const char *name;
    aop_t op;
    int fetching;
    int nbi;
    int ctx;                    /* takes a context */
    int es;
    tk_t tk;
    int type;
    void (*fn) (shmem_ctx_t c, void *d, const void *v, const void *cond, void *f, int pe);
} amo_t;
extern amo_t amos[];
extern int namos;
/* the object's new value; old and new are es bytes */
void amo_apply(const amo_t * a, void *nw, const void *old, const void *v, const void *cond);
/* a random operand that cannot overflow a signed addition: |v| small, or any bits for the logical operations */
void amo_value(const amo_t * a, void *v, uint64_t bits);
extern const char *amo_opname[];
#endif
