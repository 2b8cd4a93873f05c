/* Every transfer routine behind one signature. */
#ifndef RMA_FORMS_H
#define RMA_FORMS_H
typedef enum { F_PUT, F_GET, F_PUTNBI, F_GETNBI, F_P, F_G, F_IPUT, F_IGET } fkind_t;
typedef struct {
    const char *name;
    fkind_t k;
    int es;                     /* element size */
    int vs;                     /* value bytes of an element passed by value (long double: 10) */
    int ctx;                    /* takes a context */
    int type;                   /* number of the type/width */
    void (*fn) (shmem_ctx_t c, void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int pe);
} form_t;
extern form_t forms[];
extern int nforms;
#endif
