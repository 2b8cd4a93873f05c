/* Every generic (C11) call behind the signatures of the typed tables, and which routine each must select. */
#ifndef GFORMS_H
#define GFORMS_H
#include "rma_forms.h"
#include "amo_forms.h"
typedef struct { form_t f; const char *op, *type; } gform_t;
typedef struct { amo_t a; const char *op, *type; } gamo_t;
/* collectives over a team and point-to-point calls: the generic and the typed call */
typedef enum { G_BCAST, G_COLLECT, G_FCOLLECT, G_ALLTOALL, G_ALLTOALLS, G_REDUCE } gck_t;
typedef struct {
    const char *op, *type;
    gck_t k;
    int es, flt;
    int (*g) (shmem_team_t t, void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int root);
    int (*t) (shmem_team_t t, void *d, const void *s, ptrdiff_t dst, ptrdiff_t sst, size_t n, int root);
} gcoll_t;
typedef struct {
    const char *type;
    int es;
    int (*gt) (void *v, int cmp, const void *x), (*tt) (void *v, int cmp, const void *x);
    void (*gw) (void *v, int cmp, const void *x), (*tw) (void *v, int cmp, const void *x);
} gp2p_t;
extern gform_t gforms[];
extern gamo_t gamos[];
extern gcoll_t gcolls[];
extern gp2p_t gp2ps[];
extern int ngforms, ngamos, ngcolls, ngp2ps;
extern int hc_nogeneric;        /* the generic calls do not compile */
void gsync_team(shmem_team_t t);
void gsync_set(int s, int l, int z, long *P);
/* the routine that the last generic call selected */
extern int hc_form_last;
extern const char *const hc_form_names[];
#endif
