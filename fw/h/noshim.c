/* Without the interposer (thread sanitizer variant) its services do nothing. */
#ifdef HC_NO_SHIM
#include "hc.h"
void hc_shim_pause(int on) { (void) on; }
void hc_watch(void *p, size_t n, void *copy) { (void) p; (void) n; (void) copy; }
const char *hc_watched(void *p) { (void) p; return NULL; }
int hc_region(int i, char **b, long *n) { (void) i; (void) b; (void) n; return 0; }
long hc_mpi_live(const char *k) { (void) k; return 0; }
long hc_mpi_made(void) { return 0; }
long hc_fin_live[6];
int hc_fin_seen = 1;
#endif
