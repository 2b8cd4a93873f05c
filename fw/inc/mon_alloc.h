/* Force-included when the library is compiled for monitoring: heap accounting of the library's own allocations. */
#ifndef MON_ALLOC_H
#define MON_ALLOC_H
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
void *mon_mmap(void *a, size_t n, int p, int f, int fd, long o);
int mon_munmap(void *a, size_t n);
#define mmap(a, n, p, f, fd, o) mon_mmap((a), (n), (p), (f), (fd), (o))
#define munmap(a, n) mon_munmap((a), (n))
void *mon_malloc(size_t n);
void *mon_calloc(size_t n, size_t m);
void *mon_realloc(void *p, size_t n);
void mon_free(void *p);
int mon_posix_memalign(void **p, size_t a, size_t n);
void *mon_aligned_alloc(size_t a, size_t n);
char *mon_strdup(const char *s);
#undef strdup
#define malloc(n) mon_malloc(n)
#define calloc(n, m) mon_calloc((n), (m))
#define realloc(p, n) mon_realloc((p), (n))
#define free(p) mon_free(p)
#define posix_memalign(p, a, n) mon_posix_memalign((p), (a), (n))
#define aligned_alloc(a, n) mon_aligned_alloc((a), (n))
#define strdup(s) mon_strdup(s)
#endif
