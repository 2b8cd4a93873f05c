/* include/oshmpiconf.h.  Generated from oshmpiconf.h.in by configure.  */
/* include/oshmpiconf.h.in.  Generated from configure.ac by autoheader.  */

/* Define to 1 if you have the `atexit' function. */
#define HAVE_ATEXIT 1

/* Define to 1 if you have the `atol' function. */
#define HAVE_ATOL 1

/* Define to 1 if you have the `ceil' function. */
/* #undef HAVE_CEIL */

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <fcntl.h> header file. */
#define HAVE_FCNTL_H 1

/* Define if GNU __attribute__ is supported */
#define HAVE_GCC_ATTRIBUTE 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the `cudart' library (-lcudart). */
/* #undef HAVE_LIBCUDART */

/* Define to 1 if you have the `ze_loader' library (-lze_loader). */
/* #undef HAVE_LIBZE_LOADER */

/* Define to 1 if you have the <math.h> header file. */
#define HAVE_MATH_H 1

/* Define to 1 if you have the `memcpy' function. */
#define HAVE_MEMCPY 1

/* Define to 1 if you have the `memset' function. */
#define HAVE_MEMSET 1

/* Define to 1 if you have the <minix/config.h> header file. */
/* #undef HAVE_MINIX_CONFIG_H */

/* Define to 1 if you have the <mpi.h> header file. */
#define HAVE_MPI_H 1

/* Define to 1 if you have the `MPI_Iallgather' function. */
#define HAVE_MPI_IALLGATHER 1

/* Define to 1 if you have the `MPI_Iallgatherv' function. */
#define HAVE_MPI_IALLGATHERV 1

/* Define to 1 if you have the `MPI_Iallreduce' function. */
#define HAVE_MPI_IALLREDUCE 1

/* Define to 1 if you have the `MPI_Ialltoall' function. */
#define HAVE_MPI_IALLTOALL 1

/* Define to 1 if you have the `MPI_Ibarrier' function. */
#define HAVE_MPI_IBARRIER 1

/* Define to 1 if you have the `MPI_Ibcast' function. */
#define HAVE_MPI_IBCAST 1

/* Define if multiple weak symbols may be defined */
#define HAVE_MULTIPLE_PRAGMA_WEAK 1

/* Cray style weak pragma */
/* #undef HAVE_PRAGMA_CRI_DUP */

/* HP style weak pragma */
/* #undef HAVE_PRAGMA_HP_SEC_DEF */

/* Supports weak pragma */
#define HAVE_PRAGMA_WEAK 1

/* Define to 1 if you have the <pthread.h> header file. */
/* #undef HAVE_PTHREAD_H */

/* Define to 1 if you have the `pthread_mutex_lock' function. */
/* #undef HAVE_PTHREAD_MUTEX_LOCK */

/* Define to 1 if you have the <random.h> header file. */
/* #undef HAVE_RANDOM_H */

/* Define to 1 if you have the `random_r' function. */
#define HAVE_RANDOM_R 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the `strtof' function. */
#define HAVE_STRTOF 1

/* Define to 1 if the system has the type `struct random_data'. */
#define HAVE_STRUCT_RANDOM_DATA 1

/* Define to 1 if you have the <sys/mman.h> header file. */
#define HAVE_SYS_MMAN_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/time.h> header file. */
#define HAVE_SYS_TIME_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if you have the <wchar.h> header file. */
#define HAVE_WCHAR_H 1

/* Attribute style weak pragma */
#define HAVE_WEAK_ATTRIBUTE 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Always disable asynchronous progress thread */
#define OSHMPI_DISABLE_AM_ASYNC_THREAD 1

/* Force to use active message based atomics */
/* #undef OSHMPI_ENABLE_AM_AMO */

/* Always enable asynchronous progress thread */
/* #undef OSHMPI_ENABLE_AM_ASYNC_THREAD */

/* Force to use active message based RMA */
/* #undef OSHMPI_ENABLE_AM_RMA */

/* Enable CUDA memory kind */
/* #undef OSHMPI_ENABLE_CUDA */

/* Force to use direct atomics no matter whether MPI supports it */
/* #undef OSHMPI_ENABLE_DIRECT_AMO */

/* Force to use direct RMA no matter whether MPI supports it */
/* #undef OSHMPI_ENABLE_DIRECT_RMA */

/* Use a single dynamic window for all symmetric data segments */
/* #undef OSHMPI_ENABLE_DYNAMIC_WIN */

/* Enable tracking for outstanding operations */
#define OSHMPI_ENABLE_OP_TRACKING 1

/* Enable datatype cache for strided data access */
#define OSHMPI_ENABLE_STRIDED_DTYPE_CACHE 1

/* Define if we can enable symmatric allocatio */
#define OSHMPI_ENABLE_SYMM_ALLOC 1

/* Define if funneled thread safety is set at configure */
/* #undef OSHMPI_ENABLE_THREAD_FUNNELED */

/* Define if multiple thread safety is set at configure */
/* #undef OSHMPI_ENABLE_THREAD_MULTIPLE */

/* Define if serialized thread safety is set at configure */
#define OSHMPI_ENABLE_THREAD_SERIALIZED 1

/* Define if single thread safety is set at configure */
/* #undef OSHMPI_ENABLE_THREAD_SINGLE */

/* Enable ZE memory kind */
/* #undef OSHMPI_ENABLE_ZE */

/* Define if C++ binding is enabled */
#define OSHMPI_HAVE_CXX 1

/* MPI datatype to use for ptrdiff_t */
#define OSHMPI_MPI_PTRDIFF_T MPI_INT64_T

/* MPI datatype to use for size_t */
#define OSHMPI_MPI_SIZE_T MPI_UINT64_T

/* Thread package to implement critical section */
/* #undef OSHMPI_THREAD_CS_LOCK */

/* Name of package */
#define PACKAGE "oshmpi"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "oshmpi-users@lists.mpich.org"

/* Define to the full name of this package. */
#define PACKAGE_NAME "OSHMPI"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "OSHMPI 2.1a1"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "oshmpi"

/* Define to the home page for this package. */
#define PACKAGE_URL "https://github.com/pmodels/oshmpi"

/* Define to the version of this package. */
#define PACKAGE_VERSION "2.1a1"

/* The size of `int16_t', as computed by sizeof. */
#define SIZEOF_INT16_T 2

/* The size of `int32_t', as computed by sizeof. */
#define SIZEOF_INT32_T 4

/* The size of `int64_t', as computed by sizeof. */
#define SIZEOF_INT64_T 8

/* The size of `int8_t', as computed by sizeof. */
#define SIZEOF_INT8_T 1

/* The size of `ptrdiff_t', as computed by sizeof. */
#define SIZEOF_PTRDIFF_T 8

/* The size of `size_t', as computed by sizeof. */
#define SIZEOF_SIZE_T 8

/* The size of `uint16_t', as computed by sizeof. */
#define SIZEOF_UINT16_T 2

/* The size of `uint32_t', as computed by sizeof. */
#define SIZEOF_UINT32_T 4

/* The size of `uint64_t', as computed by sizeof. */
#define SIZEOF_UINT64_T 8

/* The size of `uint8_t', as computed by sizeof. */
#define SIZEOF_UINT8_T 1

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Define on FreeBSD. */
/* #undef USE_FREEBSD */

/* Define on Linux. */
#define USE_LINUX 1

/* Define on Apple OSX. */
/* #undef USE_OSX */

/* Enable extensions on AIX 3, Interix.  */
#ifndef _ALL_SOURCE
# define _ALL_SOURCE 1
#endif
/* Enable general extensions on macOS.  */
#ifndef _DARWIN_C_SOURCE
# define _DARWIN_C_SOURCE 1
#endif
/* Enable general extensions on Solaris.  */
#ifndef __EXTENSIONS__
# define __EXTENSIONS__ 1
#endif
/* Enable GNU extensions on systems that have them.  */
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
/* Enable X/Open compliant socket functions that do not require linking
   with -lxnet on HP-UX 11.11.  */
#ifndef _HPUX_ALT_XOPEN_SOCKET_API
# define _HPUX_ALT_XOPEN_SOCKET_API 1
#endif
/* Identify the host operating system as Minix.
   This macro does not affect the system headers' behavior.
   A future release of Autoconf may stop defining this macro.  */
#ifndef _MINIX
/* # undef _MINIX */
#endif
/* Enable general extensions on NetBSD.
   Enable NetBSD compatibility extensions on Minix.  */
#ifndef _NETBSD_SOURCE
# define _NETBSD_SOURCE 1
#endif
/* Enable OpenBSD compatibility extensions on NetBSD.
   Oddly enough, this does nothing on OpenBSD.  */
#ifndef _OPENBSD_SOURCE
# define _OPENBSD_SOURCE 1
#endif
/* Define to 1 if needed for POSIX-compatible behavior.  */
#ifndef _POSIX_SOURCE
/* # undef _POSIX_SOURCE */
#endif
/* Define to 2 if needed for POSIX-compatible behavior.  */
#ifndef _POSIX_1_SOURCE
/* # undef _POSIX_1_SOURCE */
#endif
/* Enable POSIX-compatible threading on Solaris.  */
#ifndef _POSIX_PTHREAD_SEMANTICS
# define _POSIX_PTHREAD_SEMANTICS 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-5:2014.  */
#ifndef __STDC_WANT_IEC_60559_ATTRIBS_EXT__
# define __STDC_WANT_IEC_60559_ATTRIBS_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-1:2014.  */
#ifndef __STDC_WANT_IEC_60559_BFP_EXT__
# define __STDC_WANT_IEC_60559_BFP_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-2:2015.  */
#ifndef __STDC_WANT_IEC_60559_DFP_EXT__
# define __STDC_WANT_IEC_60559_DFP_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-4:2015.  */
#ifndef __STDC_WANT_IEC_60559_FUNCS_EXT__
# define __STDC_WANT_IEC_60559_FUNCS_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TS 18661-3:2015.  */
#ifndef __STDC_WANT_IEC_60559_TYPES_EXT__
# define __STDC_WANT_IEC_60559_TYPES_EXT__ 1
#endif
/* Enable extensions specified by ISO/IEC TR 24731-2:2010.  */
#ifndef __STDC_WANT_LIB_EXT2__
# define __STDC_WANT_LIB_EXT2__ 1
#endif
/* Enable extensions specified by ISO/IEC 24747:2009.  */
#ifndef __STDC_WANT_MATH_SPEC_FUNCS__
# define __STDC_WANT_MATH_SPEC_FUNCS__ 1
#endif
/* Enable extensions on HP NonStop.  */
#ifndef _TANDEM_SOURCE
# define _TANDEM_SOURCE 1
#endif
/* Enable X/Open extensions.  Define to 500 only if necessary
   to make mbstate_t available.  */
#ifndef _XOPEN_SOURCE
/* # undef _XOPEN_SOURCE */
#endif


/* Define if weak symbols should be used */
#define USE_WEAK_SYMBOLS 1

/* Version number of package */
#define VERSION "2.1a1"

/* Define to empty if `const' does not conform to ANSI C. */
/* #undef const */

/* Define to `__inline__' or `__inline' if that's what the C compiler
   calls it, or to nothing if 'inline' is not supported under any name.  */
#ifndef __cplusplus
/* #undef inline */
#endif

/* Define to the equivalent of the C99 'restrict' keyword, or to
   nothing if this is not supported.  Do not define if restrict is
   supported only directly.  */
#define restrict __restrict__
/* Work around a bug in older versions of Sun C++, which did not
   #define __restrict__ or support _Restrict or __restrict__
   even though the corresponding Sun C compiler ended up with
   "#define restrict _Restrict" or "#define restrict __restrict__"
   in the previous line.  This workaround can be removed once
   we assume Oracle Developer Studio 12.5 (2016) or later.  */
#if defined __SUNPRO_CC && !defined __RESTRICT && !defined __restrict__
# define _Restrict
# define __restrict__
#endif
