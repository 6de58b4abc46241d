/* config.h.in.  Generated from configure.ac by autoheader.  */
#pragma once

/* 0 */
/* #undef HAVE_ATLAS_DAXPBY */

/* 0 */
/* #undef HAVE_CBLAS_DAXPBY */

/* Compile with fftw threading support */
#define HAVE_FFTW3_THREADS

/* Name of package */
#define PACKAGE "l1c"


/* Version number of package */
#define VERSION "0.0.1"

/* We have _mm_malloc */
#define _HAVE_MM_MALLOC_

/* We have posix_memalign. */
#define _HAVE_POSIX_MEMALIGN_

/* Unlocks posix_memalign in stdlib.h. */
#define _POSIX_C_SOURCE 200112L

/* 1 to compile with mex interfaces */
/* #undef __MATLAB__ */

/* Define to the equivalent of the C99 'restrict' keyword, or to
   nothing if this is not supported.  Do not define if restrict is
   supported directly.  */
#define restrict __restrict
