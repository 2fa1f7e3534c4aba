/* Configuration of the library for the simulator: what configure finds on this platform. */
#ifndef _ARMCICONF_H_
#define _ARMCICONF_H_ 1
#define ENABLE_PROGRESS 1
#define HAVE_DLFCN_H 1
#define HAVE_ERRNO_H 1
#define HAVE_EXECINFO_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_MACRO_VA_ARGS 1
#define HAVE_NANOSLEEP 1
#ifndef SIM_MPICH
#define HAVE_MULTIPLE_PRAGMA_WEAK 1
#define HAVE_PRAGMA_WEAK 1
#endif
#define HAVE_PTHREADS 1
#define HAVE_PTHREAD_PRIO_INHERIT 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TIME_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_TIME_H 1
#define HAVE_UNISTD_H 1
#define HAVE_USLEEP 1
#define HAVE__FUNCTION__ /**/
#define HAVE__FUNC__ /**/
#define PACKAGE "armci"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_NAME "armci"
#define PACKAGE_STRING "armci 0.1"
#define PACKAGE_TARNAME "armci"
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0.1"
#define STDC_HEADERS 1
#ifndef SIM_MPICH
#define USE_WEAK_SYMBOLS 1
#endif
#define VERSION "0.1"
#ifndef __cplusplus
#define restrict __restrict__
#endif
#endif
