/* Configuration of the simulated build: the same feature set as the ordinary build of /repo. */
#define DICTIONARY_PATH SIM_DICTIONARY_PATH
#define SIM_DICTIONARY_PATH "/sys1:/sys2"
#define HAVE_CXX17 1
#define HAVE_DLFCN_H 1
#define HAVE_EXPERIMENTAL_VFST 1
#define HAVE_GETPWUID_R 1
#define HAVE_HFST 1
#define HAVE_INTTYPES_H 1
#define HAVE_LANGINFO_H 1
#define HAVE_LOCALE_H 1
#define HAVE_MBRLEN 1
#define HAVE_MEMSET 1
#define HAVE_MMAP 1
#define HAVE_PTHREAD_PRIO_INHERIT 1
#define HAVE_SETLOCALE 1
#define HAVE_STDDEF_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRCHR 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_VFST 1
#define HAVE_WCHAR_H 1
#define HAVE_WCTYPE_H 1
#define PACKAGE "libvoikko"
#define PACKAGE_NAME "libvoikko"
#define PACKAGE_STRING "libvoikko 4.3.3"
#define PACKAGE_VERSION "4.3.3"
#define STDC_HEADERS 1
#define VERSION "4.3.3"
