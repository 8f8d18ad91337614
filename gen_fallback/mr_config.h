/* src/mr_config.h.  Generated from mr_config.h.in by configure.  */
/* src/mr_config.h.in.  Generated from configure.ac by autoheader.  */

/* Define to 1 if you have the `backtrace' function. */
#define HAVE_BACKTRACE 1

/* Bison & Flex found */
#define HAVE_BISON_FLEX /**/

/* define if __builtin_dump_struct is present */
/* #undef HAVE_BUILTIN_DUMP_STRUCT */

/* define if __builtin_dump_struct supports extra args */
/* #undef HAVE_BUILTIN_DUMP_STRUCT_EXTRA_ARGS */

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <execinfo.h> header file. */
#define HAVE_EXECINFO_H 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* define if dl is present */
#define HAVE_LIBDL /**/

/* define if libxml2 is present */
#define HAVE_LIBXML2 /**/

/* define if libyaml is present */
#define HAVE_LIBYAML /**/

/* Define to 1 if you have the <rpc/types.h> header file. */
#define HAVE_RPC_TYPES_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if `x_getint32' is a member of `struct xdr_ops'. */
/* #undef HAVE_STRUCT_XDR_OPS_X_GETINT32 */

/* Define to 1 if `x_putint32' is a member of `struct xdr_ops'. */
/* #undef HAVE_STRUCT_XDR_OPS_X_PUTINT32 */

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if you have the <values.h> header file. */
#define HAVE_VALUES_H 1

/* Define to 1 if you have the `xdr_int8_t' function. */
#define HAVE_XDR_INT8_T 1

/* Define to 1 if you have the `xdr_uint16_t' function. */
#define HAVE_XDR_UINT16_T 1

/* Define to 1 if you have the `xdr_uint32_t' function. */
#define HAVE_XDR_UINT32_T 1

/* Define to 1 if you have the `xdr_uint8_t' function. */
#define HAVE_XDR_UINT8_T 1

/* Define to 1 if you have the `xdr_u_int16_t' function. */
#define HAVE_XDR_U_INT16_T 1

/* Define to 1 if you have the `xdr_u_int32_t' function. */
#define HAVE_XDR_U_INT32_T 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* digits for double values */
#define MR_DBL_DIG 17

/* digits for float values */
#define MR_FLT_DIG 8

/* define if __int128 is supported */
#define MR_HAVE_INT128 /**/

/* digits for long double values */
#define MR_LDBL_DIG 20

/* Preprocessor routines depth */
#define MR_PP_DEPTH 256

/* type of union discriminators indexes */
#define MR_RA_UD_IDX_TYPE uint8_t

/* long double significant bytes */
#define MR_SIZEOF_LONG_DOUBLE 10

/* Name of package */
#define PACKAGE "meta-data-and-resource-library-for-c-language"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT "hnarkaytis@gmail.com"

/* Define to the full name of this package. */
#define PACKAGE_NAME "META data and RESource library for C language"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "META data and RESource library for C language 1.0"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "meta-data-and-resource-library-for-c-language"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "1.0"

/* The size of `double', as computed by sizeof. */
#define SIZEOF_DOUBLE 8

/* The size of `long double', as computed by sizeof. */
#define SIZEOF_LONG_DOUBLE 16

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "1.0"

/* Define to 1 if `lex' declares `yytext' as a `char *' by default, not a
   `char[]'. */
#define YYTEXT_POINTER 1
