/* Glue shared by every contract file.
   Two builds of the same harness:
   - under goto-cc (__CPROVER__ defined): inputs are nondeterministic, contracts are enforced/replaced by goto-instrument --dfcc
   - natively (gcc + ASan/UBSan): inputs are replayed from a file (a verifier counterexample) or drawn from a seeded PRNG;
     used only after the verifier rejected an obligation, to find a failing input on the real code. */
#ifndef MV_H
#define MV_H
#ifdef HAVE_CONFIG_H
#include <mr_config.h>
#endif
#include <metaresc.h>
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <limits.h>

typedef unsigned __int128 mv_u128_t;
typedef __int128 mv_s128_t;

#ifdef MV_VERIFY
#define MV_CBMC 1
uint64_t nondet_mv_u64 (void);
static inline uint64_t mv_u64 (void) { uint64_t mv_input = nondet_mv_u64 (); return mv_input; }
#define mv_assume(C) __CPROVER_assume (C)
#define mv_assert(C, MSG) __CPROVER_assert (C, MSG)
#define MV_REACHED() __CPROVER_assert (0, "mv-reach")
/* native evaluation of a postcondition: under the verifier the ensures clause itself is the obligation */
#define MV_NATIVE(...)
#define mv_malloc(N) malloc (N)
#else
#define MV_CBMC 0
uint64_t mv_u64 (void);
void mv_skip (void);
void mv_fail (const char * msg, const char * file, int line);
#define mv_assume(C) do { if (!(C)) mv_skip (); } while (0)
#define mv_assert(C, MSG) do { if (!(C)) mv_fail (MSG, __FILE__, __LINE__); } while (0)
#define MV_REACHED() do {} while (0)
#define MV_NATIVE(...) __VA_ARGS__
void * mv_malloc (size_t n);
#endif

static inline uint8_t mv_u8 (void) { return ((uint8_t)mv_u64 ()); }
static inline uint16_t mv_u16 (void) { return ((uint16_t)mv_u64 ()); }
static inline uint32_t mv_u32 (void) { return ((uint32_t)mv_u64 ()); }
static inline bool mv_bool (void) { return (mv_u64 () & 1); }
static inline mv_u128_t mv_u128 (void) { mv_u128_t hi = mv_u64 (); return ((hi << 64) | mv_u64 ()); }
#endif
