/* C10: sorting */
//@ unit sort2 harness=h_sort functions=mr_hsort,sift kind=bounded bound="all arrays of at most 5 elements of 2 bytes, all orderings" timeout=400 unwind=8 objbits=8 defs="-DN=5 -DESZ=2"
//@ unit sort5 harness=h_sort functions=mr_hsort,sift kind=bounded bound="all arrays of at most 4 elements of 5 bytes, all orderings" timeout=400 unwind=8 unwindset=memcpy.0:8 objbits=8 defs="-DN=4 -DESZ=5"
//@ unit big harness=h_sort functions=mr_hsort,sift kind=native bound="random arrays of up to 300 elements of 1 to 40 bytes" defs="-DN=300 -DESZ=40" secs=6
#include "mv.h"
#include "stubs.h"
#if MV_CBMC
//@ trusted for mr_hsort.c the comparator's transparent-union parameters are read as plain pointers (the same calling convention): the verifier does not convert a variable-length array into a transparent union
#include <metaresc.h>
typedef int (* mv_compar_fn_t) (const void *, const void *, const void *);
#define mr_compar_fn_t mv_compar_fn_t
#define CMP_ARG(a) (a)
typedef const void * cmp_arg_t;
#else
#define CMP_ARG(a) ((a).ptr)
typedef const mr_ptr_t cmp_arg_t;
#endif
#include "mr_hsort.c"
static uint8_t key0[N + 1]; static size_t g_n, g_size; static int g_ctx; static uint8_t * g_array; static bool g_desc;
/* an element is its key, its former position and filling that belongs to that position */
static uint8_t fill (size_t pos, size_t i) { return ((uint8_t)(pos * 7 + i * 13 + 1)); }
static int cmp (cmp_arg_t a, cmp_arg_t b, const void * context)
{
  mv_assert (context == &g_ctx, "context is passed through");
  uint8_t x = *(uint8_t *)CMP_ARG (a), y = *(uint8_t *)CMP_ARG (b);
  int r = (x > y) - (x < y);
  return (g_desc ? -r : r);
}
void h_sort (void)
{
#if MV_CBMC
  g_n = mv_u8 () % (N + 1); g_size = ESZ;
  static uint8_t mem[N * ESZ + 2];
#else
  g_n = mv_u8 () % (N + 1); g_size = 1 + mv_u8 () % ESZ;
  uint8_t * mem = mv_malloc (g_n * g_size + 2);
#endif
  g_array = &mem[1]; g_desc = mv_bool ();
  uint8_t kmask = MV_CBMC ? 255 : mv_u8 ();
  for (size_t i = 0; i < g_n; i++)
    {
      key0[i] = mv_u8 () & kmask; g_array[i * g_size] = key0[i];
      for (size_t j = 1; j < g_size; j++) g_array[i * g_size + j] = j == 1 ? (uint8_t)i : fill (i, j);
    }
  mem[0] = 0xA5; g_array[g_n * g_size] = 0x5A;
  mr_hsort (g_array, g_n, g_size, cmp, &g_ctx);
  mv_assert (mem[0] == 0xA5 && g_array[g_n * g_size] == 0x5A, "nothing outside the array is written");
  for (size_t i = 1; i < g_n; i++)
    mv_assert (g_desc ? g_array[(i - 1) * g_size] >= g_array[i * g_size] : g_array[(i - 1) * g_size] <= g_array[i * g_size], "in order");
  if (g_size > 1 && g_n <= 256)
    {
      static uint8_t seen[256]; memset (seen, 0, g_n < 256 ? g_n + 0 : 256);
      for (size_t i = 0; i < g_n; i++)
	{
	  uint8_t p = g_array[i * g_size + 1];
	  mv_assert (p < g_n && !seen[p], "every element is there once"); seen[p] = 1;
	  mv_assert (g_array[i * g_size] == key0[p], "with its key");
	  for (size_t j = 2; j < g_size; j++) mv_assert (g_array[i * g_size + j] == fill (p, j), "and moved whole");
	}
    }
  MV_REACHED ();
}
