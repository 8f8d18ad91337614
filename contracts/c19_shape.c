/* C19: dimensions are read off the declaration and the array spans exactly its elements */
//@ unit shape harness=h_shape functions=mr_type_is_an_array kind=proof timeout=200 objbits=10 unwind=7 unwindset=strchr.0:34
//@ trusted atoi by contract (value of the digits after the bracket); declarations of up to 5 dimensions, those beyond the third below 16 each
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#define MAXD 5
#define DIMS (sizeof (((mr_fd_t *)0)->stype.dim.dim) / sizeof (((mr_fd_t *)0)->stype.dim.dim[0]))
static char g_type[32]; static uint32_t g_dim[MAXD]; static unsigned g_n;
#if MV_CBMC
int atoi (const char * s)
{
  for (unsigned i = 0; i < MAXD; i++) if (s == &g_type[2 + 3 * i]) return (g_dim[i]);
  mv_assert (false, "a dimension is read right after its bracket");
  return (0);
}
#define MV_IN_METARESC_C
#endif
#include "metaresc.c"
void h_shape (void)
{
  mr_stype_t stype; memset (&stype, 0, sizeof (stype));
  mem_init ();
  g_n = mv_u8 () % (MAXD + 1); bool chars = mv_bool (); uint64_t dummy = 0;
  memset (g_type, 0, sizeof (g_type)); g_type[0] = 't';
  for (unsigned i = 0; i < MAXD; i++)
    if (i < g_n)
      {
	g_dim[i] = mv_u32 () & 0x7fffffff;
	if (i + 1 >= DIMS) g_dim[i] &= 15; /* merged dimensions: their product is not followed for larger ones */
	MV_NATIVE (g_dim[i] %= 10;)
	g_type[1 + 3 * i] = '['; g_type[2 + 3 * i] = '0' + g_dim[i] % 10; g_type[3 + 3 * i] = ']';
      }
  stype.mr_type = chars ? MR_TYPE_CHAR_ARRAY : mv_u8 () & 31;
  bool is = mr_type_is_an_array (&stype, g_type);
  bool expect = g_n > 0 && !(stype.mr_type == MR_TYPE_CHAR_ARRAY && g_n == 1);
  mv_assert (is == expect && stype.is_array == expect, "arrays are recognized; an array of char alone is a text");
  mv_assert (g_type[1] == 0 && g_type[0] == 't', "the element type is what precedes the brackets");
  if (expect)
    {
      unsigned n = g_n < DIMS ? g_n : DIMS;
      mv_assert (stype.dim.size == n * sizeof (stype.dim.dim[0]), "number of dimensions");
      for (unsigned i = 0; i < DIMS; i++)
	if (i < n)
	  {
	    uint32_t d = g_dim[i];
	    if (i == DIMS - 1) for (unsigned j = DIMS; j < MAXD; j++) if (j < g_n) d *= g_dim[j];
	    mv_assert (stype.dim.dim[i] == d, "dimensions in order of the declaration");
	  }
    }
  (void)dummy;
  MV_REACHED ();
}
