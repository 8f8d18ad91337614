/* C11: keys of the union-override initialisation index and of the resolved-function cache */
//@ unit tr harness=h_tr functions=mr_tr_cmp,mr_tr_hash unwind=8 kind=proof
#include "mv.h"
#include "stubs.h"
#include "order.h"
#if MV_CBMC
static size_t arena_size (void) { size_t n = mv_u64 (); mv_assume (n >= 1UL << 46 && n <= 1UL << 47); return (n); }
#endif
#include "mr_udo_init.c"
static mr_types_dep_t dep; static mr_type_ref_t tr[3];
void h_tr (void)
{
#if MV_CBMC
  char * arena = malloc (arena_size ()); mv_assume (arena != NULL);
#else
  static char arena[16];
#endif
  dep.types = tr;
  for (int i = 0; i < 3; i++) { uint64_t o = mv_u64 (); MV_NATIVE (o &= 3;) mv_assume (o < (1UL << 46)); tr[i].tdp = (mr_td_t *)(arena + o); }
  mr_ptr_t x = { .uintptr = 0 }, y = { .uintptr = 1 }, z = { .uintptr = 2 };
  int xy = mr_tr_cmp (x, y, &dep), yx = mr_tr_cmp (y, x, &dep), yz = mr_tr_cmp (y, z, &dep), xz = mr_tr_cmp (x, z, &dep), xx = mr_tr_cmp (x, x, &dep);
  ORDER_LAWS (xy, yx, yz, xz, xx);
  mv_assert ((xy == 0) == (tr[0].tdp == tr[1].tdp), "equal exactly when the types are");
  mv_assert (xy != 0 || mr_tr_hash (x, &dep) == mr_tr_hash (y, &dep), "equal keys hash equally");
  MV_REACHED ();
}
