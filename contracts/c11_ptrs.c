/* C11: pointer keys (union discriminators, saved pointers) */
//@ unit ptrs harness=h_ptrs link=metaresc functions=mr_uds_cmp,mr_uds_get_hash,mr_ud_cmp,mr_ud_get_hash,mr_untyped_ptrdes_cmp,mr_typed_ptrdes_get_hash,mr_cmp_ptrdes unwind=8 kind=proof
#include "mv.h"
#include "stubs.h"
#include "order.h"
#if MV_CBMC
static size_t arena_size (void) { size_t n = mv_u64 (); mv_assume (n >= 1UL << 46 && n <= 1UL << 47); return (n); }
#endif
#include "mr_save.c"
static mr_union_discriminator_t ud[3]; static mr_save_data_t sd; static mr_ra_ptrdes_t pr; static mr_ptrdes_t pd[3]; static mr_fd_t fd[3];
static char * arena;
static void * addr (void) { uint64_t o = mv_u64 (); MV_NATIVE (o &= 3;) mv_assume (o < (1UL << 46)); return (arena + o); }
static int g_xy;
#define KEYS3(CMP, HASH, CTX) do { \
  mr_ptr_t x = { .uintptr = 0 }, y = { .uintptr = 1 }, z = { .uintptr = 2 }; \
  int xy = CMP (x, y, CTX), yx = CMP (y, x, CTX), yz = CMP (y, z, CTX), xz = CMP (x, z, CTX), xx = CMP (x, x, CTX); \
  ORDER_LAWS (xy, yx, yz, xz, xx); g_xy = xy; \
  mv_assert (xy != 0 || HASH (x, CTX) == HASH (y, CTX), "equal keys hash equally"); } while (0)
static int pd_cmp (mr_ptr_t x, mr_ptr_t y, const void * c) { return (mr_cmp_ptrdes (&pd[x.uintptr], &pd[y.uintptr])); }
static mr_hash_value_t no_hash (mr_ptr_t x, const void * c) { return (0); }
void h_ptrs (void)
{
#if MV_CBMC
  arena = malloc (arena_size ()); mv_assume (arena != NULL);
#else
  static char a[16]; arena = a;
#endif
  sd.mr_ra_ud = ud; pr.ra = pd;
  for (int i = 0; i < 3; i++) { ud[i].union_fdp = addr (); ud[i].discriminated_fdp = addr (); pd[i].data.uintptr = mv_u64 (); pd[i].mr_type = mv_u8 (); mv_assume (pd[i].mr_type < MR_TYPE_END_ANON_UNION); pd[i].fdp = &fd[i]; fd[i].stype.tdp = addr (); MV_NATIVE (pd[i].data.uintptr &= 15; pd[i].mr_type = MR_TYPE_STRUCT + pd[i].mr_type % 3;) }
  KEYS3 (mr_uds_cmp, mr_uds_get_hash, &sd);
  mv_assert ((g_xy == 0) == (ud[0].union_fdp == ud[1].union_fdp && ud[0].discriminated_fdp == ud[1].discriminated_fdp), "equal exactly when both descriptors are");
  KEYS3 (mr_ud_cmp, mr_ud_get_hash, &sd);
  mv_assert ((g_xy == 0) == (ud[0].union_fdp == ud[1].union_fdp), "equal exactly when the union is");
  KEYS3 (mr_untyped_ptrdes_cmp, mr_typed_ptrdes_get_hash, &pr);
  KEYS3 (pd_cmp, no_hash, NULL);
  mv_assert (g_xy != 0 || (pd[0].data.uintptr == pd[1].data.uintptr && pd[0].mr_type == pd[1].mr_type), "equal descriptors have the same address and type");
  MV_REACHED ();
}
