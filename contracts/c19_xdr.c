/* C19: the binary loader gives every element of an array its own place and the remaining dimensions */
//@ unit xload1 harness=h_xload enforce=xdr_load_array replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t loops=yes kind=proof timeout=200 defs="-DESZ=1 -DESH=0"
//@ unit xload4 harness=h_xload enforce=xdr_load_array replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t loops=yes kind=proof timeout=200 defs="-DESZ=4 -DESH=2" native=no
//@ unit xload24 harness=h_xload enforce=xdr_load_array replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t loops=yes kind=proof timeout=200 defs="-DESZ=24 -DESH=5" native=no
//@ loop file=xdr.c func=xdr_load_array n=1 : __CPROVER_assigns (i, g_next, g_failed) __CPROVER_loop_invariant (i <= count && g_next == i && !g_failed && count == g_expect)
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#include <rpc/xdr.h>
#if MV_CBMC
#define MV_SAME_OBJECT(X, Y) __CPROVER_same_object (X, Y)
#else
#define MV_SAME_OBJECT(X, Y) true
#endif
#define DIMS (sizeof (((mr_fd_t *)0)->stype.dim.dim) / sizeof (((mr_fd_t *)0)->stype.dim.dim[0]))
static char * g_data; static uint32_t g_count, g_expect, g_next, g_dims, g_announced; static uint64_t g_total; static bool g_failed, g_read_ok, g_sized; static unsigned g_set;
static mr_fd_t g_fd; static mr_type_t g_elem, g_aux;
static bool shape (mr_fd_t * fdp)
{
  if (fdp->stype.size != ESZ || !fdp->non_persistent || fdp->stype.tdp != g_fd.stype.tdp) return (false);
  if (g_dims == 1) return (fdp->stype.mr_type == g_elem && fdp->stype.mr_type_aux == g_aux);
  if (fdp->stype.mr_type != MR_TYPE_ARRAY || fdp->stype.mr_type_aux != g_elem || fdp->stype.dim.size != (g_dims - 1) * sizeof (fdp->stype.dim.dim[0])) return (false);
  for (unsigned i = 0; i + 1 < DIMS; i++) if (i + 1 < g_dims && fdp->stype.dim.dim[i] != g_fd.stype.dim.dim[i + 1]) return (false);
  return (true);
}
#define OVER (g_sized && (!g_read_ok || g_announced / ESZ > g_count))
#if MV_CBMC
static mr_status_t xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_assigns (ptrs->ra[idx].MR_SIZE, g_next, g_failed, g_set)
__CPROVER_ensures (g_failed || OVER || (__CPROVER_return_value == MR_SUCCESS && g_next == g_expect && (!g_sized || (g_set == 1 && ptrs->ra[idx].MR_SIZE == g_expect * ESZ))))
__CPROVER_ensures (!(g_failed || OVER) || __CPROVER_return_value != MR_SUCCESS);
static mr_status_t xdr_load_inner (void * data, mr_fd_t * fdp, XDR * xdrs, mr_ra_ptrdes_t * ptrs, mr_idx_t parent)
__CPROVER_requires (g_next < g_expect && !g_failed && parent == 1)
__CPROVER_requires (MV_SAME_OBJECT (data, g_data) && (uint64_t)((char *)data - g_data) == (uint64_t)g_next * ESZ && (uint64_t)g_next * ESZ + ESZ <= g_total)
__CPROVER_requires (shape (fdp))
__CPROVER_assigns (g_next, g_failed)
__CPROVER_ensures (g_failed == (__CPROVER_return_value != MR_SUCCESS) && g_next == __CPROVER_old (g_next) + 1);
void mr_pointer_set_size (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_requires (idx == 1 && ptrs->ra[idx].MR_SIZE == g_expect * ESZ)
__CPROVER_assigns (g_set)
__CPROVER_ensures (g_set == __CPROVER_old (g_set) + 1);
bool_t xdr_uint32_t (XDR * xdrs, uint32_t * p)
__CPROVER_requires (g_sized)
__CPROVER_assigns (*p)
__CPROVER_ensures (__CPROVER_return_value == g_read_ok)
__CPROVER_ensures (!g_read_ok || *p == g_announced);
#endif
#include "xdr.c"
#if !MV_CBMC
static unsigned g_leaf;
static void fill (mr_fd_t * fdp, char * name)
{
  static uint32_t dims[4];
  memset (fdp, 0, sizeof (*fdp));
  fdp->name.str = name; fdp->stype.mr_type = MR_TYPE_ARRAY; fdp->stype.mr_type_aux = fdp->mr_type_base = MR_TYPE_INT8;
  (void)dims;
}
#endif
void h_xload (void)
{
  static XDR xdrs;
  mem_init ();
#if MV_CBMC
  static mr_ptrdes_t ra[3]; static mr_td_t td;
  mr_ra_ptrdes_t ptrs = { .ra = ra, .size = sizeof (ra), .alloc_size = sizeof (ra) };
  g_count = mv_u32 () >> ESH; mv_assume ((uint64_t)g_count * ESZ <= UINT32_MAX);
  mv_assume (g_count > 0);
  g_total = (uint64_t)g_count * ESZ;
  g_data = malloc (g_total); mv_assume (g_data != NULL);
  memset (&g_fd, 0, sizeof (g_fd));
  g_dims = 1 + mv_u8 () % DIMS;
  g_fd.stype.size = g_total; g_fd.stype.mr_type = MR_TYPE_ARRAY; g_fd.stype.dim.dim[0] = g_count;
  g_elem = mv_u8 (); g_aux = mv_u8 ();
  for (unsigned i = 1; i < DIMS; i++) g_fd.stype.dim.dim[i] = mv_u32 ();
  if (mv_bool ()) { g_fd.stype.tdp = &td; td.mr_type = g_aux; } else g_aux = MR_TYPE_VOID;
  g_fd.stype.mr_type_aux = g_elem; g_fd.stype.dim.size = g_dims * sizeof (g_fd.stype.dim.dim[0]);
  g_fd.non_persistent = mv_bool ();
  g_next = g_set = 0; g_failed = false; g_read_ok = mv_bool (); g_announced = mv_u32 ();
  g_sized = g_dims == 1 && !g_fd.non_persistent;
  g_expect = g_sized ? g_announced / ESZ : g_count;
  ra[1].data.ptr = g_data; ra[1].fdp = &g_fd;
  xdrs.x_op = XDR_DECODE;
  xdr_load_array (&xdrs, 1, &ptrs);
#else
  /* natively: a whole array is saved and loaded back through the binary format */
  static char name[] = "x"; mr_rarray_t s; mr_fd_t fd2;
  memset (&s, 0, sizeof (s));
  mem_never_fail = true;
  fill (&g_fd, name);
  g_dims = 1 + mv_u8 () % 4; g_total = 1;
  for (unsigned i = 0; i < g_dims; i++) g_total *= g_fd.stype.dim.dim[i] = 1 + mv_u8 () % 4;
  g_fd.stype.dim.size = g_dims * sizeof (g_fd.stype.dim.dim[0]); g_fd.stype.size = g_total; fd2 = g_fd;
  g_data = mv_malloc (g_total); char * back = mv_malloc (g_total);
  for (unsigned i = 0; i < g_total; i++) { g_data[i] = mv_u8 (); back[i] = ~g_data[i]; }
  mr_ra_ptrdes_t ptrs = mr_save (g_data, &g_fd);
  mv_assert (ptrs.ra != NULL, "saved");
  mr_xdrra_create (&xdrs, &s, XDR_ENCODE);
  mv_assert (mr_xdr_save (&xdrs, &ptrs) == MR_SUCCESS, "encoded");
  mr_xdrra_create (&xdrs, &s, XDR_DECODE);
  mv_assert (mr_xdr_load (back, &fd2, &xdrs) == MR_SUCCESS, "decoded");
  for (unsigned i = 0; i < g_total; i++) mv_assert (back[i] == g_data[i], "each element at its own place");
  if (g_dims == 1 && g_total > 1)
    {                                       /* one element less room than the stream announces */
      fd2 = g_fd; fd2.stype.size = fd2.stype.dim.dim[0] = g_total - 1;
      char * small = mv_malloc (g_total - 1);
      mr_xdrra_create (&xdrs, &s, XDR_DECODE);
      mv_assert (mr_xdr_load (small, &fd2, &xdrs) != MR_SUCCESS, "surplus elements are rejected");
    }
  mem_release ("", "", 0, s.data.ptr); mem_release ("", "", 0, ptrs.ra);
#endif
  MV_REACHED ();
}
