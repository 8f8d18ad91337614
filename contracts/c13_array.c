/* C13: xdr_load_array never lets an element be decoded outside the array, whatever size the stream announces */
//@ unit array1 harness=h_array enforce=xdr_load_array replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t loops=yes kind=proof timeout=200 defs="-DESZ=1 -DESH=0"
//@ unit array3 harness=h_array enforce=xdr_load_array replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t loops=yes kind=proof timeout=200 defs="-DESZ=3 -DESH=2" native=no
//@ unit array4 harness=h_array enforce=xdr_load_array replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t loops=yes kind=proof timeout=200 defs="-DESZ=4 -DESH=2"
//@ unit array8 harness=h_array enforce=xdr_load_array replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t loops=yes kind=proof timeout=200 defs="-DESZ=8 -DESH=3" native=no
//@ unit array24 harness=h_array enforce=xdr_load_array replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t loops=yes kind=proof timeout=200 defs="-DESZ=24 -DESH=5" native=no
//@ loop file=xdr.c func=xdr_load_array n=1 : __CPROVER_assigns (i, g_calls) __CPROVER_loop_invariant (i <= count && g_calls == i) __CPROVER_decreases (count - i)
//@ trusted xdr_load_array: element sizes 1, 3, 4, 8 and 24 are proved, each for every element count (multiplication of two unknowns is out of the solver's reach)
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#include <rpc/xdr.h>
static char * g_data; static uint32_t g_count; static uint64_t g_total; static unsigned g_calls; static mr_fd_t * g_fd; static uint32_t g_esize;
#if MV_CBMC
static mr_status_t xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_assigns (ptrs->ra[idx].MR_SIZE, g_calls)
__CPROVER_ensures (true);
/* contract of the element loader: it may write anywhere in the element it is given, so the element must lie inside the array */
static mr_status_t xdr_load_inner (void * data, mr_fd_t * fdp, XDR * xdrs, mr_ra_ptrdes_t * ptrs, mr_idx_t parent)
__CPROVER_requires (fdp->stype.size == g_esize)
__CPROVER_requires (__CPROVER_same_object (data, g_data) && (char *)data >= g_data && (uint64_t)((char *)data - g_data) + fdp->stype.size <= g_total)
__CPROVER_requires ((uint64_t)((char *)data - g_data) == (uint64_t)g_calls * g_esize)
__CPROVER_requires (parent == 1)
__CPROVER_assigns (g_calls)
__CPROVER_ensures (g_calls == __CPROVER_old (g_calls) + 1);
void mr_pointer_set_size (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_requires (idx == 1 && ptrs->ra[idx].MR_SIZE <= g_total)
__CPROVER_assigns ()
__CPROVER_ensures (true);
bool_t xdr_uint32_t (XDR * xdrs, uint32_t * p)
__CPROVER_assigns (*p)
__CPROVER_ensures (true);
#endif
#include "xdr.c"
void h_array (void)
{
  mr_ptrdes_t * ra = mv_malloc (3 * sizeof (*ra)); mr_ra_ptrdes_t ptrs = { .ra = ra, .size = 3 * sizeof (*ra), .alloc_size = 3 * sizeof (*ra) };
  static mr_fd_t fd; static XDR xdrs; static mr_td_t td;
  mv_assume (ra != NULL);
  mem_init ();
  MV_NATIVE (memset (ra, 0, 3 * sizeof (*ra)); memset (&fd, 0, sizeof (fd)); mem_never_fail = true;)
  g_count = mv_u32 () >> ESH; g_esize = ESZ;
  MV_NATIVE (g_count &= 15;)
  mv_assume ((uint64_t)g_count * g_esize <= UINT32_MAX);
  g_total = (uint64_t)g_count * g_esize;
  g_data = mv_malloc (g_total);
  mv_assume (g_data != NULL);
  g_fd = &fd; g_calls = 0;
  fd.stype.dim.dim[0] = g_count; fd.stype.size = g_total; fd.non_persistent = mv_bool ();
  unsigned dims = 1 + mv_u8 () % 3;
  fd.stype.dim.size = sizeof (fd.stype.dim.dim[0]) * dims;
  fd.stype.tdp = mv_bool () ? &td : NULL;
  ra[1].data.ptr = g_data; ra[1].fdp = &fd;
#if MV_CBMC
  xdrs.x_op = XDR_DECODE;
#else
  /* natively the elements are really decoded, from an arbitrary stream */
  mr_rarray_t s; uint32_t n = mv_u64 () % 200; static char name[] = "x";
  s.data.ptr = mv_malloc (n); s.MR_SIZE = s.alloc_size = n;
  for (uint32_t i = 0; i < n; i++) ((uint8_t *)s.data.ptr)[i] = i % 4 == 3 ? mv_u8 () % 40 : mv_bool () ? 0 : mv_u8 ();
  mr_xdrra_create (&xdrs, &s, XDR_DECODE);
  for (unsigned i = 1; i < 3; i++) fd.stype.dim.dim[i] = i < dims ? 1 : 0;
  fd.name.str = name; fd.stype.mr_type = MR_TYPE_ARRAY; fd.stype.tdp = NULL;
  fd.stype.mr_type_aux = ESZ == 4 ? MR_TYPE_INT32 : mv_bool () ? MR_TYPE_INT8 : MR_TYPE_CHAR_ARRAY;
  extern int mv_keep_blocks; mv_keep_blocks = 1;
#endif
  xdr_load_array (&xdrs, 1, &ptrs);
  MV_REACHED ();
}
