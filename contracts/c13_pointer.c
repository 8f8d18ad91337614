/* C13: xdr_load_pointer decodes every element inside the block it allocated for the announced size */
//@ unit ptr0 harness=h_ptr enforce=xdr_load_pointer replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t,xdr_int,xdr_opaque,mr_type_size loops=yes kind=proof timeout=200 defs="-DESZ=0" unwind=6 objbits=10
//@ unit ptr1 harness=h_ptr enforce=xdr_load_pointer replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t,xdr_int,xdr_opaque,mr_type_size loops=yes kind=proof timeout=200 defs="-DESZ=1" unwind=6 objbits=10
//@ unit ptr4 harness=h_ptr enforce=xdr_load_pointer replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t,xdr_int,xdr_opaque,mr_type_size loops=yes kind=proof timeout=200 defs="-DESZ=4" native=no unwind=6 objbits=10
//@ unit ptr24 harness=h_ptr enforce=xdr_load_pointer replace=xdr_load_inner,mr_pointer_set_size,xdr_uint32_t,xdr_int,xdr_opaque,mr_type_size loops=yes kind=proof timeout=200 defs="-DESZ=24" native=no unwind=6 objbits=10
//@ loop file=xdr.c func=xdr_load_pointer n=1 : __CPROVER_assigns (i, g_calls) __CPROVER_loop_invariant (i <= count && g_calls == i) __CPROVER_decreases (count - i)
//@ trusted xdr_load_pointer: element sizes 0 (dynamic string), 1, 4 and 24 are proved, each for every announced size
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#include <rpc/types.h>
#include <rpc/xdr.h>
static char * g_block; static unsigned g_calls; static uint32_t g_block_size;
#if MV_CBMC
static mr_status_t xdr_load_pointer (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_assigns (ptrs->ra[idx].MR_SIZE, ptrs->ra[idx].flags, ptrs->ra[idx].first_child, *(char **)ptrs->ra[idx].data.ptr, g_calls, mem_allocs, mem_failed)
/* success: NULL, a reference, or one block of exactly the announced size */
__CPROVER_ensures (__CPROVER_return_value != MR_SUCCESS || mem_allocs <= 1)
__CPROVER_ensures (mem_allocs == 1 ==> *(char **)ptrs->ra[idx].data.ptr != NULL && __CPROVER_OBJECT_SIZE (*(char **)ptrs->ra[idx].data.ptr) == ptrs->ra[idx].MR_SIZE)
__CPROVER_ensures (mem_allocs == 0 ==> *(char **)ptrs->ra[idx].data.ptr == NULL)
__CPROVER_ensures ((__CPROVER_return_value == MR_SUCCESS && mem_allocs == 0) ==> (ptrs->ra[idx].flags & (MR_IS_NULL | MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) != 0);
static mr_status_t xdr_load_inner (void * data, mr_fd_t * fdp, XDR * xdrs, mr_ra_ptrdes_t * ptrs, mr_idx_t parent)
__CPROVER_requires (fdp->stype.size == ESZ)
__CPROVER_requires (__CPROVER_w_ok (data, ESZ ? ESZ : 1))
__CPROVER_requires ((uint64_t)__CPROVER_POINTER_OFFSET (data) == (uint64_t)g_calls * ESZ)
__CPROVER_requires (parent == 1)
__CPROVER_assigns (g_calls)
__CPROVER_ensures (g_calls == __CPROVER_old (g_calls) + 1);
void mr_pointer_set_size (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_requires (idx == 1)
__CPROVER_assigns ()
__CPROVER_ensures (true);
bool_t xdr_uint32_t (XDR * xdrs, uint32_t * p)
__CPROVER_assigns (*p)
__CPROVER_ensures (true);
bool_t xdr_int (XDR * xdrs, int * p)
__CPROVER_assigns (*p)
__CPROVER_ensures (true);
bool_t xdr_opaque (XDR * xdrs, char * p, u_int n)
__CPROVER_requires (n == 0 || __CPROVER_w_ok (p, n))
__CPROVER_assigns ()
__CPROVER_ensures (true);
mr_size_t mr_type_size (mr_type_t t)
__CPROVER_assigns ()
__CPROVER_ensures (__CPROVER_return_value == ESZ || __CPROVER_return_value == 0);
#endif
#include "xdr.c"
void h_ptr (void)
{
  mr_ptrdes_t * ra = mv_malloc (3 * sizeof (*ra)); mr_ra_ptrdes_t ptrs = { .ra = ra, .size = (MV_CBMC ? 3 : 2) * sizeof (*ra), .alloc_size = 3 * sizeof (*ra) };
  static mr_fd_t fd; static XDR xdrs; static mr_td_t td;
  char * target = (char *)&fd;
  mv_assume (ra != NULL);
  mem_init ();
  MV_NATIVE (memset (ra, 0, 3 * sizeof (*ra)); memset (&fd, 0, sizeof (fd)); memset (&td, 0, sizeof (td)); mem_never_fail = true;)
  g_calls = 0;
  td.size = ESZ;
  fd.stype.tdp = ESZ == 0 && mv_bool () ? NULL : &td;
  ra[1].data.ptr = &target; ra[1].fdp = &fd; ra[1].mr_type = MR_TYPE_POINTER;
  xdrs.x_op = XDR_DECODE;
#if !MV_CBMC
  td.mr_type = MR_TYPE_CHAR_ARRAY;
  if (ESZ > 1) mv_skip ();
  ra[1].mr_type_aux = ESZ == 1 && mv_bool () ? MR_TYPE_INT8 : MR_TYPE_CHAR_ARRAY;
  mr_rarray_t s; uint32_t n = mv_u64 () % 200;
  s.data.ptr = mv_malloc (n); s.MR_SIZE = s.alloc_size = n;
  for (uint32_t i = 0; i < n; i++) ((uint8_t *)s.data.ptr)[i] = i % 4 == 3 ? mv_u8 () % 40 : 0;
  mr_xdrra_create (&xdrs, &s, XDR_DECODE);
  extern int mv_keep_blocks; mv_keep_blocks = 1;
#endif
  xdr_load_pointer (&xdrs, 1, &ptrs);
  MV_REACHED ();
}
