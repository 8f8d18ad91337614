/* C07: resizable arrays (mr_rarray_allocate_element, mr_rarray_append, mr_add_ptr_to_list) */
//@ unit rarray harness=h_rarray enforce=mr_rarray_allocate_element unwind=6 kind=proof
//@ unit append harness=h_append enforce=mr_rarray_append unwind=6 kind=proof
//@ unit addptr harness=h_addptr enforce=mr_add_ptr_to_list timeout=250 unwind=6 kind=proof
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#define RA_MAX (SSIZE_MAX / 2)
static uint8_t * g_blk; static ssize_t g_size, g_alloc, g_el; static uint8_t g_byte; static size_t g_k; static bool g_null;
#if MV_CBMC
#define BLK_SIZE(P) __CPROVER_OBJECT_SIZE (P)
#define BLK_OK(P) (__CPROVER_POINTER_OFFSET (P) == 0)
#else
#include <malloc.h>
#define BLK_SIZE(P) malloc_usable_size (P)
#define BLK_OK(P) true
#endif
/* the whole contract: growth by g_el bytes of a block with g_size of g_alloc bytes in use */
static bool ra_post (void * data, ssize_t size, ssize_t alloc, void * ret)
{
  if (ret == NULL)
    return (data == g_blk && size == g_size && alloc == g_alloc && (g_blk == NULL || g_size < 0 || g_k >= (size_t)g_size || g_blk[g_k] == g_byte));
  if (g_null || g_el < 0 || g_size < 0) return (false);
  if (size != g_size + g_el || alloc < size || alloc < g_alloc) return (false);
  if (data == NULL || !BLK_OK (data) || BLK_SIZE (data) < (size_t)alloc) return (false);
  if (ret != (char *)data + g_size) return (false);
  return (g_k >= (size_t)g_size || ((uint8_t *)data)[g_k] == g_byte);
}
#if MV_CBMC
void * mr_rarray_allocate_element (void ** data, ssize_t * size, ssize_t * alloc_size, ssize_t element_size)
__CPROVER_assigns (data != NULL: *data; size != NULL: *size; alloc_size != NULL: *alloc_size; mem_allocs, mem_failed)
__CPROVER_frees (g_blk)
__CPROVER_ensures (!g_null ==> ra_post (*data, *size, *alloc_size, __CPROVER_return_value))
__CPROVER_ensures (g_null ==> __CPROVER_return_value == NULL);
void * mr_rarray_append (mr_rarray_t * rarray, ssize_t size)
__CPROVER_assigns (rarray->data.ptr, rarray->MR_SIZE, rarray->alloc_size, mem_allocs, mem_failed)
__CPROVER_frees (g_blk)
__CPROVER_ensures (ra_post (rarray->data.ptr, rarray->MR_SIZE, rarray->alloc_size, __CPROVER_return_value));
mr_idx_t mr_add_ptr_to_list (mr_ra_ptrdes_t * ptrs)
__CPROVER_assigns (ptrs->ra, ptrs->size, ptrs->alloc_size, mem_allocs, mem_failed, __CPROVER_object_whole (g_blk))
__CPROVER_frees (g_blk)
__CPROVER_ensures (__CPROVER_return_value == MR_NULL_IDX ==> ra_post (ptrs->ra, ptrs->size, ptrs->alloc_size, NULL))
__CPROVER_ensures (__CPROVER_return_value != MR_NULL_IDX ==> ra_post (ptrs->ra, ptrs->size, ptrs->alloc_size, (char *)ptrs->ra + g_size) && __CPROVER_return_value == ptrs->size / sizeof (ptrs->ra[0]) - 1);
#endif
#define MV_IN_METARESC_C
#include "metaresc.c"
static void setup (ssize_t unit)
{
  mem_init ();
  g_alloc = (ssize_t)(mv_u64 ()); g_size = (ssize_t)(mv_u64 ());
#if MV_CBMC
  mv_assume (g_alloc >= 0 && g_alloc <= RA_MAX / 4 && g_size <= g_alloc);
#else
  g_alloc &= 1023; g_size = g_size < 0 ? -1 : g_size % (g_alloc + 1);
#endif
  if (unit > 1 && !MV_CBMC) { g_size = g_size < 0 ? 0 : g_size - g_size % unit; }
  g_k = (size_t)mv_u64 ();
  g_blk = NULL; g_byte = mv_u8 ();
  if (g_alloc > 0)
    {
      g_blk = mv_malloc (g_alloc); mv_assume (g_blk != NULL);
      MV_NATIVE (g_k %= g_alloc;)
      if (g_k < (size_t)g_alloc) g_blk[g_k] = g_byte;
    }
  else MV_NATIVE (g_k = 0;);
  MV_NATIVE (extern int mv_keep_blocks; mv_keep_blocks = 1;)
  mem_k[0] = g_k; mem_k[1] = mem_k[2] = mem_k[3] = g_k;
}
void h_rarray (void)
{
  void * data; ssize_t size, alloc;
  setup (0);
  data = g_blk; size = g_size; alloc = g_alloc;
  g_el = (ssize_t)mv_u64 ();
  MV_NATIVE (g_el = g_el < 0 ? -1 : g_el & 1023;)
  mv_assume (g_el <= RA_MAX / 4);
  void ** d = mv_bool () ? &data : NULL; ssize_t * s = mv_bool () ? &size : NULL, * a = mv_bool () ? &alloc : NULL;
  g_null = !d || !s || !a;
  void * r = mr_rarray_allocate_element (d, s, a, g_el);
  MV_NATIVE (mv_assert (g_null ? r == NULL : ra_post (data, size, alloc, r), "array growth");)
  MV_REACHED ();
}
void h_append (void)
{
  static mr_rarray_t ra;
  setup (0);
  ra.data.ptr = g_blk; ra.MR_SIZE = g_size; ra.alloc_size = g_alloc;
  g_el = (ssize_t)mv_u64 ();
  MV_NATIVE (g_el = g_el < 0 ? -1 : g_el & 1023;)
  mv_assume (g_el <= RA_MAX / 4);
  g_null = false;
  void * r = mr_rarray_append (&ra, g_el);
  MV_NATIVE (mv_assert (ra_post (ra.data.ptr, ra.MR_SIZE, ra.alloc_size, r), "array growth");)
  MV_REACHED ();
}
void h_addptr (void)
{
  static mr_ra_ptrdes_t ptrs;
  memset (&ptrs, 0, sizeof (ptrs));
  setup (sizeof (mr_ptrdes_t));
  /* slot 0 is the reserved null index: both savers and loaders create it first */
  mv_assume (g_size >= sizeof (mr_ptrdes_t) && g_size / sizeof (mr_ptrdes_t) < UINT32_MAX - 1 && g_alloc < (1L << 40));
  ptrs.ra = (mr_ptrdes_t *)g_blk; ptrs.size = g_size; ptrs.alloc_size = g_alloc;
  g_el = sizeof (mr_ptrdes_t); g_null = false;
  mr_idx_t i = mr_add_ptr_to_list (&ptrs);
  mv_assert ((i == MR_NULL_IDX) == (mem_failed == 1), "index of the new descriptor");
  if (i != MR_NULL_IDX)
    {
      size_t z = mv_u64 () % sizeof (mr_ptrdes_t);
      mv_assert (((uint8_t *)ptrs.ra)[g_size + z] == 0, "the new descriptor is cleared");
    }
  MV_NATIVE (mv_assert (ra_post (ptrs.ra, ptrs.size, ptrs.alloc_size, i == MR_NULL_IDX ? NULL : (void *)&ptrs.ra[i]), "array growth");)
  MV_REACHED ();
}
