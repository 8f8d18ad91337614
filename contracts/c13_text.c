/* C13: decoding a character array, a string or a pointer writes only inside the target or a block allocated for it */
//@ unit charray harness=h_charray functions=xdr_char_array_ kind=proof unwind=8 defs="-DDYN=0"
//@ unit charray_dyn harness=h_charray functions=xdr_char_array_ kind=proof unwind=8 defs="-DDYN=1"
//@ unit loadstr harness=h_loadstr functions=xdr_load_string kind=proof unwind=8
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#define MV_NO_XDR_UINT32
#define MV_NO_XDR_OPAQUE
#include "tirpc.h"
/* The filters by contract: xdr_uint32_t delivers any value or fails; xdr_opaque may write all the n bytes it was asked for, whatever it returns. */
#ifndef DYN
#define DYN 0
#endif
static uint32_t g_len; static uint8_t * g_op_p; static uint32_t g_op_n; static unsigned g_ops; static uint64_t g_z; static uint8_t g_text;
#if MV_CBMC
bool_t xdr_uint32_t (XDR * x, uint32_t * p)
{
  if (mv_bool ()) return (FALSE);
  if (XDR_DECODE == x->x_op) *p = g_len;
  return (TRUE);
}
bool_t xdr_opaque (XDR * x, char * p, u_int n)
{
  g_ops++; g_op_p = (uint8_t *)p; g_op_n = n;
  if (XDR_DECODE == x->x_op)
    {
      mv_assert (n == 0 || __CPROVER_w_ok (p, n), "bytes are decoded into memory of at least that size");
      if (g_z < n) p[g_z] = g_text;
    }
  return (mv_bool ());
}
#endif
#include "xdr.c"
static XDR g_x;
#if MV_CBMC
static bool_t nolong (XDR * x, long * l) { *l = (int32_t)mv_u32 (); return (mv_bool ()); }
static const struct xdr_ops g_xops = { .x_getlong = nolong };
#else
static mr_rarray_t g_ra;
#endif
static void stream_init (void)
{
  g_len = mv_u32 (); g_z = mv_u64 (); g_text = mv_u8 (); g_ops = 0; g_op_p = NULL; g_op_n = 0;
#if MV_CBMC
  g_x.x_op = XDR_DECODE; g_x.x_ops = &g_xops;
#else
  uint32_t n = mv_u64 () % 60;
  uint8_t * b = mv_malloc (n);
  for (uint32_t i = 0; i < n; i++) b[i] = i % 4 != 3 && mv_u8 () % 4 ? 0 : mv_u8 () % 32;
  g_ra.data.ptr = b; g_ra.MR_SIZE = g_ra.alloc_size = n;
  mr_xdrra_create (&g_x, &g_ra, XDR_DECODE);
#endif
}
static mr_ptrdes_t * g_nodes; static mr_ra_ptrdes_t g_ptrs; static mr_fd_t g_fd; static mr_td_t g_td;
static void nodes_init (void)
{
  mem_init ();
  g_nodes = mv_malloc (3 * sizeof (*g_nodes));
  mv_assume (g_nodes != NULL);
  g_ptrs.ra = g_nodes; g_ptrs.size = g_ptrs.alloc_size = 3 * sizeof (*g_nodes);
  MV_NATIVE (memset (g_nodes, 0, 3 * sizeof (*g_nodes)); memset (&g_fd, 0, sizeof (g_fd)); memset (&g_td, 0, sizeof (g_td));)
  MV_NATIVE (extern int mv_keep_blocks; mv_keep_blocks = 1; mem_never_fail = false;)
}
void h_charray (void)
{
  nodes_init ();
  stream_init ();
  /* a character array field or element of g_size bytes; a pointer to a single char holds a dynamic string */
  uint32_t size = mv_u32 ();
  MV_NATIVE (size %= 40;)
#if DYN
  size = 1;
#endif
  uint8_t * field = mv_malloc (size);
  mv_assume (field != NULL);
  static char name[] = "field";
  g_fd.name.str = name; g_fd.stype.mr_type = MR_TYPE_CHAR_ARRAY; g_fd.stype.size = size;
  void * holder = field;
  g_nodes[2].fdp = &g_fd; g_nodes[2].mr_type = MR_TYPE_CHAR_ARRAY; g_nodes[2].data.ptr = field; g_nodes[2].MR_SIZE = 0;
  g_nodes[1].data.ptr = &holder;
  g_nodes[2].parent = DYN || mv_bool () ? 1 : MR_NULL_IDX;
  g_nodes[1].mr_type = DYN || mv_bool () ? MR_TYPE_POINTER : MR_TYPE_STRUCT;
  g_nodes[1].MR_SIZE = DYN ? 1 : mv_u32 ();
  /* any other pointer holds a whole number of elements, and more than a single char */
  if (!DYN && g_nodes[1].mr_type == MR_TYPE_POINTER) mv_assume (g_nodes[1].MR_SIZE >= size && g_nodes[1].MR_SIZE > 1);
  mr_status_t st = xdr_char_array_ (&g_x, 2, &g_ptrs);
  if (!DYN) mv_assert (holder == field && g_nodes[2].data.ptr == field && mem_failed == 0 && mem_allocs == 0 && mem_frees == 0, "a field of fixed size is never reallocated");
  else mv_assert (holder == g_nodes[2].data.ptr, "the holder points at the string");
#if MV_CBMC
  mv_assert (g_ops <= 1 && (g_ops == 0 || (g_op_p == g_nodes[2].data.ptr && g_op_n == g_len)), "the announced number of bytes is decoded once, into the target");
  mv_assert (st != MR_SUCCESS || g_ops == 1, "success means the text was decoded");
#endif
  MV_REACHED ();
}
void h_loadstr (void)
{
  nodes_init ();
  stream_init ();
  char * str = (char *)&g_fd;
  g_nodes[1].data.ptr = &str; g_nodes[1].fdp = &g_fd; g_nodes[1].mr_type = MR_TYPE_STRING; g_nodes[1].first_child = MR_NULL_IDX; g_nodes[1].flags = MR_NO_FLAGS;
  mr_status_t st = xdr_load_string (&g_x, 1, &g_ptrs);
  bool ref = (g_nodes[1].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) != 0;
  if (st == MR_SUCCESS)
    {
      mv_assert (ref == (str == (char *)&g_fd), "only references leave the string unset");
      mv_assert (ref || str == NULL || mem_allocs == 1, "one block is allocated for a string");
      if (!ref && str != NULL)
	{
#if MV_CBMC
	  mv_assert (g_ops == 1 && g_op_p == (uint8_t *)str && g_op_n == g_len && str[g_len] == 0, "the announced text is decoded into the new block, which ends with NUL");
#else
	  uint8_t * b = g_ra.data.ptr; uint32_t len = (uint32_t)b[4] << 24 | b[5] << 16 | b[6] << 8 | b[7];
	  mv_assert (str[len] == 0 && !memcmp (str, b + 8, len), "the announced text is decoded into the new block, which ends with NUL");
#endif
	}
    }
  MV_REACHED ();
}
