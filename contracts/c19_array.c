/* C19: arrays of any dimensions are saved and loaded element by element, in place, with the shape of the declaration */
//@ unit save1 harness=h_save enforce=mr_save_array replace=mr_save_inner,mr_pointer_get_size_ptrdes,mr_assign_int loops=yes kind=proof timeout=200 defs="-DSAVE -DESZ=1 -DESH=0"
//@ unit save3 harness=h_save enforce=mr_save_array replace=mr_save_inner,mr_pointer_get_size_ptrdes,mr_assign_int loops=yes kind=proof timeout=200 defs="-DSAVE -DESZ=3 -DESH=2" native=no
//@ unit save8 harness=h_save enforce=mr_save_array replace=mr_save_inner,mr_pointer_get_size_ptrdes,mr_assign_int loops=yes kind=proof timeout=200 defs="-DSAVE -DESZ=8 -DESH=3" native=no
//@ unit save24 harness=h_save enforce=mr_save_array replace=mr_save_inner,mr_pointer_get_size_ptrdes,mr_assign_int loops=yes kind=proof timeout=200 defs="-DSAVE -DESZ=24 -DESH=5" native=no
//@ unit load1 harness=h_load enforce=mr_load_array replace=mr_load loops=yes kind=proof timeout=200 defs="-DLOAD -DESZ=1 -DESH=0"
//@ unit load3 harness=h_load enforce=mr_load_array replace=mr_load loops=yes kind=proof timeout=200 defs="-DLOAD -DESZ=3 -DESH=2" native=no
//@ unit load8 harness=h_load enforce=mr_load_array replace=mr_load loops=yes kind=proof timeout=200 defs="-DLOAD -DESZ=8 -DESH=3" native=no
//@ unit load24 harness=h_load enforce=mr_load_array replace=mr_load loops=yes kind=proof timeout=200 defs="-DLOAD -DESZ=24 -DESH=5" native=no
//@ loop file=mr_save.c func=mr_save_array n=1 units=save1,save3,save8,save24 : __CPROVER_assigns (i, g_next, g_failed) __CPROVER_loop_invariant (i <= count && g_next == i && !g_failed)
//@ loop file=mr_load.c func=mr_load_array n=1 units=load1,load3,load8,load24 : __CPROVER_assigns (i, idx, status, g_next, g_failed, ptrs->ra[FIRST].next, ptrs->ra[FIRST + 1].next) __CPROVER_loop_invariant (i <= count && i <= g_nodes && g_next == i && !g_failed && status == MR_SUCCESS && ((i < g_nodes && idx == SLOT (i) && linked (ptrs->ra, i)) || (i == g_nodes && idx == MR_NULL_IDX)))
//@ trusted element sizes 1, 3, 8 and 24 are proved, each for every element count and number of dimensions (multiplication of two unknowns is out of the solver's reach)
//@ trusted mr_save_inner and mr_load by contract: they save or load the one element they are given (the recursion over nested dimensions is the same contract one level down)
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#define FIRST 2
#if MV_CBMC
#define MV_SAME_OBJECT(X, Y) __CPROVER_same_object (X, Y)
#else
#define MV_SAME_OBJECT(X, Y) true
#endif
#define DIMS (sizeof (((mr_fd_t *)0)->stype.dim.dim) / sizeof (((mr_fd_t *)0)->stype.dim.dim[0]))
static char * g_data; static uint32_t g_count, g_expect, g_next, g_nodes, g_dims; static uint64_t g_total; static bool g_failed, g_zero; static ssize_t g_size; static void * g_size_ptr;
static mr_fd_t g_fd; static mr_type_t g_elem, g_aux;
/* the list of nodes: node number I sits at FIRST + I % 2 (the loader of node I makes the slot of node I + 1 hold that node) */
#define SLOT(I) (FIRST + ((I) & 1))
#define linked(RA, I) (((I) + 1 < g_nodes && (RA)[SLOT (I)].next == SLOT ((I) + 1)) || ((I) + 1 >= g_nodes && (RA)[SLOT (I)].next == MR_NULL_IDX))
/* the descriptor of an element is the descriptor of the array without its first dimension */
static bool shape (mr_fd_t * fdp)
{
  if (fdp->stype.size != ESZ || !fdp->non_persistent || !fdp->unnamed || fdp->offset != 0 || fdp->stype.tdp != g_fd.stype.tdp) return (false);
  if (g_dims == 1) return (fdp->stype.mr_type == g_elem && fdp->stype.mr_type_aux == g_aux);
  if (fdp->stype.mr_type != MR_TYPE_ARRAY || fdp->stype.mr_type_aux != g_elem || fdp->stype.dim.size != (g_dims - 1) * sizeof (fdp->stype.dim.dim[0])) return (false);
  for (unsigned i = 0; i + 1 < DIMS; i++) if (i + 1 < g_dims && fdp->stype.dim.dim[i] != g_fd.stype.dim.dim[i + 1]) return (false);
  return (true);
}
static bool at_next (void * data) { return (MV_SAME_OBJECT (data, g_data) && (uint64_t)((char *)data - g_data) == (uint64_t)g_next * ESZ && (uint64_t)g_next * ESZ + ESZ <= g_total); }
#ifdef SAVE
#if MV_CBMC
#include "mr_save.h"
static mr_idx_t mr_save_array (mr_save_data_t * mr_save_data)
__CPROVER_assigns (g_next, g_failed, mr_save_data->ptrs.ra[1].MR_SIZE)
__CPROVER_ensures (g_zero || g_failed || (__CPROVER_return_value == 1 && g_next == g_expect))
__CPROVER_ensures ((!g_failed && !(g_zero && g_count)) || __CPROVER_return_value == 0)
__CPROVER_ensures (g_count != 0 || __CPROVER_return_value == 1)
__CPROVER_ensures (g_count == 0 || g_zero || g_dims > 1 || g_fd.non_persistent || mr_save_data->ptrs.ra[1].MR_SIZE == g_expect * ESZ);
static mr_idx_t mr_save_inner (void * data, mr_fd_t * fdp, mr_idx_t count, mr_save_data_t * mr_save_data, mr_idx_t parent)
__CPROVER_requires (g_next < g_expect && at_next (data))
__CPROVER_requires (shape (fdp) && count == g_expect - g_next && parent == 1 && !g_failed)
__CPROVER_assigns (g_next, g_failed)
__CPROVER_ensures (__CPROVER_return_value <= count && g_failed == (__CPROVER_return_value == 0) && g_next == __CPROVER_old (g_next) + __CPROVER_return_value);
void mr_pointer_get_size_ptrdes (mr_ptrdes_t * ptrdes, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_requires (idx == 1)
__CPROVER_assigns (*ptrdes)
__CPROVER_ensures (ptrdes->data.ptr == g_size_ptr);
void mr_assign_int (mr_ptrdes_t * dst, mr_ptrdes_t * src)
__CPROVER_requires (src->data.ptr == g_size_ptr && dst->mr_type == MR_TYPE_INT64)
__CPROVER_assigns (*(ssize_t *)dst->data.ptr)
__CPROVER_ensures (*(ssize_t *)dst->data.ptr == g_size);
#endif
#include "mr_save.c"
#else
#if MV_CBMC
static mr_status_t mr_load_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_assigns (g_next, g_failed, ptrs->ra[FIRST].next, ptrs->ra[FIRST + 1].next)
__CPROVER_ensures (g_zero || g_failed || g_nodes > g_count || (__CPROVER_return_value == MR_SUCCESS && g_next == g_nodes))
__CPROVER_ensures (!(g_failed || g_nodes > g_count || (g_zero && g_count)) || __CPROVER_return_value != MR_SUCCESS);
mr_status_t mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_requires (g_next < g_count && g_next < g_nodes && at_next (data))
__CPROVER_requires (shape (fdp) && idx == SLOT (g_next) && !g_failed)
__CPROVER_assigns (g_next, g_failed, ptrs->ra[SLOT (g_next + 1)].next)
__CPROVER_ensures (g_failed == (__CPROVER_return_value != MR_SUCCESS) && g_next == __CPROVER_old (g_next) + 1)
__CPROVER_ensures (g_next >= g_nodes || linked (ptrs->ra, g_next));
#endif
#include "mr_load.c"
#endif
static void make_array (void)
{
  memset (&g_fd, 0, sizeof (g_fd));
  static mr_td_t td;
  static char name[] = "x";
  g_count = mv_u32 () >> ESH; g_zero = mv_u8 () == 0;
  MV_NATIVE (g_count %= 5;)
  mv_assume ((uint64_t)g_count * ESZ <= UINT32_MAX);
  g_total = g_zero ? 0 : (uint64_t)g_count * ESZ;
  g_data = mv_malloc (g_total);
  mv_assume (g_data != NULL);
  g_dims = 1 + mv_u8 () % DIMS;
  g_fd.name.str = name; g_fd.offset = mv_u8 ();
  g_fd.stype.size = g_total; g_fd.stype.mr_type = MR_TYPE_ARRAY;
  g_fd.stype.dim.dim[0] = g_count;
#if MV_CBMC
  g_elem = mv_u8 (); g_aux = mv_u8 ();
  for (unsigned i = 1; i < DIMS; i++) g_fd.stype.dim.dim[i] = mv_u32 ();
  if (mv_bool ()) { g_fd.stype.tdp = &td; td.mr_type = g_aux; } else g_aux = MR_TYPE_VOID;
  g_fd.mr_type_base = g_aux;
#endif
  g_fd.stype.mr_type_aux = g_elem; g_fd.stype.dim.size = g_dims * sizeof (g_fd.stype.dim.dim[0]);
  g_next = 0; g_failed = false;
}
#if !MV_CBMC
/* natively whole arrays of int8 are saved and loaded, against the declared dimensions */
static uint32_t g_dim[4];
static void native_array (void)
{
  memset (&g_fd, 0, sizeof (g_fd));
  static char name[] = "x"; g_fd.name.str = name;
  g_dims = 1 + mv_u8 () % 4; g_total = 1;
  for (unsigned i = 0; i < g_dims; i++) g_total *= g_dim[i] = g_fd.stype.dim.dim[i] = 1 + mv_u8 () % 4;
  if (g_dims < 4 && mv_u8 () == 0) { g_dim[0] = g_fd.stype.dim.dim[0] = 0; g_total = 0; }
  g_fd.stype.dim.size = g_dims * sizeof (g_dim[0]);
  g_fd.stype.size = g_total; g_fd.stype.mr_type = MR_TYPE_ARRAY; g_fd.stype.mr_type_aux = MR_TYPE_INT8; g_fd.mr_type_base = MR_TYPE_INT8;
  g_data = mv_malloc (g_total + (g_total == 0));
  for (unsigned i = 0; i < g_total; i++) g_data[i] = i;
}
#endif
#ifdef SAVE
#if !MV_CBMC
static unsigned g_leaf;
static void check_node (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, unsigned level)
{
  uint32_t n = 0;
  if (level == g_dims)
    {
      mv_assert (ptrs->ra[idx].mr_type == MR_TYPE_INT8 && ptrs->ra[idx].data.ptr == g_data + g_leaf, "element at its own place");
      mv_assert (ptrs->ra[idx].first_child == MR_NULL_IDX, "leaf"); g_leaf++;
      return;
    }
  mv_assert (ptrs->ra[idx].mr_type == MR_TYPE_ARRAY, "nested array");
  for (mr_idx_t i = ptrs->ra[idx].first_child; i != MR_NULL_IDX; i = ptrs->ra[i].next, n++) check_node (ptrs, i, level + 1);
  mv_assert (n == g_dim[level], "as many nodes as the dimension says");
}
#endif
void h_save (void)
{
  mem_init ();
#if MV_CBMC
  static mr_save_data_t sd; static mr_ptrdes_t ra[2]; static char size_cell[8];
  make_array ();
  g_fd.non_persistent = mv_bool ();
  g_size = mv_u64 (); g_size_ptr = mv_bool () ? size_cell : NULL;
  g_expect = g_count;
  if (g_dims == 1 && !g_fd.non_persistent && g_size_ptr)
    g_expect = g_size <= 0 ? 0 : (uint64_t)g_size / ESZ < g_count ? (uint64_t)g_size / ESZ : g_count;
  sd.ptrs.ra = ra; sd.ptrs.size = sizeof (ra); sd.ptrs.alloc_size = sizeof (ra);
  ra[1].data.ptr = g_data; ra[1].fdp = &g_fd;
  mr_save_array (&sd);
#else
  mem_never_fail = true;
  native_array ();
  if (g_total == 0) return;
  mr_ra_ptrdes_t ptrs = mr_save (g_data, &g_fd);
  mv_assert (ptrs.ra != NULL, "saved");
  g_leaf = 0;
  check_node (&ptrs, 1, 0);
  mv_assert (g_leaf == g_total, "every element is saved once");
  MR_FREE (ptrs.ra);
#endif
  MV_REACHED ();
}
#else
#if !MV_CBMC
static mr_ptrdes_t g_ra[1024]; static mr_idx_t g_used; static unsigned g_filled; static int8_t g_want[512]; static bool g_bad;
static mr_idx_t build (unsigned level, unsigned at, unsigned span)
{
  mr_idx_t idx = g_used++;
  if (level == g_dims)
    {
      mr_intmax_t v = (int8_t)mv_u8 ();
      g_ra[idx].value_type = MR_VT_INT; memcpy (&g_ra[idx].load_params.vt_int, &v, sizeof (v)); if (!g_bad) g_want[at] = v;
      return (idx);
    }
  unsigned n = g_dim[level];
  unsigned r = mv_u8 ();
  if (r % 4 == 0) n = r / 4 % (n + 1); else if (r % 64 == 1) n++;
  mr_idx_t last = MR_NULL_IDX;
  for (unsigned i = 0; i < n; i++)
    {
      if (i >= g_dim[level]) g_bad = true;
      mr_idx_t c = build (level + 1, at + i * (span / (g_dim[level] ? g_dim[level] : 1)), span / (g_dim[level] ? g_dim[level] : 1));
      g_ra[c].parent = idx;
      if (last == MR_NULL_IDX) g_ra[idx].first_child = c; else g_ra[last].next = c;
      last = c;
    }
  return (idx);
}
#endif
void h_load (void)
{
  mem_init ();
#if MV_CBMC
  make_array ();
  g_nodes = mv_u32 (); mv_assume (g_nodes < (1U << 31));
  static mr_ptrdes_t ra[FIRST + 2]; mr_ra_ptrdes_t ptrs = { .ra = ra, .size = sizeof (ra), .alloc_size = sizeof (ra) };
  ra[1].data.ptr = g_data; ra[1].fdp = &g_fd; ra[1].first_child = g_nodes ? SLOT (0) : MR_NULL_IDX;
  mv_assume (g_nodes == 0 || linked (ra, 0));
  mr_load_array (1, &ptrs);
#else
  mem_never_fail = true;
  native_array ();
  memset (g_ra, 0, sizeof (g_ra)); g_used = 1; g_bad = false;
  for (unsigned i = 0; i < g_total; i++) g_want[i] = g_data[i];
  build (0, 0, g_total);
  mr_ra_ptrdes_t ptrs = { .ra = g_ra, .size = g_used * sizeof (g_ra[0]), .alloc_size = sizeof (g_ra) };
  mr_status_t st = mr_load (g_data, &g_fd, 1, &ptrs);
  mv_assert ((st == MR_SUCCESS) == !g_bad, "surplus elements are rejected, others are accepted");
  if (!g_bad) for (unsigned i = 0; i < g_total; i++) mv_assert (g_data[i] == g_want[i], "each element is loaded at its own place");
#endif
  MV_REACHED ();
}
#endif
