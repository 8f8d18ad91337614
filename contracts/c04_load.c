/* C04: storing a parsed integer into an integral target (mr_load_integer, mr_load_bitfield) */
//@ unit loadint harness=h_loadint enforce=mr_load_integer replace=mr_ptrdes_to_mr_value,mr_value_cast unwind=18 kind=proof
//@ unit loadbf harness=h_loadbf enforce=mr_load_bitfield replace=mr_ptrdes_to_mr_value,mr_value_cast,mr_load_bitfield_value unwind=19 kind=proof
#include "mv.h"
#include "stubs.h"
#include "ints.h"
#include "bf.h"
#include <mr_value.h>
static uint8_t * g_mem; static unsigned g_n; static mv_u128_t g_v; static uint8_t g_dold[18];
static bool g_ok;
static bool same_mem (void) { for (unsigned i = 0; i < 17; i++) if (i < g_n && g_mem[i] != g_dold[i]) return (false); return (true); }
static bool li_post (mr_ptrdes_t * p, mr_status_t st)
{
  mr_type_t t = p->mr_type;
  if (it_known (t) && t != MR_TYPE_CHAR) return (g_ok ? (st == MR_SUCCESS && it_holds (t, g_mem, g_v)) : (st == MR_FAILURE && same_mem ()));
  if (t == MR_TYPE_ENUM)
    {
      if (!g_ok) return (st == MR_FAILURE && same_mem ());
      if (st != MR_SUCCESS) return (false);
      for (unsigned i = 0; i < 16; i++) if (i < g_n && g_mem[i] != (uint8_t)(g_v >> (8 * i))) return (false);
      return (true);
    }
  return (st == MR_FAILURE && same_mem ());
}
static bool val_is (mr_value_t * v, mv_u128_t x) { return ((mv_u128_t)v->vt_int == x); }
#if MV_CBMC
//@ trusted at call sites in C04 mr_value_cast(MR_VT_INT) / mr_ptrdes_to_mr_value are taken by contract (C05 enforces them): they deliver the parsed integer or fail
mr_status_t mr_ptrdes_to_mr_value (mr_value_t * mr_value, mr_ptrdes_t * ptrdes)
__CPROVER_assigns (*mr_value)
__CPROVER_ensures (__CPROVER_return_value == MR_SUCCESS || (__CPROVER_return_value == MR_FAILURE && !g_ok))
__CPROVER_ensures (g_ok ==> val_is (mr_value, g_v));
mr_status_t mr_value_cast (mr_value_type_t value_type, mr_value_t * mr_value)
__CPROVER_requires (value_type == MR_VT_INT)
__CPROVER_assigns (*mr_value)
__CPROVER_ensures (__CPROVER_return_value == (g_ok ? MR_SUCCESS : MR_FAILURE))
__CPROVER_ensures (g_ok ==> val_is (mr_value, g_v));
mr_status_t mr_load_integer (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_assigns (__CPROVER_object_whole (g_mem))
__CPROVER_ensures (li_post (&ptrs->ra[idx], __CPROVER_return_value));
static mr_status_t mr_load_bitfield (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
__CPROVER_assigns (__CPROVER_object_whole (g_mem))
__CPROVER_ensures (__CPROVER_return_value == (g_ok ? MR_SUCCESS : MR_FAILURE))
__CPROVER_ensures (g_ok ? bf_stored (&ptrs->ra[idx], g_v) : same_mem ());
#endif
#include "mr_load.c"
static mr_fd_t fd; static mr_ptrdes_t pd[2]; static mr_ra_ptrdes_t ptrs;
static void common (void)
{
  memset (&fd, 0, sizeof (fd)); memset (pd, 0, sizeof (pd)); memset (&ptrs, 0, sizeof (ptrs));
  ptrs.ra = pd; ptrs.size = sizeof (pd);
  pd[1].fdp = &fd;
  g_ok = mv_bool ();
  g_v = mv_u128 ();
  pd[1].value_type = g_ok ? MR_VT_INT : MR_VT_VOID;
  memcpy (&pd[1].load_params.vt_int, &g_v, sizeof (g_v));
  pd[1].mr_type = mv_u8 () & 63;
}
static void mem_setup (unsigned n)
{
  g_n = n;
  g_mem = mv_malloc (n);
  mv_assume (g_mem != NULL);
  for (unsigned k = 0; k < 17; k++) { uint8_t b = mv_u8 (); if (k < n) { g_mem[k] = b; g_dold[k] = b; g_old[k] = b; } }
  pd[1].data.ptr = g_mem;
}
void h_loadint (void)
{
  common ();
  fd.stype.size = mv_u8 ();
  mv_assume (fd.stype.size >= 1 && fd.stype.size <= 16);
  mem_setup (it_known (pd[1].mr_type) ? it_size (pd[1].mr_type) : fd.stype.size);
  mr_status_t st = mr_load_integer (1, &ptrs);
  MV_NATIVE (mv_assert (li_post (&pd[1], st), "loaded integer");)
  MV_REACHED ();
}
void h_loadbf (void)
{
  common ();
  fd.bitfield_param.width = 1 + (mv_u8 () & 127);
  fd.bitfield_param.shift = mv_u8 () & 7;
  pd[1].mr_type_aux = mv_u8 () & 31;
  mv_assume (bf_pre (&pd[1]));
  mem_setup (bf_bytes (&pd[1]));
  g_mbit = mv_u8 () % 160; mv_assume (g_mbit < 144);
  mr_status_t st = mr_load_bitfield (1, &ptrs);
  MV_NATIVE (mv_assert (st == (g_ok ? MR_SUCCESS : MR_FAILURE), "status"); for (g_mbit = 0; g_mbit < 144; g_mbit++) mv_assert (g_ok ? bf_stored (&pd[1], g_v) : same_mem (), "loaded bit-field");)
  MV_REACHED ();
}
