/* C04: reading integral values (mr_get_enum_value), integral type sizes (mr_type_size) */
//@ unit enumval harness=h_enumval enforce=mr_get_enum_value unwind=18 kind=proof
// mr_type_size keeps its table in a static local, which --dfcc would havoc: its triple is stated in the harness
//@ unit typesize harness=h_typesize unwind=18 kind=proof functions=mr_type_size
#include "mv.h"
#include "stubs.h"
#include "ints.h"
#define E_T (tdp->param.enum_param.mr_type_effective)
/* effective type known and at most 64 bits: sign/zero extended value; otherwise the low bytes of the effective size */
static uint64_t spec_enum (mr_td_t * tdp, const uint8_t * p)
{
  if (it_int (E_T) && it_size (E_T) <= 8) return (it_read (E_T, p));
  return (it_le (p, tdp->param.enum_param.size_effective < 8 ? tdp->param.enum_param.size_effective : 8, false));
}
static unsigned long spec_size (int t)
{
  switch (t)
    {
    case MR_TYPE_VOID: case MR_TYPE_POINTER: case MR_TYPE_FUNC: case MR_TYPE_FUNC_TYPE: case MR_TYPE_STRING: return (sizeof (void*));
    case MR_TYPE_FLOAT: return (sizeof (float));
    case MR_TYPE_DOUBLE: return (sizeof (double));
    case MR_TYPE_LONG_DOUBLE: return (sizeof (long double));
    case MR_TYPE_COMPLEX_FLOAT: return (2 * sizeof (float));
    case MR_TYPE_COMPLEX_DOUBLE: return (2 * sizeof (double));
    case MR_TYPE_COMPLEX_LONG_DOUBLE: return (2 * sizeof (long double));
    default: return (it_size (t));
    }
}
#if MV_CBMC
mr_enum_value_type_t mr_get_enum_value (mr_td_t * tdp, void * data)
__CPROVER_assigns ()
__CPROVER_ensures (__CPROVER_return_value == spec_enum (tdp, data));
#endif
#define MV_IN_METARESC_C
#include "metaresc.c"
void h_enumval (void)
{
  static mr_td_t td;
  memset (&td, 0, sizeof (td));
  td.param.enum_param.mr_type_effective = mv_u8 () & 31;
  td.param.enum_param.size_effective = mv_u8 () % 17;
  unsigned n = it_int (td.param.enum_param.mr_type_effective) && it_size (td.param.enum_param.mr_type_effective) <= 8 ? it_size (td.param.enum_param.mr_type_effective) : td.param.enum_param.size_effective;
  if (it_int (td.param.enum_param.mr_type_effective)) mv_assume (td.param.enum_param.size_effective == it_size (td.param.enum_param.mr_type_effective));
  uint8_t * mem = mv_malloc (n);
  mv_assume (mem != NULL);
  for (unsigned i = 0; i < 16; i++) { uint8_t b = mv_u8 (); if (i < n) mem[i] = b; }
  mr_enum_value_type_t r = mr_get_enum_value (&td, mem);
  MV_NATIVE (mv_assert (r == spec_enum (&td, mem), "enum value");)
  MV_REACHED ();
}
void h_typesize (void)
{
  mr_type_t t = mv_u8 ();
  mr_size_t r = mr_type_size (t);
  mv_assert (r == spec_size (t), "C04: size of type");
  MV_REACHED ();
}
