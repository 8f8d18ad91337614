/* contracts of the bit-field accessors, shared by C01 (where they are enforced) and by callers (where they are assumed) */
#ifndef BF_H
#define BF_H
static unsigned g_vbit;         /* arbitrary bit index of a value, 0..127 (universally quantified) */
static unsigned g_mbit;         /* arbitrary bit index of the field's memory, 0..143 (universally quantified) */
static uint8_t g_old[18];       /* ghost copy of the memory before the call */
static bool bf_bit (const uint8_t * p, unsigned k) { return ((p[k / 8] >> (k % 8)) & 1); }
static bool val_bit (mr_uintmax_t v, unsigned k) { return ((v >> k) & 1); }
static unsigned bf_width (mr_ptrdes_t * p) { return (p->fdp->bitfield_param.width); }
static unsigned bf_shift (mr_ptrdes_t * p) { return (p->fdp->bitfield_param.shift); }
static unsigned bf_bytes (mr_ptrdes_t * p) { return ((bf_width (p) + bf_shift (p) + 7) / 8); }
static bool bf_pre (mr_ptrdes_t * p)
{
  return (bf_width (p) >= 1 && bf_width (p) <= 8 * sizeof (mr_uintmax_t) && bf_shift (p) < 8 &&
	  (p->mr_type_aux == MR_TYPE_BOOL || p->mr_type_aux == MR_TYPE_CHAR || p->mr_type_aux == MR_TYPE_ENUM ||
	   (p->mr_type_aux >= MR_TYPE_INT8 && p->mr_type_aux <= MR_TYPE_UINT128)));
}
static bool bf_signed (mr_ptrdes_t * p)
{
  mr_type_t t = p->mr_type_aux;
  if (MR_TYPE_ENUM == t && p->fdp->stype.tdp) t = p->fdp->stype.tdp->param.enum_param.mr_type_effective;
  return (t == MR_TYPE_INT8 || t == MR_TYPE_INT16 || t == MR_TYPE_INT32 || t == MR_TYPE_INT64 || t == MR_TYPE_INT128);
}
/* value bit g_vbit is the field's bit, or the sign (zero) extension */
static bool bf_extracted (mr_ptrdes_t * p, mr_uintmax_t v)
{
  if (g_vbit >= 128) return (true);
  if (g_vbit < bf_width (p)) return (val_bit (v, g_vbit) == bf_bit (p->data.ptr, bf_shift (p) + g_vbit));
  return (val_bit (v, g_vbit) == (bf_signed (p) && bf_bit (p->data.ptr, bf_shift (p) + bf_width (p) - 1)));
}
/* memory bit g_mbit is the value's bit inside the field and unchanged outside of it */
static bool bf_stored (mr_ptrdes_t * p, mr_uintmax_t v)
{
  if (g_mbit >= 8 * bf_bytes (p)) return (true);
  if (g_mbit >= bf_shift (p) && g_mbit < bf_shift (p) + bf_width (p))
    return (bf_bit (p->data.ptr, g_mbit) == val_bit (v, g_mbit - bf_shift (p)));
  return (bf_bit (p->data.ptr, g_mbit) == bf_bit (g_old, g_mbit));
}
#if MV_CBMC
mr_status_t mr_save_bitfield_value (mr_ptrdes_t * ptrdes, mr_uintmax_t * value)
__CPROVER_requires (bf_pre (ptrdes))
__CPROVER_assigns (*value)
__CPROVER_ensures (__CPROVER_return_value == MR_SUCCESS)
__CPROVER_ensures (bf_extracted (ptrdes, *value));

mr_status_t mr_load_bitfield_value (mr_ptrdes_t * ptrdes, mr_uintmax_t * value)
__CPROVER_requires (bf_pre (ptrdes))
__CPROVER_assigns (__CPROVER_object_upto (ptrdes->data.ptr, (ptrdes->fdp->bitfield_param.shift + ptrdes->fdp->bitfield_param.width + 7) / 8))
__CPROVER_ensures (__CPROVER_return_value == MR_SUCCESS)
__CPROVER_ensures (bf_stored (ptrdes, *value));
#endif
#endif
