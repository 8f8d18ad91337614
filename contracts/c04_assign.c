/* C04: copying a size/discriminator value between two integral fields of any type (mr_assign_int) */
//@ unit assign harness=h_assign enforce=mr_assign_int replace=mr_save_bitfield_value,mr_load_bitfield_value unwind=19 kind=proof
#include "mv.h"
#include "stubs.h"
#include "ints.h"
#include "bf.h"
static uint8_t * g_smem, * g_dmem;
static uint8_t g_dold[18];
static mr_type_t g_st, g_dt; /* effective kinds of source and destination; MR_TYPE_BITFIELD for bit-fields, MR_TYPE_NONE for unsupported */
static mr_type_t as_kind (mr_ptrdes_t * p)
{
  mr_type_t t = p->mr_type;
  if (MR_TYPE_VOID == t || MR_TYPE_POINTER == t) t = p->mr_type_aux;
  if (MR_TYPE_VOID == t || MR_TYPE_ENUM == t)
    {
      mr_td_t * tdp = p->fdp ? p->fdp->stype.tdp : NULL;
      if (!tdp || tdp->mr_type != MR_TYPE_ENUM) return (MR_TYPE_NONE);
      t = tdp->param.enum_param.mr_type_effective;
      if (!it_int (t) || it_size (t) > 8) return (MR_TYPE_NONE);
      return (t);
    }
  if (it_known (t) || MR_TYPE_BITFIELD == t) return (t);
  return (MR_TYPE_NONE);
}
static bool as_value_bit (mr_ptrdes_t * src, unsigned k)
{
  if (MR_TYPE_NONE == g_st) return (false);
  if (MR_TYPE_BITFIELD == g_st)
    return (k < bf_width (src) ? bf_bit (g_smem, bf_shift (src) + k) : (bf_signed (src) && bf_bit (g_smem, bf_shift (src) + bf_width (src) - 1)));
  return ((it_read (g_st, g_smem) >> k) & 1);
}
/* arbitrary bit g_mbit of the destination: the value's bit inside, unchanged outside */
static bool as_post (mr_ptrdes_t * dst, mr_ptrdes_t * src)
{
  if (MR_TYPE_BITFIELD == g_dt)
    {
      if (g_mbit >= 8 * bf_bytes (dst)) return (true);
      if (g_mbit < bf_shift (dst) || g_mbit >= bf_shift (dst) + bf_width (dst)) return (bf_bit (g_dmem, g_mbit) == bf_bit (g_dold, g_mbit));
      if (g_vbit != g_mbit - bf_shift (dst)) return (true); /* the ghost value bit is tied to the ghost memory bit */
      return (bf_bit (g_dmem, g_mbit) == as_value_bit (src, g_vbit));
    }
  if (MR_TYPE_NONE == g_dt) return (g_mbit >= 128 || bf_bit (g_dmem, g_mbit) == bf_bit (g_dold, g_mbit));
  if (g_mbit >= 8 * it_size (g_dt)) return (true);
  if (MR_TYPE_BOOL == g_dt)
    {
      if (g_mbit != 0) return (!bf_bit (g_dmem, g_mbit));
      if (MR_TYPE_BITFIELD != g_st) return (bf_bit (g_dmem, 0) == (MR_TYPE_NONE != g_st && it_read (g_st, g_smem) != 0));
      return (bf_bit (g_dmem, 0) || !as_value_bit (src, g_vbit)); /* any set value bit makes it true */
    }
  return (g_vbit != g_mbit || bf_bit (g_dmem, g_mbit) == as_value_bit (src, g_mbit));
}
#if MV_CBMC
void mr_assign_int (mr_ptrdes_t * dst, mr_ptrdes_t * src)
__CPROVER_assigns (__CPROVER_object_whole (g_dmem))
__CPROVER_ensures (as_post (dst, src));
#endif
#include "mr_save.c"
static mr_td_t td[2]; static mr_fd_t fd[2]; static mr_ptrdes_t pd[2]; static void * cell[2];
static uint8_t * as_setup (int i, uint8_t * copy, mr_type_t * kind)
{
  memset (&td[i], 0, sizeof (td[i])); memset (&fd[i], 0, sizeof (fd[i])); memset (&pd[i], 0, sizeof (pd[i]));
  fd[i].bitfield_param.width = 1 + (mv_u8 () & 127);
  fd[i].bitfield_param.shift = mv_u8 () & 7;
  td[i].param.enum_param.mr_type_effective = mv_u8 () & 31;
  td[i].mr_type = mv_bool () ? MR_TYPE_ENUM : MR_TYPE_STRUCT;
  mv_assume (it_int (td[i].param.enum_param.mr_type_effective));
  fd[i].stype.tdp = mv_bool () ? &td[i] : NULL;
  pd[i].fdp = &fd[i];
  pd[i].mr_type = mv_u8 () & 63;
  pd[i].mr_type_aux = mv_u8 () & 31;
  *kind = as_kind (&pd[i]);
  unsigned n = it_size (*kind);
  if (MR_TYPE_BITFIELD == *kind)
    {
      mv_assume (pd[i].mr_type == MR_TYPE_BITFIELD);
      mv_assume (bf_pre (&pd[i]));
      n = bf_bytes (&pd[i]);
    }
  if (MR_TYPE_NONE == *kind) n = 16;
  uint8_t * mem = mv_malloc (n);
  mv_assume (mem != NULL);
  for (unsigned k = 0; k < 17; k++) { uint8_t b = mv_u8 (); if (k < n) { mem[k] = b; if (copy) copy[k] = b; } }
  if (MR_TYPE_BOOL == *kind) mv_assume (mem[0] <= 1);
  cell[i] = mem;
  pd[i].data.ptr = (MR_TYPE_POINTER == pd[i].mr_type) ? (void*)&cell[i] : mem;
  return (mem);
}
void h_assign (void)
{
  g_smem = as_setup (0, NULL, &g_st);
  g_dmem = as_setup (1, g_dold, &g_dt);
  memcpy (g_old, g_dold, sizeof (g_old));
  g_mbit = mv_u8 () % 160; mv_assume (g_mbit < 136);
  g_vbit = mv_u8 () & 127;
  mr_assign_int (&pd[1], &pd[0]);
  MV_NATIVE (for (g_mbit = 0; g_mbit < (MR_TYPE_BITFIELD == g_dt ? 8 * bf_bytes (&pd[1]) : MR_TYPE_NONE == g_dt ? 128 : 8 * it_size (g_dt)); g_mbit++)
     { g_vbit = (MR_TYPE_BITFIELD == g_dt) ? g_mbit - bf_shift (&pd[1]) : g_mbit; g_vbit &= 127; mv_assert (as_post (&pd[1], &pd[0]), "assigned value"); })
  MV_REACHED ();
}
