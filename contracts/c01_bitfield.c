/* C01: bit-field extraction and storage (mr_save_bitfield_value, mr_load_bitfield_value).
   All widths 1..128, all shifts 0..7, all memory contents, all values, all integer types. The loops are
   bounded by the 17 bytes a 128 bit field can span, so full unwinding (with unwinding assertions) is a complete proof.
   Universal quantification over bits: g_vbit and g_mbit are arbitrary ghost indexes chosen before the call. */
//@ unit extract harness=h_extract enforce=mr_save_bitfield_value unwind=20 kind=proof
//@ unit store harness=h_store enforce=mr_load_bitfield_value unwind=20 kind=proof
//@ unit roundtrip harness=h_roundtrip replace=mr_save_bitfield_value,mr_load_bitfield_value unwind=20 kind=proof
//@ trusted precondition: width in 1..128, shift in 0..7, the record really holds the field's bytes (established by mr_init_bitfield / the type registration)
#include "mv.h"
#include "bf.h"
#define MV_IN_METARESC_C
#include "metaresc.c"

static mr_td_t g_td; static mr_fd_t g_fd; static mr_ptrdes_t g_pd;
static mr_ptrdes_t * bf_setup (void)
{
  memset (&g_pd, 0, sizeof (g_pd)); memset (&g_fd, 0, sizeof (g_fd)); memset (&g_td, 0, sizeof (g_td));
  g_fd.bitfield_param.width = 1 + (mv_u8 () & 127);
  g_fd.bitfield_param.shift = mv_u8 () & 7;
  g_td.param.enum_param.mr_type_effective = mv_u8 () & 31;
  mv_assume (g_td.param.enum_param.mr_type_effective >= MR_TYPE_INT8 && g_td.param.enum_param.mr_type_effective <= MR_TYPE_UINT128);
  g_fd.stype.tdp = mv_bool () ? &g_td : NULL;
  g_pd.fdp = &g_fd;
  g_pd.mr_type_aux = mv_u8 () & 31;
  mv_assume (bf_pre (&g_pd));
  unsigned n = bf_bytes (&g_pd);
  uint8_t * mem = mv_malloc (n);
  mv_assume (mem != NULL);
  for (unsigned i = 0; i < 17; i++) { uint8_t b = mv_u8 (); if (i < n) { mem[i] = b; g_old[i] = b; } }
  g_pd.data.ptr = mem;
  g_mbit = mv_u8 ();
  mv_assume (g_mbit < 144);
  g_vbit = mv_u8 () & 127;
  return (&g_pd);
}
#define ALL_BITS(C) MV_NATIVE (for (g_mbit = 0; g_mbit < 144; g_mbit++) for (g_vbit = g_mbit & 127; g_vbit == (g_mbit & 127); g_vbit += 256) mv_assert (C, #C);)
void h_extract (void)
{
  mr_ptrdes_t * p = bf_setup ();
  mr_uintmax_t v = mv_u128 ();
  mr_status_t st = mr_save_bitfield_value (p, &v);
  MV_NATIVE (mv_assert (st == MR_SUCCESS, "status");)
  ALL_BITS (bf_extracted (p, v))
  MV_REACHED ();
}
void h_store (void)
{
  mr_ptrdes_t * p = bf_setup ();
  mr_uintmax_t v = mv_u128 ();
  mr_status_t st = mr_load_bitfield_value (p, &v);
  MV_NATIVE (mv_assert (st == MR_SUCCESS, "status");)
  ALL_BITS (bf_stored (p, v))
  MV_REACHED ();
}
/* lemma over the two contracts: what was stored is what is extracted (mod the field width, sign extended).
   Both contracts speak of the single arbitrary bit g_bit, so the lemma is instantiated at the two bits it needs. */
void h_roundtrip (void)
{
  mr_ptrdes_t * p = bf_setup ();
  mr_uintmax_t v = mv_u128 (), r = 0;
  unsigned vb = mv_u8 () & 127;
  mv_assume (vb < bf_width (p));
  g_mbit = vb + bf_shift (p);
  mr_load_bitfield_value (p, &v);
  g_vbit = vb;
  mr_save_bitfield_value (p, &r);
  mv_assert (val_bit (r, vb) == val_bit (v, vb), "C01.roundtrip: stored bit is read back");
  MV_REACHED ();
}
