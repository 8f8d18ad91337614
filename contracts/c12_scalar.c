/* C12: for every scalar type, every value and every stream position, the decoder registered for the type gives back the value the
   encoder registered for it wrote, consumes exactly the bytes produced, and (integers) those bytes are the value in big-endian order */
//@ unit ints harness=h_ints functions=_xdr_int8_t,_xdr_uint8_t,_xdr_int16_t,_xdr_uint16_t,_xdr_int32_t,_xdr_uint32_t,_xdr_int64_t,_xdr_uint64_t,_xdr_uint128_t,mr_xdr_bool,mr_xdr_pointer,xdr_int8_t,xdr_int64_t,xdrra_putlong,xdrra_getlong kind=proof unwind=8 unwindset=fill.0:33,one.0:25 objbits=10 ignore="shift operand is negative|overflow on signed shl"
//@ unit enums harness=h_enums functions=_xdr_enum kind=proof unwind=8 unwindset=fill.0:33,one.0:25 objbits=10 ignore="shift operand is negative|overflow on signed shl"
//@ unit floats harness=h_floats functions=xdr_float_,xdr_double_,xdr_long_double_,xdr_complex_float,xdr_complex_double,xdr_complex_long_double,xdrra_putbytes,xdrra_getbytes kind=proof unwind=8 unwindset=fill.0:33,one.0:25 objbits=10 ignore="shift operand is negative|overflow on signed shl"
//@ unit bitfields harness=h_bits functions=xdr_save_bitfield,xdr_load_bitfield,xdr_bitfield_value kind=proof unwind=20 unwindset=fill.0:33,one.0:25 objbits=10 ignore="shift operand is negative|overflow on signed shl"
//@ trusted bit-field access follows the contracts of bf.h, which C01 enforces on the real functions
//@ trusted appending to the stream's resizable array follows C07's contract of mr_rarray_append: the new bytes directly follow those present, or the append fails without effect
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#define mr_save_bitfield_value mv_save_contract
#define mr_load_bitfield_value mv_load_contract
#include "bf.h"
#undef mr_save_bitfield_value
#undef mr_load_bitfield_value
#include "tirpc.h"
#define SBUF 128
static mr_rarray_t g_ra; static uint8_t * g_sbuf; static bool g_may_fail, g_failed;
#if MV_CBMC
void * mr_rarray_append (mr_rarray_t * ra, ssize_t size)
{
  if (g_may_fail && mv_bool ()) { g_failed = true; return (NULL); }
  mv_assert (size >= 0 && ra->MR_SIZE + size <= SBUF, "appended size");
  ra->MR_SIZE += size;
  return ((uint8_t *)ra->data.ptr + ra->MR_SIZE - size);
}
/* the contracts of bf.h, which C01 enforces on the real functions, as assumed at their call sites here */
mr_status_t mr_save_bitfield_value (mr_ptrdes_t * p, mr_uintmax_t * value)
{
  mv_assert (bf_pre (p), "precondition of mr_save_bitfield_value");
  *value = mv_u128 ();
  mv_assume (bf_extracted (p, *value));
  return (MR_SUCCESS);
}
mr_status_t mr_load_bitfield_value (mr_ptrdes_t * p, mr_uintmax_t * value)
{
  mv_assert (bf_pre (p), "precondition of mr_load_bitfield_value");
  uint8_t * m = p->data.ptr;
  m[g_mbit / 8] = mv_u8 ();
  mv_assume (bf_stored (p, *value));
  return (MR_SUCCESS);
}
#endif
#if MV_CBMC
/* xdr.c first declares its two dispatch tables without a size; the same declaration with the size they are defined with lets the
   verifier resolve table lookups */
typedef mr_status_t (* xdr_handler_t) (XDR *, mr_idx_t, mr_ra_ptrdes_t *);
static xdr_handler_t xdr_load_handler[MR_TYPE_LAST], xdr_save_handler[MR_TYPE_LAST];
#endif
#include "xdr.c"
static XDR g_x; static mr_td_t g_td; static mr_fd_t g_fd; static uint32_t g_start; static uint8_t g_before; static uint32_t g_q;
/* an encoder appending to a stream that already holds some bytes */
static void enc_init (void)
{
  mem_init ();
  g_start = (mv_u8 () & 7) * 4;
  g_sbuf = mv_malloc (SBUF);
  mv_assume (g_sbuf != NULL);
  g_ra.data.ptr = g_sbuf; g_ra.MR_SIZE = g_start; g_ra.alloc_size = SBUF;
  g_may_fail = mv_bool (); g_failed = false;
  MV_NATIVE (mem_never_fail = !g_may_fail; extern int mv_keep_blocks; mv_keep_blocks = 1; memset (g_sbuf, 0x5a, SBUF);)
  mr_xdrra_create (&g_x, &g_ra, XDR_ENCODE);
  g_q = mv_u8 () % 32;
  mv_assume (g_start == 0 || g_q < g_start);
  g_before = g_sbuf[g_q];
}
static void fill (uint8_t * p, unsigned n) { for (unsigned i = 0; i < n; i++) p[i] = mv_u8 (); }
static mr_status_t put (mr_type_t t, void * p, mr_fd_t * fdp, mr_type_t aux)
{
  mr_ptrdes_t pd = { .data.ptr = p, .fdp = fdp, .mr_type = t, .mr_type_aux = aux };
  mr_ra_ptrdes_t ptrs = { .ra = &pd, .size = sizeof (pd), .alloc_size = -1 };
  return (xdr_save_handler[t] (&g_x, 0, &ptrs));
}
static mr_status_t get (mr_type_t t, void * p, mr_fd_t * fdp, mr_type_t aux)
{
  mr_ptrdes_t pd = { .data.ptr = p, .fdp = fdp, .mr_type = t, .mr_type_aux = aux };
  mr_ra_ptrdes_t ptrs = { .ra = &pd, .size = sizeof (pd), .alloc_size = -1 };
  return (xdr_load_handler[t] (&g_x, 0, &ptrs));
}
/* one value of type t held in size bytes, `significant` of them carry the value; wire: number of bytes it takes in the stream */
static void one (mr_type_t t, unsigned size, unsigned significant, unsigned wire, bool is_int, mr_fd_t * fdp)
{
  uint8_t src[32], keep[32], dst[40]; unsigned z = mv_u8 () % 32, pad = mv_u8 () & 7;
  enc_init ();
  fill (src, size);
  memcpy (keep, src, sizeof (keep) < size ? sizeof (keep) : size);
  mr_status_t st = put (t, src, fdp, MR_TYPE_LAST);
#if MV_CBMC
  mv_assert (st == MR_SUCCESS || g_failed, "encoding fails only when the stream cannot grow");
#endif
  if (z < size) mv_assert (src[z] == keep[z], "encoding does not change the value");
  if (g_start) mv_assert (((uint8_t *)g_ra.data.ptr)[g_q] == g_before, "encoding does not change earlier bytes of the stream");
  if (st != MR_SUCCESS) { MV_REACHED (); return; }
  uint8_t * w = (uint8_t *)g_ra.data.ptr + g_start;
  mv_assert (g_ra.MR_SIZE == g_start + wire && wire % 4 == 0, "a value takes whole 4-byte units");
  if (is_int)
    {
      /* unit u (0 is first on the wire) of a value of up to 64 bits, most significant byte first; 128 bit values go low half first */
      for (unsigned i = 0; i < wire; i++)
	{
	  unsigned half = i / 8, j = i % 8, span = wire < 8 ? wire : 8;
	  unsigned byte = half * 8 + span - 1 - j;
	  if (byte < size) mv_assert (w[i] == keep[byte], "integers are big-endian");
	}
    }
  /* more data may follow the value in the stream */
  g_ra.MR_SIZE += pad;
  mr_xdrra_create (&g_x, &g_ra, XDR_DECODE);
  mv_assert (g_x.x_ops->x_setpostn (&g_x, g_start), "position");
  memset (dst, 0xA5, sizeof (dst));
  mv_assert (get (t, dst, fdp, MR_TYPE_LAST) == MR_SUCCESS, "what was encoded can be decoded");
  mv_assert (g_x.x_ops->x_getpostn (&g_x) == g_start + wire, "decoding consumes exactly the bytes produced");
  if (z % 16 < significant && z < size) mv_assert (dst[z] == keep[z], "decoding gives the encoded value back");
  if (z < 8) mv_assert (dst[size + z] == 0xA5, "decoding writes only the value");
  MV_REACHED ();
}
void h_ints (void)
{
  switch (mv_u8 () & 15)
    {
    case 0: one (MR_TYPE_INT8, 1, 1, 4, true, NULL); break;
    case 1: one (MR_TYPE_UINT8, 1, 1, 4, true, NULL); break;
    case 2: one (MR_TYPE_CHAR, 1, 1, 4, true, NULL); break;
    case 3: one (MR_TYPE_INT16, 2, 2, 4, true, NULL); break;
    case 4: one (MR_TYPE_UINT16, 2, 2, 4, true, NULL); break;
    case 5: one (MR_TYPE_INT32, 4, 4, 4, true, NULL); break;
    case 6: one (MR_TYPE_UINT32, 4, 4, 4, true, NULL); break;
    case 7: one (MR_TYPE_INT64, 8, 8, 8, true, NULL); break;
    case 8: one (MR_TYPE_UINT64, 8, 8, 8, true, NULL); break;
    case 9: one (MR_TYPE_INT128, 16, 16, 16, true, NULL); break;
    case 10: one (MR_TYPE_UINT128, 16, 16, 16, true, NULL); break;
    case 11: one (MR_TYPE_BOOL, sizeof (bool), sizeof (bool), 4, true, NULL); break;
    case 12: one (MR_TYPE_FUNC, sizeof (void *), sizeof (void *), 8, true, NULL); break;
    case 13: one (MR_TYPE_FUNC_TYPE, sizeof (void *), sizeof (void *), 8, true, NULL); break;
    }
}
static void en (mr_type_t t, unsigned size, unsigned wire)
{
  g_td.param.enum_param.mr_type_effective = t;
  one (MR_TYPE_ENUM, size, size, wire, true, &g_fd);
}
void h_enums (void)
{
  MV_NATIVE (memset (&g_fd, 0, sizeof (g_fd)); memset (&g_td, 0, sizeof (g_td));)
  g_fd.stype.tdp = &g_td;
  switch (mv_u8 () & 7)
    {
    case 0: en (MR_TYPE_INT8, 1, 4); break;
    case 1: en (MR_TYPE_UINT8, 1, 4); break;
    case 2: en (MR_TYPE_INT16, 2, 4); break;
    case 3: en (MR_TYPE_UINT16, 2, 4); break;
    case 4: en (MR_TYPE_INT32, 4, 4); break;
    case 5: en (MR_TYPE_UINT32, 4, 4); break;
    case 6: en (MR_TYPE_INT64, 8, 8); break;
    case 7: en (MR_TYPE_UINT64, 8, 8); break;
    }
}
void h_floats (void)
{
  switch (mv_u8 () & 7)
    {
    case 0: one (MR_TYPE_FLOAT, 4, 4, 4, true, NULL); break;
    case 1: one (MR_TYPE_DOUBLE, 8, 8, 8, true, NULL); break;
    case 2: one (MR_TYPE_LONG_DOUBLE, 16, MR_SIZEOF_LONG_DOUBLE, 12, false, NULL); break;
    case 3: one (MR_TYPE_COMPLEX_FLOAT, 8, 8, 8, false, NULL); break;
    case 4: one (MR_TYPE_COMPLEX_DOUBLE, 16, 16, 16, false, NULL); break;
    case 5: one (MR_TYPE_COMPLEX_LONG_DOUBLE, 32, MR_SIZEOF_LONG_DOUBLE, 24, false, NULL); break;
    }
}
/* bit-fields go through the contracts C01 establishes for mr_save_bitfield_value and mr_load_bitfield_value */
static mr_ptrdes_t g_pd[1]; static mr_ra_ptrdes_t g_pdra;
static void bits (mr_type_t t, unsigned tsize, mr_type_t eff)
{
  uint8_t mem[18], keep[18]; unsigned k = mv_u8 ();
  enc_init ();
  MV_NATIVE (memset (&g_fd, 0, sizeof (g_fd)); memset (&g_td, 0, sizeof (g_td)); memset (g_pd, 0, sizeof (g_pd));)
  g_td.param.enum_param.mr_type_effective = eff;
  g_fd.stype.mr_type = MR_TYPE_BITFIELD; g_fd.stype.mr_type_aux = t; g_fd.stype.tdp = &g_td;
  g_fd.bitfield_param.width = 1 + (mv_u8 () & 127); g_fd.bitfield_param.shift = mv_u8 () & 7;
  mv_assume (g_fd.bitfield_param.width <= 8 * tsize);
  fill (mem, 18);
  memcpy (keep, mem, 18);
  g_pd[0].fdp = &g_fd; g_pd[0].mr_type = MR_TYPE_BITFIELD; g_pd[0].mr_type_aux = t; g_pd[0].data.ptr = mem;
  g_pdra.ra = g_pd; g_pdra.size = g_pdra.alloc_size = sizeof (g_pd);
  /* the contracts speak of one arbitrary bit of the value and one of the memory: take the same bit of the field */
  g_vbit = mv_u8 () & 127; g_mbit = g_vbit + g_fd.bitfield_param.shift;
  mv_assume (g_vbit < g_fd.bitfield_param.width);
  mr_status_t st = xdr_save_bitfield (&g_x, 0, &g_pdra);
#if MV_CBMC
  mv_assert (st == MR_SUCCESS || g_failed, "encoding fails only when the stream cannot grow");
#endif
  if (st == MR_SUCCESS)
    {
      uint32_t end = g_ra.MR_SIZE;
      mv_assert ((end - g_start) % 4 == 0 && end - g_start == (tsize < 4 ? 4 : tsize), "a bit-field takes the units of its type");
      for (unsigned i = 0; i < 18; i++) g_old[i] = mem[i] = mv_u8 ();
      mr_xdrra_create (&g_x, &g_ra, XDR_DECODE);
      mv_assert (g_x.x_ops->x_setpostn (&g_x, g_start), "position");
      mv_assert (xdr_load_bitfield (&g_x, 0, &g_pdra) == MR_SUCCESS, "what was encoded can be decoded");
      mv_assert (g_x.x_ops->x_getpostn (&g_x) == end, "decoding consumes exactly the bytes produced");
      mv_assert (bf_bit (mem, g_mbit) == bf_bit (keep, g_mbit), "every bit of the field is given back");
    }
  MV_REACHED ();
}
void h_bits (void)
{
  #ifndef BC

#endif
  switch (mv_u8 () & 15)
    {
    case 0: bits (MR_TYPE_INT8, 1, 0); break;
    case 1: bits (MR_TYPE_UINT8, 1, 0); break;
    case 2: bits (MR_TYPE_INT16, 2, 0); break;
    case 3: bits (MR_TYPE_UINT16, 2, 0); break;
    case 4: bits (MR_TYPE_INT32, 4, 0); break;
    case 5: bits (MR_TYPE_UINT32, 4, 0); break;
    case 6: bits (MR_TYPE_INT64, 8, 0); break;
    case 7: bits (MR_TYPE_UINT64, 8, 0); break;
    case 8: bits (MR_TYPE_INT128, 16, 0); break;
    case 9: bits (MR_TYPE_UINT128, 16, 0); break;
    case 10: bits (MR_TYPE_BOOL, 1, 0); break;
    case 11: bits (MR_TYPE_ENUM, 4, MR_TYPE_UINT32); break;
    case 12: bits (MR_TYPE_ENUM, 1, MR_TYPE_INT8); break;
    case 13: bits (MR_TYPE_CHAR, 1, 0); break;
    }
}
