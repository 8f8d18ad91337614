/* specification of the integral types: what reading and writing one means, byte by byte */
#ifndef INTS_H
#define INTS_H
static bool it_known (mr_type_t t)
{
  return (t == MR_TYPE_BOOL || t == MR_TYPE_CHAR || (t >= MR_TYPE_INT8 && t <= MR_TYPE_UINT128));
}
static bool it_int (mr_type_t t) { return (t >= MR_TYPE_INT8 && t <= MR_TYPE_UINT128); }
static bool it_signed (mr_type_t t)
{
  return (t == MR_TYPE_CHAR || t == MR_TYPE_INT8 || t == MR_TYPE_INT16 || t == MR_TYPE_INT32 || t == MR_TYPE_INT64 || t == MR_TYPE_INT128);
}
static unsigned it_size (mr_type_t t)
{
  switch (t)
    {
    case MR_TYPE_BOOL: case MR_TYPE_CHAR: case MR_TYPE_INT8: case MR_TYPE_UINT8: return (1);
    case MR_TYPE_INT16: case MR_TYPE_UINT16: return (2);
    case MR_TYPE_INT32: case MR_TYPE_UINT32: return (4);
    case MR_TYPE_INT64: case MR_TYPE_UINT64: return (8);
    case MR_TYPE_INT128: case MR_TYPE_UINT128: return (16);
    default: return (0);
    }
}
/* little-endian value of n bytes, sign extended if s */
static mv_u128_t it_le (const uint8_t * p, unsigned n, bool s)
{
  mv_u128_t v = 0;
  for (unsigned i = 0; i < 16; i++) if (i < n) v |= (mv_u128_t)p[i] << (8 * i);
  if (s && n < 16 && (p[n - 1] & 0x80)) v |= ~(((mv_u128_t)1 << (8 * n)) - 1);
  return (v);
}
static mv_u128_t it_read (mr_type_t t, const uint8_t * p)
{
  if (t == MR_TYPE_BOOL) return (p[0] != 0);
  return (it_le (p, it_size (t), it_signed (t)));
}
/* memory p (of n bytes) holds value v converted to type t */
static bool it_holds (mr_type_t t, const uint8_t * p, mv_u128_t v)
{
  if (t == MR_TYPE_BOOL) return (p[0] == (v != 0));
  unsigned n = it_size (t);
  for (unsigned i = 0; i < 16; i++) if (i < n && p[i] != (uint8_t)(v >> (8 * i))) return (false);
  return (true);
}
#endif
