/* C11: comparators of the built-in key types, and content-only hashing */
//@ unit basic harness=h_basic link=metaresc functions=mr_type_compar_fn,mr_int*_t_cmp,mr_uint*_t_cmp,mr_char_cmp,mr_bool_cmp,mr_void_ptr_cmp unwind=24 kind=proof
//@ unit floats harness=h_floats link=metaresc functions=mr_float_cmp,mr_double_cmp,mr_long_double_t_cmp unwind=24 kind=proof
//@ trusted comparing addresses of unrelated objects orders them as flat 64-bit addresses (the verifier orders addresses only inside one object; the pointer-key units place all keys in one object of arbitrary size)
//@ unit strs harness=h_strs functions=mr_string_t_cmp,mr_char_array_cmp unwind=24 kind=proof
#include "mv.h"
#include "stubs.h"
#include "order.h"
#if MV_CBMC
static const void * s_p[3]; static uint8_t s_rank[3];
int strcmp (const char * a, const char * b)
{
  int i = a == s_p[0] ? 0 : a == s_p[1] ? 1 : 2, j = b == s_p[0] ? 0 : b == s_p[1] ? 1 : 2;
  mv_assert (a == s_p[i] && b == s_p[j], "strcmp of two keys");
  int r = (int)mv_u32 (); mv_assume (sgn (r) == (s_rank[i] > s_rank[j]) - (s_rank[i] < s_rank[j]));
  return (r);
}
#endif
#include "mr_ic.c"
static mv_u128_t m[3];
static int spec_int (unsigned n, bool is_signed, const void * a, const void * b)
{
  mv_u128_t x = 0, y = 0; memcpy (&x, a, n); memcpy (&y, b, n);
  if (is_signed)
    {
      mv_u128_t bias = (mv_u128_t)1 << (8 * n - 1);
      x ^= bias; y ^= bias;           /* order of two's complement values is the unsigned order with the sign bit flipped */
    }
  return ((x > y) - (x < y));
}
#define TRIPLE(F, P, S) \
  mr_ptr_t x = { .ptr = (P) }, y = { .ptr = (char *)(P) + (S) }, z = { .ptr = (char *)(P) + 2 * (S) }; \
  int xy = F (x, y, NULL), yx = F (y, x, NULL), yz = F (y, z, NULL), xz = F (x, z, NULL), xx = F (x, x, NULL); \
  ORDER_LAWS (xy, yx, yz, xz, xx);
void h_basic (void)
{
  for (int i = 0; i < 3; i++) { m[i] = mv_u128 (); MV_NATIVE (if (i && (m[i] & 1)) m[i] = m[0] + (m[i] & 2);) }
  static const struct { mr_type_t t; unsigned n; bool s; } T[] = {
    { MR_TYPE_CHAR, 1, (char)-1 < 0 }, { MR_TYPE_BOOL, 1, false }, { MR_TYPE_INT8, 1, true }, { MR_TYPE_UINT8, 1, false }, { MR_TYPE_INT16, 2, true }, { MR_TYPE_UINT16, 2, false },
    { MR_TYPE_INT32, 4, true }, { MR_TYPE_UINT32, 4, false }, { MR_TYPE_INT64, 8, true }, { MR_TYPE_UINT64, 8, false }, { MR_TYPE_INT128, 16, true }, { MR_TYPE_UINT128, 16, false },
    { MR_TYPE_FUNC, 8, false }, { MR_TYPE_FUNC_TYPE, 8, false } };
  unsigned k = mv_u8 () % (sizeof (T) / sizeof (T[0]));
  if (T[k].t == MR_TYPE_BOOL) for (int i = 0; i < 3; i++) m[i] &= 1;
#if MV_CBMC
  if (T[k].t == MR_TYPE_FUNC || T[k].t == MR_TYPE_FUNC_TYPE) return; /* pointer values: unit ptrs */
#endif
  mr_compar_fn_t f = mr_type_compar_fn (T[k].t);
  mv_assert (f != NULL, "every built-in key type has a comparator");
  TRIPLE (f, m, sizeof (m[0]));
  mv_assert (sgn (xy) == spec_int (T[k].n, T[k].s, &m[0], &m[1]), "exact sign over the full range of the type");
  MV_REACHED ();
}
#define FLT(TYPE, NAME) { static TYPE v[3]; bool nan = false; for (int i = 0; i < 3; i++) { memcpy (&v[i], &m[i], sizeof (TYPE)); nan |= (v[i] != v[i]); } \
  if (!nan) { TRIPLE (NAME, v, sizeof (TYPE)); mv_assert (sgn (xy) == (v[0] > v[1]) - (v[0] < v[1]), "numerical order"); } }
void h_floats (void)
{
  for (int i = 0; i < 3; i++) { m[i] = mv_u64 (); MV_NATIVE (if (m[i] & 1) m[i] = 0;) }
  mr_compar_fn_t f = mr_type_compar_fn (MR_TYPE_FLOAT), d = mr_type_compar_fn (MR_TYPE_DOUBLE), l = mr_type_compar_fn (MR_TYPE_LONG_DOUBLE);
  mv_assert (f != NULL && d != NULL && l != NULL, "every built-in key type has a comparator");
  FLT (float, f);
  FLT (double, d);
  { static long double v[3]; for (int i = 0; i < 3; i++) v[i] = (long double)(int64_t)(uint64_t)m[i] / 8; TRIPLE (l, v, sizeof (v[0])); mv_assert (sgn (xy) == (v[0] > v[1]) - (v[0] < v[1]), "numerical order"); }
  MV_REACHED ();
}
void h_strs (void)
{
  static char a[3][4]; static char * p[3];
  for (int i = 0; i < 3; i++)
    {
      p[i] = mv_bool () ? a[i] : NULL;
#if MV_CBMC
      /* null strings are compared as addresses of different objects, which the verifier does not order */
      mv_assume (p[i] != NULL);
#endif
      uint8_t r = mv_u8 ();
#if MV_CBMC
      s_p[i] = a[i]; s_rank[i] = r;
#else
      a[i][0] = r % 3; a[i][1] = r / 3 % 3; a[i][2] = 0;
#endif
    }
  { TRIPLE (mr_string_t_cmp, p, sizeof (p[0]));
    if (p[0] && p[1]) mv_assert (sgn (xy) == sgn (strcmp (p[0], p[1])), "order of contents"); else mv_assert ((xy == 0) == (p[0] == p[1]), "a null string equals only a null string"); }
  { TRIPLE (mr_char_array_cmp, a, sizeof (a[0])); mv_assert (sgn (xy) == sgn (strcmp (a[0], a[1])), "order of contents"); }
  MV_REACHED ();
}
