/* C11: values compared and hashed as keys (mr_cmp_structs / mr_hash_struct), one saved node of every scalar type.
   A key is compared node by node; the units cover one data node of each scalar type (every value), which is the whole of a scalar key. */
//@ unit s_string harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=bounded defs="-DTSEL=0 -DESEL=0" secs=5 bound="strings up to 3 bytes"
//@ unit s_chararray harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=bounded defs="-DTSEL=1 -DESEL=0" secs=5 bound="strings up to 3 bytes"
//@ unit s_char harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=2 -DESEL=0" secs=5
//@ unit s_bool harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=3 -DESEL=0" secs=5
//@ unit s_i8 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=4 -DESEL=0" secs=5
//@ unit s_u8 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=5 -DESEL=0" secs=5
//@ unit s_i16 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=6 -DESEL=0" secs=5
//@ unit s_u16 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=7 -DESEL=0" secs=5
//@ unit s_i32 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=8 -DESEL=0" secs=5
//@ unit s_u32 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=9 -DESEL=0" secs=5
//@ unit s_i64 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=10 -DESEL=0" secs=5
//@ unit s_u64 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=11 -DESEL=0" secs=5
//@ unit s_i128 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=12 -DESEL=0" secs=5
//@ unit s_u128 harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=13 -DESEL=0" secs=5
//@ unit s_float harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=14 -DESEL=0" secs=5
//@ unit s_double harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=15 -DESEL=0" secs=5
//@ unit s_cfloat harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=16 -DESEL=0" secs=5
//@ unit s_cdouble harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=17 -DESEL=0" secs=5
//@ unit s_bitfield harness=h_structs functions=mr_cmp_structs,mr_hash_struct,mr_hash_block,mr_hash_str unwind=40 kind=proof defs="-DTSEL=18 -DESEL=0" secs=5
//@ unit s_enum_i8 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=0" secs=5
//@ unit s_enum_u8 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=1" secs=5
//@ unit s_enum_i16 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=2" secs=5
//@ unit s_enum_u16 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=3" secs=5
//@ unit s_enum_i32 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=4" secs=5
//@ unit s_enum_u32 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=5" secs=5
//@ unit s_enum_i64 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=6" secs=5
//@ unit s_enum_u64 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=7" secs=5
//@ unit s_enum_i128 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=8" secs=5
//@ unit s_enum_u128 harness=h_structs functions=mr_cmp_structs,mr_hash_struct unwind=40 kind=proof defs="-DTSEL=19 -DESEL=9" secs=5
//@ unit strhash harness=h_strhash functions=mr_hash_block,mr_hash_str unwind=20 kind=bounded bound="blocks and strings up to 17 bytes"
#include "mv.h"
#include "stubs.h"
#include "order.h"
#if MV_CBMC
mr_conf_t mr_conf;
void mr_conf_init (void) {}
//@ trusted in unit structs: mr_save_bitfield_value reads the field exactly (C01); mr_ptrs_dfs visits the node in post-order (C14)
mr_status_t mr_save_bitfield_value (mr_ptrdes_t * p, mr_uintmax_t * v) { memcpy (v, p->data.ptr, sizeof (*v)); return (MR_SUCCESS); }
mr_status_t mr_ptrs_dfs_impl (mr_ra_ptrdes_t * ptrs, mr_ptrdes_processor_t f, mr_ptr_t c, mr_idx_t start)
{
  if (f (ptrs, 1, 0, MR_DFS_PRE_ORDER, c) != MR_SUCCESS) return (MR_FAILURE);
  return (f (ptrs, 1, 0, MR_DFS_POST_ORDER, c));
}
char * mr_strdup (const char * s) { return (NULL); }
#endif
#include "mr_extra.c"
static struct { mr_ptrdes_t n[2]; mr_ra_ptrdes_t p; union { char b[32]; char * s; float f; double d; long double l; complex float cf; complex double cd; complex long double cl; } v; char str[4]; } k[3];
static mr_fd_t fd; static mr_td_t td;
static const struct { mr_type_t t; unsigned n; } T[] = {
  { MR_TYPE_STRING, 0 }, { MR_TYPE_CHAR_ARRAY, 0 }, { MR_TYPE_CHAR, 1 }, { MR_TYPE_BOOL, 1 }, { MR_TYPE_INT8, 1 }, { MR_TYPE_UINT8, 1 }, { MR_TYPE_INT16, 2 }, { MR_TYPE_UINT16, 2 },
  { MR_TYPE_INT32, 4 }, { MR_TYPE_UINT32, 4 }, { MR_TYPE_INT64, 8 }, { MR_TYPE_UINT64, 8 }, { MR_TYPE_INT128, 16 }, { MR_TYPE_UINT128, 16 }, { MR_TYPE_FLOAT, 4 }, { MR_TYPE_DOUBLE, 8 },
  { MR_TYPE_COMPLEX_FLOAT, 8 }, { MR_TYPE_COMPLEX_DOUBLE, 16 }, { MR_TYPE_BITFIELD, 16 }, { MR_TYPE_ENUM, 0 }, { MR_TYPE_LONG_DOUBLE, 10 }, { MR_TYPE_COMPLEX_LONG_DOUBLE, 26 } };
static const struct { mr_type_t t; unsigned n; } ET[] = { { MR_TYPE_INT8, 1 }, { MR_TYPE_UINT8, 1 }, { MR_TYPE_INT16, 2 }, { MR_TYPE_UINT16, 2 }, { MR_TYPE_INT32, 4 }, { MR_TYPE_UINT32, 4 }, { MR_TYPE_INT64, 8 }, { MR_TYPE_UINT64, 8 }, { MR_TYPE_INT128, 16 }, { MR_TYPE_UINT128, 16 } };
#ifndef TSEL
#define TSEL 0
#define ESEL 0
#endif
void h_structs (void)
{
  unsigned t = TSEL, e = ESEL;
  memset (k, 0, sizeof (k)); memset (&fd, 0, sizeof (fd)); memset (&td, 0, sizeof (td));
  td.mr_type = MR_TYPE_ENUM; td.param.enum_param.size_effective = ET[e].n; td.param.enum_param.mr_type_effective = ET[e].t;
  fd.stype.tdp = &td;
  for (int i = 0; i < 3; i++)
    {
      mr_ptrdes_t * n = &k[i].n[1];
      mv_u128_t a = mv_u128 ();
      for (int j = 0; j < 3; j++) k[i].str[j] = mv_u8 ();
#if !MV_CBMC
      if (a & 8) a &= 3;
      if (a & 16)
	{
	  float ff[4] = { 0, -0.0f, __builtin_nanf (""), 1 }; double dd[2] = { ff[a & 3], ff[(a >> 5) & 3] }; float g[2] = { dd[0], dd[1] };
	  if (T[t].t == MR_TYPE_COMPLEX_DOUBLE || T[t].t == MR_TYPE_DOUBLE) memcpy (&a, dd, 16); else { a = 0; memcpy (&a, g, 8); }
	}
      for (int j = 0; j < 3; j++) k[i].str[j] %= 2;
#endif
      if (T[t].t == MR_TYPE_STRING) k[i].v.s = k[i].str;
      else if (T[t].t == MR_TYPE_CHAR_ARRAY) memcpy (k[i].v.b, k[i].str, 4);
      else if (T[t].t == MR_TYPE_BOOL) k[i].v.b[0] = a & 1;
#if !MV_CBMC
      else if (T[t].t == MR_TYPE_LONG_DOUBLE) k[i].v.l = (a & 4) ? __builtin_nanl ("") : (a & 1) ? -0.0L : (long double)(int)(a & 2);
      else if (T[t].t == MR_TYPE_COMPLEX_LONG_DOUBLE) { __real__ k[i].v.cl = (a & 4) ? __builtin_nanl ("") : (a & 1) ? -0.0L : (long double)(int)(a & 2); __imag__ k[i].v.cl = (a & 64) ? __builtin_nanl ("") : (a & 16) ? -0.0L : (long double)(int)(a & 32); }
#endif
      else memcpy (k[i].v.b, &a, sizeof (a));
      fd.bitfield_param.width = 128; fd.bitfield_param.shift = 0;
      n->mr_type = T[t].t; n->mr_type_aux = T[t].t == MR_TYPE_ENUM ? ET[e].t : MR_TYPE_UINT128; n->fdp = &fd; n->idx = 1; n->data.ptr = k[i].v.b;
      k[i].p.ra = k[i].n; k[i].p.size = sizeof (k[i].n);
    }
#define C(A, B) mr_cmp_structs (&k[A].p, &k[B].p)
  int xy = C (0, 1), yx = C (1, 0), yz = C (1, 2), xz = C (0, 2), xx = C (0, 0);
  ORDER_LAWS (xy, yx, yz, xz, xx);
  mr_hash_value_t hx = mr_hash_struct (&k[0].p), hy = mr_hash_struct (&k[1].p);
  mv_assert (xy != 0 || hx == hy, "equal values hash equally");
  if (T[t].n && T[t].t != MR_TYPE_FLOAT && T[t].t != MR_TYPE_DOUBLE && T[t].t != MR_TYPE_COMPLEX_FLOAT && T[t].t != MR_TYPE_COMPLEX_DOUBLE && T[t].t != MR_TYPE_LONG_DOUBLE && T[t].t != MR_TYPE_COMPLEX_LONG_DOUBLE)
    mv_assert ((xy == 0) == (memcmp (k[0].v.b, k[1].v.b, T[t].n) == 0), "integers are equal exactly when their bytes are");
  if (T[t].t == MR_TYPE_STRING || T[t].t == MR_TYPE_CHAR_ARRAY) mv_assert (sgn (xy) == sgn (strcmp (k[0].str, k[1].str)), "strings compare by content");
  MV_REACHED ();
}
void h_strhash (void)
{
  unsigned n = mv_u8 () % 18; uint8_t * a = mv_malloc (n + 1), * b = mv_malloc (n + 1);
  mv_assume (a != NULL && b != NULL);
  for (unsigned i = 0; i < 17; i++) if (i < n) { uint8_t c = mv_u8 (); a[i] = b[i] = c; }
  a[n] = 0; b[n] = 0;
  if (mv_bool ())
    mv_assert (mr_hash_str ((char *)a) == mr_hash_str ((char *)b), "the hash of a string depends on its content only");
  else
    { a[n] = mv_u8 (); b[n] = mv_u8 (); mv_assert (mr_hash_block (a, n) == mr_hash_block (b, n), "the hash of a block depends on its bytes only"); }
  MV_REACHED ();
}
