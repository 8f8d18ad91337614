/* C11: name keys (hashed strings, type, field and enumerator names) */
//@ unit hstr harness=h_hstr enforce=mr_hashed_string_cmp,mr_hashed_string_get_hash unwind=8 kind=proof
//@ unit names harness=h_names objbits=10 replace=mr_hashed_string_cmp,mr_hashed_string_get_hash functions=mr_fd_name_cmp,mr_ed_name_cmp,mr_td_name_cmp,mr_fd_name_and_type_cmp,mr_fd_name_get_hash,mr_ed_name_get_hash,mr_td_name_get_hash,mr_fd_name_and_type_get_hash unwind=8 kind=proof
//@ unit laws harness=h_laws functions=mr_hashed_string_cmp unwind=8 kind=proof
//@ unit offs harness=h_offs functions=mr_fd_offset_cmp,mr_fd_offset_cmp_sorting,mr_ed_enum_value_cmp,mr_ed_enum_value_cmp_sorting,mr_ud_override_cmp unwind=8 kind=proof
//@ unit valhash harness=h_valhash link=mr_extra defs="-DMV_REAL_HASH" functions=mr_enumfd_get_hash,mr_ud_override_hash,mr_hash_block unwind=8 kind=proof
//@ unit vars harness=h_vars functions=mr_var_cmp,mr_var_get_hash unwind=8 kind=proof
#include "mv.h"
#include "stubs.h"
#include "order.h"
/* Strings of any length and content: a string is a pointer with an (arbitrary) rank in the order of contents.
   Equal ranks mean equal contents; the hash of a content is an arbitrary function of the content. */
#define NS 6
#define BUF 4
static char g_s[NS][BUF]; static uint8_t g_rank[NS]; 
static mr_hash_value_t g_hash[NS], g_hash_null;   /* hash by string, equal for equal ranks (assumed in setup) */
static int idx_of (const char * s) { for (int i = 0; i < NS; i++) if (s == g_s[i]) return (i); return (-1); }
static mr_hash_value_t hash_of (const char * s) { int i = idx_of (s); return (i < 0 ? g_hash_null : g_hash[i]); }
/* specification order: by hash, then NULL first, then by content */
static int spec_cmp (const char * a, const char * b)
{
  mr_hash_value_t x = hash_of (a), y = hash_of (b);
  if (x != y) return (x < y ? -1 : 1);
  if (a == b) return (0);
  if (!a || !b) return (a ? 1 : -1);
  uint8_t p = g_rank[idx_of (a)], q = g_rank[idx_of (b)];
  return ((p > q) - (p < q));
}
static bool spec_eq (const char * a, const char * b) { return ((a && b) ? g_rank[idx_of (a)] == g_rank[idx_of (b)] : a == b); }
static bool hs_ok (const mr_hashed_string_t * s) { return ((s->str == NULL || idx_of (s->str) >= 0) && (s->hash_value == 0 || s->hash_value == hash_of (s->str))); }
#if MV_CBMC
//@ trusted strcmp is a total order on string contents (C standard); mr_hash_str depends on the content only (unit strhash, bounded length; unit valhash for blocks)
int strcmp (const char * a, const char * b)
{
  int i = idx_of (a), j = idx_of (b); mv_assert (i >= 0 && j >= 0, "strcmp of two keys");
  int r = (int)mv_u32 ();
  mv_assume (sgn (r) == (g_rank[i] > g_rank[j]) - (g_rank[i] < g_rank[j]));
  return (r);
}
#ifndef MV_REAL_HASH
mr_hash_value_t mr_hash_str (char * s) { return (hash_of (s)); }
#endif
int mr_hashed_string_cmp (const mr_hashed_string_t * x, const mr_hashed_string_t * y)
__CPROVER_requires (hs_ok (x) && hs_ok (y))
__CPROVER_assigns (((mr_hashed_string_t *)x)->hash_value, ((mr_hashed_string_t *)y)->hash_value)
__CPROVER_ensures (sgn (__CPROVER_return_value) == spec_cmp (x->str, y->str))
__CPROVER_ensures (hs_ok (x) && hs_ok (y));
mr_hash_value_t mr_hashed_string_get_hash (const mr_hashed_string_t * x)
__CPROVER_requires (hs_ok (x))
__CPROVER_assigns (((mr_hashed_string_t *)x)->hash_value)
__CPROVER_ensures (__CPROVER_return_value == hash_of (x->str))
__CPROVER_ensures (hs_ok (x));
#endif
#define MV_IN_METARESC_C
#include "metaresc.c"
static void setup (void)
{
  for (int i = 0; i < NS; i++)
    {
      g_rank[i] = mv_u8 ();
#if MV_CBMC
      g_hash[i] = mv_u64 ();
      for (int j = 0; j < i; j++) if (g_rank[j] == g_rank[i]) g_hash[i] = g_hash[j];
#else
      g_rank[i] %= 5; memset (g_s[i], 0, BUF); if (g_rank[i]) g_s[i][0] = 'a' + g_rank[i] % 3; if (g_rank[i] > 2) g_s[i][1] = 1;
      g_rank[i] = (uint8_t)g_s[i][0] * 2 + g_s[i][1];
      g_hash[i] = mr_hash_str (g_s[i]);
#endif
    }
  g_hash_null = MV_CBMC ? mv_u64 () : 0;
  MV_NATIVE (g_hash_null = mr_hash_str (NULL);)
}
static void hs_make (mr_hashed_string_t * h, int i) { h->str = mv_bool () ? g_s[i] : NULL; h->hash_value = mv_bool () ? 0 : hash_of (h->str); }
static mr_hashed_string_t hs[6];
void h_hstr (void)
{
  setup ();
  hs_make (&hs[0], 0); hs_make (&hs[1], 1);
  int c = mr_hashed_string_cmp (&hs[0], mv_bool () ? &hs[1] : &hs[0]);
  mr_hash_value_t h = mr_hashed_string_get_hash (&hs[0]);
  (void)c; (void)h;
  MV_NATIVE (mv_assert (sgn (mr_hashed_string_cmp (&hs[0], &hs[1])) == spec_cmp (hs[0].str, hs[1].str), "order of hashed strings"); mv_assert (h == hash_of (hs[0].str), "hash of a hashed string");)
  MV_REACHED ();
}
/* the specification order is a total order whose equality is equality of contents and implies equality of hashes */
void h_laws (void)
{
  setup ();
  for (int i = 0; i < 3; i++) hs_make (&hs[i], i);
#define C(A, B) mr_hashed_string_cmp (&hs[A], &hs[B])
  int xy = C (0, 1), yx = C (1, 0), yz = C (1, 2), xz = C (0, 2), xx = C (0, 0);
  ORDER_LAWS (xy, yx, yz, xz, xx);
  mv_assert ((xy == 0) == spec_eq (hs[0].str, hs[1].str), "equal exactly when the contents are equal");
  mv_assert (xy != 0 || mr_hashed_string_get_hash (&hs[0]) == mr_hashed_string_get_hash (&hs[1]), "equal keys hash equally");
  MV_REACHED ();
}
static mr_fd_t fd[3]; static mr_td_t td[3]; static mr_ed_t ed[3];
#define ALL_LAWS(CMP, HASH, OBJ) do { \
  mr_ptr_t x = { .ptr = &OBJ[0] }, y = { .ptr = &OBJ[1] }, z = { .ptr = &OBJ[2] }; \
  int xy = CMP (x, y, NULL), yx = CMP (y, x, NULL), yz = CMP (y, z, NULL), xz = CMP (x, z, NULL), xx = CMP (x, x, NULL); \
  ORDER_LAWS (xy, yx, yz, xz, xx); \
  g_xy = xy; \
  mv_assert (xy != 0 || HASH (x, NULL) == HASH (y, NULL), "equal keys hash equally"); } while (0)
static int g_xy;
void h_names (void)
{
  setup ();
  for (int i = 0; i < 3; i++) { hs_make (&fd[i].name, i); hs_make (&td[i].type, 3 + i); hs_make (&ed[i].name, i); fd[i].stype.tdp = &td[i]; }
  bool eq = spec_eq (fd[0].name.str, fd[1].name.str), eqt = spec_eq (td[0].type.str, td[1].type.str), eqe = spec_eq (ed[0].name.str, ed[1].name.str);
  ALL_LAWS (mr_fd_name_cmp, mr_fd_name_get_hash, fd);
  mv_assert ((g_xy == 0) == eq, "field names are equal exactly when their texts are");
  ALL_LAWS (mr_td_name_cmp, mr_td_name_get_hash, td);
  mv_assert ((g_xy == 0) == eqt, "type names are equal exactly when their texts are");
  ALL_LAWS (mr_ed_name_cmp, mr_ed_name_get_hash, ed);
  mv_assert ((g_xy == 0) == eqe, "enumerator names are equal exactly when their texts are");
  ALL_LAWS (mr_fd_name_and_type_cmp, mr_fd_name_and_type_get_hash, fd);
  mv_assert ((g_xy == 0) == (eq && eqt), "name and type are equal exactly when both texts are");
  MV_REACHED ();
}
static mr_ud_override_t ov[3];
static mr_hash_value_t no_hash (mr_ptr_t x, const void * c) { return (0); }
void h_offs (void)
{
  static mr_fd_t * pf[3]; static mr_ed_t * pe[3];
  for (int i = 0; i < 3; i++)
    {
      fd[i].offset = mv_u64 (); fd[i].stype.size = mv_u64 (); fd[i].stype.mr_type = mv_u8 (); pf[i] = &fd[i]; pe[i] = &ed[i];
      MV_NATIVE (fd[i].offset &= 1; fd[i].stype.size &= 3;)
      fd[i].bitfield_param.shift = mv_u8 (); fd[i].bitfield_param.width = mv_u8 ();
      ed[i].value._unsigned = mv_u64 (); ov[i].value = mv_u64 ();
    }
  /* members of a C struct do not overlap: two members at one offset are both bit-fields, or one of them is empty */
  for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++)
    mv_assume (fd[i].offset != fd[j].offset || (fd[i].stype.mr_type == MR_TYPE_BITFIELD && fd[j].stype.mr_type == MR_TYPE_BITFIELD)
      || (fd[i].stype.size == 0 && fd[i].stype.mr_type != MR_TYPE_BITFIELD) || (fd[j].stype.size == 0 && fd[j].stype.mr_type != MR_TYPE_BITFIELD));
  for (int i = 0; i < 3; i++) mv_assume (fd[i].stype.mr_type != MR_TYPE_BITFIELD || fd[i].stype.size != 0);
  ALL_LAWS (mr_fd_offset_cmp, no_hash, fd);
  mv_assert (g_xy == (fd[0].offset > fd[1].offset) - (fd[0].offset < fd[1].offset), "fields are ordered by offset");
  ALL_LAWS (mr_fd_offset_cmp_sorting, no_hash, pf);
  mv_assert (fd[0].offset == fd[1].offset || sgn (g_xy) == (fd[0].offset > fd[1].offset) - (fd[0].offset < fd[1].offset), "sorting order of fields is by offset first");
  ALL_LAWS (mr_ed_enum_value_cmp, no_hash, ed);
  mv_assert (sgn (g_xy) == (ed[0].value._unsigned > ed[1].value._unsigned) - (ed[0].value._unsigned < ed[1].value._unsigned), "exact sign");
  ALL_LAWS (mr_ed_enum_value_cmp_sorting, no_hash, pe);
  mv_assert (sgn (g_xy) == (ed[0].value._unsigned > ed[1].value._unsigned) - (ed[0].value._unsigned < ed[1].value._unsigned), "exact sign");
  ALL_LAWS (mr_ud_override_cmp, no_hash, ov);
  mv_assert (sgn (g_xy) == (ov[0].value > ov[1].value) - (ov[0].value < ov[1].value), "exact sign");
  MV_REACHED ();
}
void h_valhash (void)
{
  for (int i = 0; i < 2; i++) { ed[i].value._unsigned = mv_u64 (); ov[i].value = mv_u64 (); ed[i].mr_type = mv_u8 (); }
  mr_ptr_t x = { .ptr = &ed[0] }, y = { .ptr = &ed[1] };
  mv_assert (mr_ed_enum_value_cmp (x, y, NULL) != 0 || mr_enumfd_get_hash (x, NULL) == mr_enumfd_get_hash (y, NULL), "equal enumeration values hash equally");
  x.ptr = &ov[0]; y.ptr = &ov[1];
  mv_assert (mr_ud_override_cmp (x, y, NULL) != 0 || mr_ud_override_hash (x, NULL) == mr_ud_override_hash (y, NULL), "equal overrides hash equally");
  MV_REACHED ();
}
static mr_var_t var[3];
void h_vars (void)
{
  setup ();
  for (int i = 0; i < 3; i++) { var[i].filename = g_s[i]; var[i].varname = g_s[3 + i]; }
  ALL_LAWS (mr_var_cmp, mr_var_get_hash, var);
  mv_assert ((g_xy == 0) == (spec_eq (g_s[0], g_s[1]) && spec_eq (g_s[3], g_s[4])), "variables are equal exactly when file and name are");
  MV_REACHED ();
}
