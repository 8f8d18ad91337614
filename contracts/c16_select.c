/* C16: selection of the union branch from a discriminator value, and the set of resolutions kept per node */
//@ unit scalar harness=h_scalar functions=mr_union_discriminator_by_type,mr_union_discriminator_by_idx,mr_union_discriminator_by_name,mr_ud_override_value kind=proof timeout=200 unwind=2 unwindset=strlen.0:9,strcpy.0:9 objbits=10 
//@ unit redirect harness=h_redirect functions=mr_union_discriminator_by_type,mr_init_pointer_fd kind=bounded bound="discriminators reached through at most 3 redirections (array, pointer, array of pointers, pointer to pointer, void)" timeout=200 unwind=6 objbits=10
//@ unit redirect_struct harness=h_redirect functions=mr_union_discriminator_by_type kind=native bound="struct and union discriminators with at most 2 nested first fields; CBMC aborts on the bit-fields of mr_td_t" secs=5
//@ unit ud_find harness=h_ud_find functions=mr_ud_find,mr_ud_cmp kind=proof timeout=200 unwind=20 objbits=10
//@ unit ud_add harness=h_ud_add functions=mr_ud_add,mr_ud_find,mr_ud_cmp kind=proof timeout=200 unwind=20 objbits=10
//@ trusted unions of up to 200 branches (the code compares the position with the count and is otherwise independent of it)
//@ trusted mr_ic_find/mr_ic_add/mr_ic_index (C08), mr_get_fd_by_name, mr_get_enum_by_value, mr_get_enum_value (C04) and mr_save_bitfield_value (C01) by contract: lookups return the stored entry of an equal key or nothing
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#define BRANCHES 6
#define MAXB 200
/* plain memory: CBMC loses track of pointers kept in the union inside an object of type mr_td_t */
static uint64_t g_union_mem[sizeof (mr_td_t) / 8 + 1], g_enum_mem[sizeof (mr_td_t) / 8 + 1];
#define g_union (*(mr_td_t *)g_union_mem)
#define g_enum (*(mr_td_t *)g_enum_mem)
static mr_fd_t g_parent; static uint64_t g_n;
static mr_uintmax_t g_value;                      /* the true value of the discriminator */
static bool g_ov_hit, g_named_hit, g_meta; static mr_fd_t g_ov_fd, g_named_fd; static mr_ud_override_t g_udo; static char g_text[8]; static mr_ed_t g_ed;
static bool g_name_asked;
#if MV_CBMC
#include <mr_ic.h>
static mr_ptr_t g_cell; static mr_ic_t * g_ic_expected; static void * g_disc;
static struct { unsigned find, add, index; bool add_ok, index_ok; int64_t found; uint64_t stored; bool snap; uint64_t at; uint64_t key_at, cnt; } g_ic;
static uint64_t g_ukey; static bool g_override_ic;
static mr_ptr_t * find_stub (mr_ic_t * ic, mr_ptr_t key)
{
  if (g_override_ic)
    {
      mv_assert (ic == g_ic_expected, "the overrides of this union are searched");
      int64_t value = *(int64_t *)(key.uintptr + offsetof (mr_ud_override_t, value));
      mv_assert ((uint64_t)value == (uint64_t)g_value, "overrides are searched for the discriminator's value");
      if (!g_ov_hit) return (NULL);
      g_udo.fdp = &g_ov_fd; g_cell.ptr = &g_udo;
      return (&g_cell);
    }
  mv_assert (ic == g_ic_expected && key.uintptr == g_ukey, "set searched for the key");
  g_ic.find++;
  if (g_ic.found < 0) return (NULL);
  g_cell.uintptr = g_ic.found;
  return (&g_cell);
}
static mr_ptr_t * add_stub (mr_ic_t * ic, mr_ptr_t key)
{
  mv_assert (ic == g_ic_expected && key.uintptr == g_ukey, "key added to the set");
  g_ic.add++;
  if (!g_ic.add_ok) return (NULL);
  g_cell.uintptr = g_ic.stored;
  return (&g_cell);
}
static mr_status_t index_stub (mr_ic_t * ic, mr_ptr_t * ra, size_t size)
{
  g_ic.index++; g_ic_expected = ic; g_ic.cnt = size / sizeof (*ra);
  mv_assert (g_ic.at >= g_ic.cnt || ra[g_ic.at].uintptr == g_ic.key_at, "every resolution already known is carried over");
  return (g_ic.index_ok ? MR_SUCCESS : MR_FAILURE);
}
static mr_ic_virt_func_t g_virt = { .add = add_stub, .find = find_stub, .index = index_stub };
mr_status_t mr_ic_hash_new (mr_ic_t * ic, mr_hash_fn_t h, mr_compar_fn_t c, char * t, mr_res_t * ctx) { ic->virt_func = &g_virt; return (mv_bool () ? MR_SUCCESS : MR_FAILURE); }
mr_fd_t * mr_get_fd_by_name (mr_td_t * tdp, char * name)
{
  mv_assert (tdp == &g_union && name == g_text, "the branch is looked up in this union by the discriminator's text");
  g_name_asked = true;
  return (g_named_hit ? &g_named_fd : NULL);
}
mr_ed_t * mr_get_enum_by_value (mr_td_t * tdp, mr_enum_value_type_t value)
{
  mv_assert (tdp == &g_enum && (uint64_t)value == (uint64_t)g_value, "enumeration value looked up");
  g_ed.meta = g_text;
  return (g_meta ? &g_ed : NULL);
}
mr_enum_value_type_t mr_get_enum_value (mr_td_t * tdp, void * data) { mv_assert (tdp == &g_enum && data == g_disc, "enum value"); return (g_value); }
mr_status_t mr_save_bitfield_value (mr_ptrdes_t * ptrdes, mr_uintmax_t * value)
{
  mv_assert (ptrdes->data.ptr == g_disc && ptrdes->fdp == &g_parent && ptrdes->mr_type_aux == g_parent.stype.mr_type_aux, "the discriminator's own bits are read, with the sign of its own type");
  *value = g_value;
  return (MR_SUCCESS);
}
#endif
#include "mr_save.c"
static void make_union (void)
{
#if MV_CBMC
  g_n = mv_u64 (); mv_assume (g_n <= MAXB);
#else
  g_n = mv_u64 () % BRANCHES;
#endif
  static mr_fd_t * fields[MAXB];
  memset (&g_union, 0, sizeof (g_union));
  g_union.mr_type = MR_TYPE_UNION; g_union.param.union_param.fields = fields; g_union.param.union_param.fields_size = g_n * sizeof (*fields);
#if !MV_CBMC
  static mr_fd_t fds[BRANCHES];
  memset (fds, 0, sizeof (fds)); memset (&g_named_fd, 0, sizeof (g_named_fd)); memset (&g_ov_fd, 0, sizeof (g_ov_fd));
  for (uint64_t i = 0; i < g_n; i++) fields[i] = &fds[i];
  mr_ic_new (&g_union.param.struct_param.field_by_name, mr_fd_name_get_hash, mr_fd_name_cmp, "mr_fd_t", MR_IC_HASH, NULL);
  g_named_fd.name.str = "text"; g_named_fd.name.hash_value = mr_hash_str (g_named_fd.name.str);
  if (g_named_hit) mr_ic_add (&g_union.param.struct_param.field_by_name, &g_named_fd);
#endif
}
/* the first branch and the one at the position the discriminator names; all other entries hold arbitrary pointers */
static mr_fd_t g_first, g_at;
static void mark_branches (mr_uintmax_t pos)
{
  mr_fd_t ** fields = g_union.param.union_param.fields;
  if (g_n > 0) fields[0] = &g_first;
  if (pos > 0 && pos < g_n) fields[(uint64_t)pos] = &g_at;
}
#define BY_INDEX(V) (g_n == 0 ? NULL : (mr_uintmax_t)(V) < g_n && (V) > 0 ? &g_at : &g_first)
#define DEFAULT() (g_n == 0 ? NULL : &g_first)
#define BY_NAME(TEXT) (((TEXT) != NULL && ((char *)(TEXT))[0] && g_named_hit) ? &g_named_fd : DEFAULT ())
void h_scalar (void)
{
  static uint8_t mem[32] __attribute__ ((aligned (16)));
  unsigned kind = mv_u8 () % 16;
  uint64_t lo = mv_u64 (), hi = mv_u64 ();
  mem_init ();
  MV_NATIVE (mem_never_fail = true;)
  memcpy (mem, &lo, 8); memcpy (mem + 8, &hi, 8);
  g_ov_hit = mv_bool (); g_named_hit = mv_bool (); g_meta = mv_bool (); g_name_asked = false;
  bool nonempty = mv_bool (), with_overrides = mv_bool (), with_td = mv_bool ();
  strcpy (g_text, nonempty ? "text" : "");
  make_union ();
  memset (&g_parent, 0, sizeof (g_parent));
  memset (&g_enum, 0, sizeof (g_enum)); g_enum.mr_type = MR_TYPE_ENUM;
  mr_ic_t ic; memset (&ic, 0, sizeof (ic));
  mr_ic_t * overrides = with_overrides ? &ic : NULL;
  void * disc = mem; bool named = false; bool use_meta = false;
  switch (kind)
    {
#define INT(K, T, M) case K: g_parent.stype.mr_type = M; g_value = *(T *)mem; break;
      INT (0, uint8_t, MR_TYPE_UINT8) INT (1, int8_t, MR_TYPE_INT8) INT (2, uint16_t, MR_TYPE_UINT16) INT (3, int16_t, MR_TYPE_INT16)
      INT (4, uint32_t, MR_TYPE_UINT32) INT (5, int32_t, MR_TYPE_INT32) INT (6, uint64_t, MR_TYPE_UINT64) INT (7, int64_t, MR_TYPE_INT64)
      INT (8, mr_uintmax_t, MR_TYPE_UINT128) INT (9, mr_intmax_t, MR_TYPE_INT128)
    case 10: g_parent.stype.mr_type = MR_TYPE_BOOL; mem[0] &= 1; g_value = mem[0]; break;
    case 11: case 12: /* bit-field, of an integer or an enumeration */
      g_parent.stype.mr_type = MR_TYPE_BITFIELD; g_parent.stype.mr_type_aux = kind == 12 ? MR_TYPE_ENUM : mv_bool () ? MR_TYPE_INT32 : MR_TYPE_UINT32;
#if MV_CBMC
      g_value = ((mr_uintmax_t)hi << 64) | lo;
#else
      g_parent.bitfield_param.width = 1 + (hi & 31); g_parent.bitfield_param.shift = (hi >> 8) & 7;
      g_value = (((mr_uintmax_t)lo) >> g_parent.bitfield_param.shift) & ((1ULL << g_parent.bitfield_param.width) - 1);
      g_enum.param.enum_param.mr_type_effective = (hi >> 16) & 1 ? MR_TYPE_INT32 : MR_TYPE_UINT32;
      if (MR_TYPE_INT32 == (kind == 12 && with_td ? g_enum.param.enum_param.mr_type_effective : g_parent.stype.mr_type_aux))
	if ((g_value >> (g_parent.bitfield_param.width - 1)) & 1) g_value |= ~(mr_uintmax_t)0 << g_parent.bitfield_param.width;
#endif
      if (kind == 12) { g_parent.stype.tdp = with_td ? &g_enum : NULL; use_meta = with_td; }
      break;
    case 13: /* enumeration */
      g_parent.stype.mr_type = MR_TYPE_ENUM; g_parent.stype.tdp = with_td ? &g_enum : NULL; use_meta = with_td;
      g_enum.param.enum_param.size_effective = 8; g_enum.size = 8;
      g_enum.param.enum_param.mr_type_effective = (hi & 1) ? MR_TYPE_INT64 : MR_TYPE_UINT64;
      g_value = (hi & 1) ? (mr_uintmax_t)(mr_intmax_t)(int64_t)lo : (mr_uintmax_t)lo;
      MV_NATIVE (g_value = (mr_uintmax_t)mr_get_enum_value (&g_enum, mem);)
      if (MV_CBMC) g_value = lo;       /* what the library's enumeration value type can hold */
      break;
    case 14: g_parent.stype.mr_type = MR_TYPE_CHAR_ARRAY; disc = g_text; named = true; break;
    default: g_parent.stype.mr_type = MR_TYPE_STRING; named = true; { char * s = mv_bool () ? g_text : NULL; memcpy (mem, &s, sizeof (s)); } break;
    }
#if MV_CBMC
  g_disc = disc; g_ic_expected = &ic; g_override_ic = true; ic.virt_func = &g_virt;
#else
  g_udo.value = with_overrides ? (int64_t)g_value : 0; g_udo.fdp = &g_ov_fd;
  mr_ic_new (&ic, mr_ud_override_hash, mr_ud_override_cmp, "mr_ud_override_t", MR_IC_HASH, NULL);
  if (g_ov_hit) mr_ic_add (&ic, &g_udo);
  static mr_ed_t * eds[1]; eds[0] = &g_ed;
  g_ed.meta = g_text; g_ed.value._unsigned = g_value;
  g_enum.param.enum_param.enums = eds; g_enum.param.enum_param.enums_size = g_meta ? sizeof (eds) : 0;
#endif
  mark_branches (g_value);
  bool fits = g_value == (uint64_t)g_value || g_value == (mr_uintmax_t)(mr_intmax_t)(int64_t)g_value;
  mr_fd_t * r = mr_union_discriminator_by_type (&g_union, &g_parent, disc, overrides);
  mr_fd_t * expected;
  if (!named && with_overrides && g_ov_hit && fits && !(MR_TYPE_ENUM == g_parent.stype.mr_type && !with_td)) expected = &g_ov_fd;
  else if (named) { char * t = MR_TYPE_STRING == g_parent.stype.mr_type ? *(char **)mem : g_text; expected = BY_NAME (t); }
  else if (use_meta) expected = g_meta ? BY_NAME (g_text) : DEFAULT ();
  else if (MR_TYPE_ENUM == g_parent.stype.mr_type) expected = DEFAULT ();
  else expected = BY_INDEX (g_value);
  mv_assert (r == expected, "an override for the exact value wins, then the name, then the position, then the first branch");
  MV_NATIVE (mr_ic_free (&ic); mr_ic_free (&g_union.param.struct_param.field_by_name);)
  MV_REACHED ();
}

/* discriminators that are not scalars themselves: array -> first element, pointer -> content, marked struct/union -> first field */
#define td(I) ((mr_td_t *)tdm[I])
static void redirect (unsigned kind)
{
  static uint64_t tdm[2][sizeof (mr_td_t) / 8 + 1]; static mr_fd_t inner[3]; static mr_fd_t * fl[3][1];
  static uint32_t cell[8]; static void * ptr[4];
  mem_init ();
  MV_NATIVE (mem_never_fail = true;)
  g_named_hit = g_ov_hit = false; strcpy (g_text, "");
  make_union ();
#if MV_CBMC
  g_override_ic = true;
#endif
  MV_NATIVE (memset (&g_parent, 0, sizeof (g_parent));) MV_NATIVE (memset (tdm, 0, sizeof (tdm));) MV_NATIVE (memset (inner, 0, sizeof (inner));)
  for (int i = 0; i < 4; i++) { cell[2 * i] = mv_u32 (); cell[2 * i + 1] = mv_u32 (); }
  unsigned off = 4 * (kind % 8); bool null1 = mv_bool (), null2 = mv_bool (), def = false;
  void * disc; g_value = cell[off / 4];
  ptr[0] = null1 ? NULL : (char *)cell + off; ptr[1] = null2 ? NULL : &ptr[0];
  inner[0].stype.mr_type = MR_TYPE_UINT32; inner[0].offset = off;
  inner[1].stype.mr_type = MR_TYPE_STRUCT; inner[1].stype.tdp = td (0); inner[1].offset = 0;
  for (int i = 0; i < 2; i++) { fl[i][0] = &inner[i]; td (i)->mr_type = MR_TYPE_STRUCT; td (i)->is_union_discriminator = true; td (i)->param.struct_param.fields = fl[i]; td (i)->param.struct_param.fields_size = sizeof (fl[i]); }
  mr_stype_t * st = &g_parent.stype;
  switch (kind)
    {
    case 0: st->mr_type = MR_TYPE_ARRAY; st->mr_type_aux = MR_TYPE_UINT32; disc = (char *)cell + off; break;
    case 1: st->mr_type = MR_TYPE_POINTER; st->mr_type_aux = MR_TYPE_UINT32; disc = &ptr[0]; def = null1; break;
    case 2: st->mr_type = MR_TYPE_ARRAY; st->mr_type_aux = MR_TYPE_POINTER; g_parent.mr_type_base = MR_TYPE_UINT32; disc = &ptr[0]; def = null1; break;
    case 3: st->mr_type = MR_TYPE_POINTER; st->mr_type_aux = MR_TYPE_POINTER; g_parent.mr_type_base = MR_TYPE_UINT32; disc = &ptr[1]; def = null1 || null2; break;
    case 4: st->mr_type = MR_TYPE_VOID; st->mr_type_aux = MR_TYPE_UINT32; disc = (char *)cell + off; break;
    case 5: st->mr_type = MR_TYPE_VOID; st->mr_type_aux = mv_bool () ? MR_TYPE_VOID : mv_bool () ? MR_TYPE_ARRAY : MR_TYPE_POINTER; disc = cell; def = true; break;
    case 6: st->mr_type = MR_TYPE_STRUCT; st->tdp = td (0); disc = cell; break;
    case 7: st->mr_type = MR_TYPE_ANON_UNION; st->tdp = td (1); disc = cell; break;
    case 8: st->mr_type = MR_TYPE_STRUCT; st->tdp = td (0); td (0)->is_union_discriminator = false; disc = cell; def = true; break;
    case 9: st->mr_type = MR_TYPE_NAMED_ANON_UNION; st->tdp = td (0); td (0)->param.struct_param.fields_size = 0; disc = cell; def = true; break;
    case 10: st->mr_type = MR_TYPE_UNION; st->tdp = mv_bool () ? td (1) : NULL; disc = cell; def = st->tdp == NULL; break;
    default: st->mr_type = mv_bool () ? MR_TYPE_NONE : MR_TYPE_FUNC; disc = cell; def = true; break;
    }
  mark_branches (g_value);
  mr_fd_t * r = mr_union_discriminator_by_type (&g_union, &g_parent, disc, NULL);
  mv_assert (r == (def ? DEFAULT () : BY_INDEX (g_value)), "redirected discriminators select by the value they lead to, unresolvable ones select the first branch");
  MV_NATIVE (mr_ic_free (&g_union.param.struct_param.field_by_name);)
  MV_REACHED ();
}
void h_redirect (void)
{
  switch (mv_u8 () % 12)                /* constants, so that the verifier can follow the redirections */
    {
#define K(N) case N: redirect (N); break;
      K (0) K (1) K (2) K (3) K (4) K (5) K (11)
#if !MV_CBMC
      K (6) K (7) K (8) K (9) K (10)
#endif
    }
}

/* the resolutions remembered per node: a set of record numbers with distinct union descriptors */
#define RECORDS 8
#define CAP (sizeof (((mr_ud_set_t *)0)->idx) / sizeof (((mr_ud_set_t *)0)->idx[0]))
static mr_union_discriminator_t g_rec[RECORDS]; static mr_fd_t g_fds[4];
static void make_set (mr_ud_set_t * uds, unsigned * n)
{
  memset (uds, 0, sizeof (*uds));
  for (int i = 0; i < RECORDS; i++) { g_rec[i].union_fdp = &g_fds[mv_u8 () % 4]; g_rec[i].discriminated_fdp = &g_fds[mv_u8 () % 4]; }
  *n = mv_u8 () % (CAP + 1);
  for (unsigned i = 0; i < CAP; i++)
    {
      uds->idx[i] = mv_u8 () % RECORDS;
      for (unsigned j = 0; j < i; j++) mv_assume (i >= *n || g_rec[uds->idx[i]].union_fdp != g_rec[uds->idx[j]].union_fdp);
    }
  uds->size = *n * sizeof (uds->idx[0]);
}
void h_ud_find (void)
{
  mr_save_data_t sd; mr_ud_set_t uds; unsigned n;
  mem_init ();
  memset (&sd, 0, sizeof (sd)); sd.mr_ra_ud = g_rec;
  make_set (&uds, &n);
  uint64_t key = mv_u8 () % RECORDS;
#if MV_CBMC
  static mr_ic_t ic;
  if (mv_bool ())
    {
      uds.is_ic = true; uds.union_discriminator = &ic; g_ic_expected = &ic; ic.virt_func = &g_virt; g_ukey = key; g_override_ic = false;
      g_ic.found = mv_bool () ? -1 : mv_u8 () % RECORDS;
      mv_assert (mr_ud_find (&uds, key, &sd) == g_ic.found, "the collection's answer is returned");
      MV_REACHED ();
      return;
    }
#endif
  int r = mr_ud_find (&uds, key, &sd), e = -1;
  for (unsigned i = 0; i < n; i++) if (g_rec[uds.idx[i]].union_fdp == g_rec[key].union_fdp) e = uds.idx[i];
  mv_assert (r == e, "a resolution is found exactly when the set has one for the same union");
  MV_REACHED ();
}
void h_ud_add (void)
{
  mr_save_data_t sd; mr_ud_set_t uds, old; unsigned n;
  mem_init ();
  memset (&sd, 0, sizeof (sd)); sd.mr_ra_ud = g_rec;
  MV_NATIVE (sd.mr_ra_ud_size = sizeof (g_rec);)
  make_set (&uds, &n); old = uds;
  uint64_t key = mv_u8 () % RECORDS; bool have = false; int at = -1;
#if MV_CBMC
  g_ukey = key; g_override_ic = false; g_ic.find = g_ic.add = g_ic.index = 0; g_ic.add_ok = mv_bool (); g_ic.index_ok = mv_bool (); g_ic.stored = mv_u8 () % RECORDS; g_ic.cnt = 0;
  g_ic.at = mv_u8 () % CAP; g_ic.key_at = uds.idx[g_ic.at];
  static mr_ic_t ic;
  if (mv_bool ())
    {
      uds.is_ic = true; uds.union_discriminator = &ic; g_ic_expected = &ic; ic.virt_func = &g_virt;
      int r = mr_ud_add (&uds, key, &sd);
      mv_assert (r == (g_ic.add_ok ? (int)g_ic.stored : -1) && g_ic.add == 1, "the key is added to the collection");
      MV_REACHED ();
      return;
    }
#endif
  for (unsigned i = 0; i < n; i++) if (g_rec[uds.idx[i]].union_fdp == g_rec[key].union_fdp) { have = true; at = uds.idx[i]; }
  int r = mr_ud_add (&uds, key, &sd);
  if (have) mv_assert (r == at && !uds.is_ic && memcmp (&uds, &old, sizeof (old)) == 0, "a union already resolved keeps its resolution");
  else if (n < CAP)
    {
      mv_assert (r == (int)key && !uds.is_ic && uds.size == (n + 1) * sizeof (uds.idx[0]) && uds.idx[n] == key, "a new resolution is appended");
      for (unsigned i = 0; i < n; i++) mv_assert (uds.idx[i] == old.idx[i], "earlier resolutions are kept");
    }
  else if (uds.is_ic)
    {
#if MV_CBMC
      mv_assert (g_ic.index == 1 && g_ic.index_ok && g_ic.cnt == CAP && g_ic.add == 1 && uds.union_discriminator == g_ic_expected, "a full list becomes a collection of the same resolutions and the new one");
      mv_assert (r == (g_ic.add_ok ? (int)g_ic.stored : -1), "and reports what was stored");
#else
      mv_assert (r == -1 || r == (int)key, "stored");
      for (unsigned i = 0; i < n; i++) mv_assert (mr_ud_find (&uds, (uint64_t)old.idx[i], &sd) == old.idx[i], "earlier resolutions are kept");
      if (r != -1) mv_assert (mr_ud_find (&uds, key, &sd) == (int)key, "the new resolution is found");
      mr_ud_free (&uds);
#endif
    }
  else mv_assert (r == -1 && memcmp (&uds, &old, sizeof (old)) == 0, "a failure leaves the set as it was");
  MV_REACHED ();
}
