/* C08: indexed collections are sets of distinct keys. A key is 4 * class + variant: the comparator and the hash see the class only. */
//@ unit static harness=h_static functions=mr_ic_static_array_add,mr_ic_static_array_del,mr_ic_static_array_find,mr_ic_static_array_foreach,mr_ic_static_array_index kind=proof unwind=5 objbits=8 defs="-DKIND=0" timeout=300 secs=4
//@ unit sorted harness=h_sorted functions=mr_ic_sorted_array_add,mr_ic_sorted_array_del,mr_ic_sorted_array_find,mr_ic_sorted_array_find_idx,mr_ic_unsorted_array_foreach kind=bounded bound="sorted arrays of at most 7 keys; all keys, all allocation outcomes" unwind=9 objbits=8 defs="-DKIND=1" timeout=300 secs=4
//@ unit unsorted harness=h_unsorted functions=mr_ic_unsorted_array_find,mr_ic_unsorted_array_foreach,mr_ic_unsorted_array_index kind=bounded bound="unsorted arrays of at most 7 keys" unwind=9 objbits=8 defs="-DKIND=2" timeout=300 secs=4
//@ unit hashadd harness=h_hash functions=mr_ic_hash_add,mr_ic_hash_find,mr_ic_hash_foreach,mr_ic_hash_index_add kind=bounded bound="hash tables of 5 slots and the zero slot; every valid content, hash function and key" unwind=9 objbits=8 defs="-DKIND=3 -DOP=1" timeout=300 secs=4
//@ unit hashdel harness=h_hash functions=mr_ic_hash_del,mr_ic_hash_find,mr_ic_hash_foreach,mr_ic_hash_index_add kind=bounded bound="hash tables of 5 slots and the zero slot; every valid content, hash function and key" unwind=9 objbits=8 defs="-DKIND=3 -DOP=0" timeout=300 secs=4
//@ unit model1 harness=h_model functions=mr_ic_unsorted_array_add,mr_ic_unsorted_array_del,mr_ic_sorted_array_index,mr_ic_static_array_add kind=native bound="random histories over at most 48 classes of keys, random allocation failures" defs="-DKIND=4 -DTYPES=0" secs=12
//@ unit model2 harness=h_model functions=mr_ic_hash_add,mr_ic_hash_reindex,mr_ic_hash_index,mr_ic_rbtree_add,mr_ic_rbtree_del,mr_ic_avltree_add,mr_ic_avltree_del,mr_ic_tree_find,mr_ic_tree_index,mr_ic_tree_foreach_unsorted kind=native bound="random histories over at most 48 classes of keys, random allocation failures" defs="-DKIND=5 -DTYPES=1" secs=12
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#if MV_CBMC
/* the virtual dispatch is resolved by hand: the verifier would consider every collection type at every call (the native units run it as it is) */
#include <mr_ic.h>
static inline mr_status_t mv_not_reached (void) { mv_assert (false, "no conversion and no growth here"); return (MR_FAILURE); }
#if KIND == 0
#define mr_ic_find mr_ic_static_array_find
static unsigned mv_depth;
mr_ptr_t * mr_ic_static_array_add (mr_ic_t * ic, mr_ptr_t key);
static void unchanged (mr_ic_t * ic);
static mr_ptr_t * mv_add (mr_ic_t * ic, mr_ptr_t key)
{
  if (mv_depth) { mv_not_reached (); return (NULL); }
  mv_depth = 1; mr_ptr_t * r = mr_ic_static_array_add (ic, key); mv_depth = 0; unchanged (ic);
  return (r);
}
#define mr_ic_add mv_add
#elif KIND == 3
#define mr_ic_find mr_ic_hash_find
#define mr_ic_add(I, K) (mv_not_reached (), (mr_ptr_t *)NULL)
#else
#define mr_ic_find(I, K) (mv_not_reached (), (mr_ptr_t *)NULL)
#define mr_ic_add(I, K) (mv_not_reached (), (mr_ptr_t *)NULL)
#endif
#define mr_ic_index(I, R, S) mv_not_reached ()
#define mr_ic_foreach(I, V, C) mv_not_reached ()
#define mr_ic_del(I, K) mv_not_reached ()
#define mr_ic_free(I) ((void)mv_not_reached ())
//@ trusted the inline wrappers mr_ic_add/del/find/foreach/index/free are resolved to the function of the collection type under proof (the virtual table is exercised by the native units)
#endif
#include "mr_ic.c"
#if MV_CBMC
#undef mr_ic_foreach
#endif
#define CLASSES 48
#define CLASS(v) ((unsigned)((v) >> 2))
static int g_ctx; static mr_hash_value_t g_hash[64]; static bool g_failed;
static int cmp (const mr_ptr_t a, const mr_ptr_t b, const void * context)
{
  mv_assert (context == &g_ctx, "context is passed through");
  return (CLASS (a.uintptr) < CLASS (b.uintptr) ? -1 : CLASS (a.uintptr) > CLASS (b.uintptr));
}
static mr_hash_value_t hash (const mr_ptr_t a, const void * context)
{
  mv_assert (context == &g_ctx, "context is passed through");
  return (g_hash[CLASS (a.uintptr) & 63]);
}
static mr_ptr_t mk (unsigned v) { mr_ptr_t p; p.uintptr = v; return (p); }
/* visitor: collects what is visited */
#define VMAX 128
static unsigned g_seen[VMAX], g_visits, g_stop; static int g_vctx;
static mr_status_t visit (mr_ptr_t key, void * context)
{
  mv_assert (context == &g_vctx, "visitor context is passed through");
  mv_assert (g_visits < VMAX, "not more visits than keys"); if (g_visits < VMAX) g_seen[g_visits] = key.uintptr;
  return (++g_visits == g_stop ? MR_FAILURE : MR_SUCCESS);
}
#if MV_CBMC
static mr_ic_t * ic;
#define MAXK (KIND == 0 ? 3 : 7)
static uint64_t ra_old[MAXK + 2], ra_new[MAXK + 2]; static unsigned n;
//@ trusted mr_rarray_allocate_element is taken by its contract (C07): it may fail without effect, otherwise the array moves to a larger block with the old elements
void * mr_rarray_allocate_element (void ** data, ssize_t * size, ssize_t * alloc_size, size_t element_size)
{
  mv_assert (element_size == 8 && *data == ra_old && *size == 8 * n && *alloc_size == 0x5A5A, "allocates one key");
  if (mv_bool ()) { g_failed = true; return (NULL); }
  for (unsigned i = 0; i < MAXK + 1; i++) ra_new[i] = i < n ? ra_old[i] : mv_u64 ();
  *data = ra_new; *size += 8;
  return (&ra_new[n]);
}
//@ trusted memmove is modelled word by word (the keys it moves are 8 bytes)
void * memmove (void * d, const void * s, size_t size)
{
  uint64_t t[MAXK + 1], * dd = d; const uint64_t * ss = s;
  mv_assert (size % 8 == 0 && size <= 8 * (MAXK + 1), "whole keys are moved");
  for (unsigned i = 0; i < MAXK + 1; i++) if (i * 8 < size) t[i] = ss[i];
  for (unsigned i = 0; i < MAXK + 1; i++) if (i * 8 < size) dd[i] = t[i];
  return (d);
}
//@ trusted mr_hsort is taken by its contract (C10); it is not reached in the discharged units
void mr_hsort (void * key, size_t count, size_t size, mr_compar_fn_t c, void * context) { mv_assert (false, "no sorting here"); }
static void start (void)
{
  mem_init ();
  static mr_ic_t ic_obj; ic = &ic_obj; g_failed = false;
  ic->context.data.ptr = &g_ctx; ic->compar_fn = cmp;
}
#define KEYS (ic->rarray.ra)
static void make_array (bool sorted)
{
  n = mv_u8 () % (MAXK + 1);
  for (unsigned i = 0; i < MAXK; i++)
    {
      ra_old[i] = mv_u8 ();
      if (i && i < n) { if (sorted) mv_assume (CLASS (ra_old[i - 1]) < CLASS (ra_old[i])); else for (unsigned j = 0; j < i; j++) mv_assume (CLASS (ra_old[j]) != CLASS (ra_old[i])); }
    }
}
static uint64_t lookup (unsigned c, uint64_t * a, unsigned count)      /* 1 + the key of this class, or 0 */
{
  uint64_t r = 0;
  for (unsigned i = 0; i <= MAXK; i++) if (i < count && CLASS (a[i]) == c) r = a[i] + 1;
  return (r);
}
static void check_visits (mr_status_t (* foreach) (mr_ic_t *, mr_visit_fn_t, void *), uint64_t * a, unsigned count)
{
  g_visits = 0; g_stop = 0;
  mv_assert (foreach (ic, visit, &g_vctx) == MR_SUCCESS && g_visits == count && ic->items_count == count, "the count is the number of visited keys");
  unsigned i = mv_u8 ();
  if (i < count) mv_assert (lookup (CLASS (g_seen[i]), a, count) == (uint64_t)g_seen[i] + 1, "visited keys are contained");
  g_visits = 0; g_stop = mv_u8 ();
  mr_status_t st = foreach (ic, visit, &g_vctx);
  if (g_stop && g_stop <= count) mv_assert (st == MR_FAILURE && g_visits == g_stop, "iteration ends at a failing visit"); else mv_assert (st == MR_SUCCESS, "iteration succeeds");
}
#if KIND == 0
/* the header of the collection is unchanged (assigned again so that the verifier knows the constants) */
static void unchanged (mr_ic_t * ic)
{
  mv_assert (ic->compar_fn == cmp && ic->context.data.ptr == &g_ctx, "comparator and context unchanged");
  ic->compar_fn = cmp; ic->context.data.ptr = &g_ctx;
}
void h_static (void)
{
  start ();
  static mr_ic_virt_func_t vf = { .find = mr_ic_static_array_find, .add = mr_ic_static_array_add }; ic->virt_func = &vf;
  uint64_t * a = (uint64_t *)ic->static_array.static_array, was[8];
  unsigned cap = sizeof (ic->static_array.static_array) / 8;
  mv_assert (cap == 3, "capacity");
  n = mv_u8 () % 4; ic->items_count = n;
  for (unsigned i = 0; i < 3; i++) { a[i] = i < n ? mv_u8 () : 0; was[i] = a[i]; for (unsigned j = 0; j < i; j++) if (i < n) mv_assume (CLASS (a[j]) != CLASS (a[i])); }
  unsigned k = mv_u8 (), v = mv_u8 () >> 2; uint64_t had = lookup (CLASS (k), was, n), old_v = lookup (v, was, n);
  switch (mv_u8 () & 3)
    {
    case 0:
      {
	mv_assume (n < 3 || had);
	mr_ptr_t * r = mr_ic_add (ic, mk (k));
	mv_assert (r != NULL && r->uintptr == (had ? had - 1 : k), "adding returns the stored key");
	n += !had;
	mv_assert (ic->items_count == n && lookup (v, a, n) == (v == CLASS (k) ? (had ? had : (uint64_t)k + 1) : old_v), "exactly this key is added");
	break;
      }
    case 1:
      {
	mr_status_t st = mr_ic_static_array_del (ic, mk (k));
	mv_assert ((st == MR_SUCCESS) == (had != 0), "deletion succeeds exactly when the key is present");
	n -= had != 0;
	mv_assert (ic->items_count == n && lookup (v, a, n) == (v == CLASS (k) ? 0 : old_v), "exactly this key is deleted");
	break;
      }
    case 2:
      {
	mr_ptr_t in[3]; unsigned m = mv_u8 () % 4; uint64_t first = 0;
	for (unsigned i = 0; i < 3; i++) { unsigned x = mv_u8 (); in[i].uintptr = x; if (i < m && CLASS (x) == v && !first) first = (uint64_t)x + 1; }
	mv_assert (mr_ic_static_array_index (ic, in, m * 8 + (mv_u8 () & (m < 3 ? 7 : 0))) == MR_SUCCESS, "indexed");
	n = ic->items_count;
	mv_assert (n <= m && lookup (v, a, n) == first, "the first of equal keys is kept");
	break;
      }
    default:
      mr_ic_static_array_free (ic); n = 0;
      mv_assert (ic->items_count == 0, "empty");
    }
  unchanged (ic);
  for (unsigned i = 0; i < 3; i++) for (unsigned j = 0; j < i; j++) if (i < n) mv_assert (CLASS (a[j]) != CLASS (a[i]), "each key once");
  mr_ptr_t * f = mr_ic_static_array_find (ic, mk (k)); uint64_t has = lookup (CLASS (k), a, n);
  mv_assert (f ? (uint64_t)f->uintptr + 1 == has : !has, "a key is found exactly when present");
  check_visits (mr_ic_static_array_foreach, a, n);
  MV_REACHED ();
}
#endif
#if KIND == 1
void h_sorted (void)
{
  start (); make_array (true);
  ic->rarray.ra = (mr_ptr_t *)ra_old; ic->rarray.size = n * 8; ic->rarray.alloc_size = 0x5A5A; ic->items_count = n;
  uint64_t was[MAXK + 2]; for (unsigned i = 0; i <= MAXK; i++) was[i] = ra_old[i];
  unsigned k = mv_u8 (), v = mv_u8 () >> 2, old_n = n; uint64_t had = lookup (CLASS (k), was, n), old_v = lookup (v, was, n);
  if (mv_bool ())
    {
      mr_ptr_t * r = mr_ic_sorted_array_add (ic, mk (k));
      if (r == NULL) { mv_assert (g_failed && !had, "only an allocation failure fails"); mv_assert (lookup (v, (uint64_t *)KEYS, n) == old_v, "nothing changed"); }
      else
	{
	  mv_assert (r->uintptr == (had ? had - 1 : k), "adding returns the stored key");
	  n += !had;
	  mv_assert (lookup (v, (uint64_t *)KEYS, n) == (v == CLASS (k) ? (had ? had : (uint64_t)k + 1) : old_v), "exactly this key is added");
	}
    }
  else
    {
      mr_status_t st = mr_ic_sorted_array_del (ic, mk (k));
      mv_assert ((st == MR_SUCCESS) == (had != 0), "deletion succeeds exactly when the key is present");
      n -= had != 0;
      mv_assert (lookup (v, (uint64_t *)KEYS, n) == (v == CLASS (k) ? 0 : old_v), "exactly this key is deleted");
    }
  mv_assert (ic->rarray.size == n * 8 && ic->items_count == n, "size and count");
  for (unsigned i = 1; i <= MAXK; i++) if (i < n) mv_assert (CLASS (((uint64_t *)KEYS)[i - 1]) < CLASS (((uint64_t *)KEYS)[i]), "stays sorted, each key once");
  mr_ptr_t * f = mr_ic_sorted_array_find (ic, mk (k)); uint64_t has = lookup (CLASS (k), (uint64_t *)KEYS, n);
  mv_assert (f ? (uint64_t)f->uintptr + 1 == has : !has, "a key is found exactly when present");
  check_visits (mr_ic_unsorted_array_foreach, (uint64_t *)KEYS, n);
  MV_REACHED ();
}
#endif
#if KIND == 2
void h_unsorted (void)
{
  start (); make_array (false);
  unsigned k = mv_u8 ();
  mv_assert (mr_ic_unsorted_array_index (ic, (mr_ptr_t *)ra_old, n * 8 + (mv_u8 () & 7)) == MR_SUCCESS && ic->items_count == n, "indexed");
  mr_ptr_t * f = mr_ic_unsorted_array_find (ic, mk (k)); uint64_t has = lookup (CLASS (k), ra_old, n);
  mv_assert (f ? (uint64_t)f->uintptr + 1 == has : !has, "a key is found exactly when present");
  check_visits (mr_ic_unsorted_array_foreach, ra_old, n);
  mr_ic_unsorted_array_free (ic);
  mv_assert (ic->items_count == 0 && mr_ic_unsorted_array_find (ic, mk (k)) == NULL, "empty");
  MV_REACHED ();
}
#endif
#if KIND == 3
#define C 5
static uint64_t tab[C + 1];
#define TAB(i) (tab[i])
static bool valid (void)
{
  unsigned items = ic->hash.zero_key; bool ok = !ic->hash.zero_key || TAB (C) == 0;
  for (unsigned i = 0; i < C; i++)
    if (TAB (i))
      {
	items++;
	unsigned b = g_hash[CLASS (TAB (i)) & 63] % C;
	for (unsigned j = 0; j < C; j++) if (b <= i ? (j >= b && j < i) : (j >= b || j < i)) ok &= TAB (j) != 0;
	for (unsigned j = 0; j < i; j++) ok &= !TAB (j) || CLASS (TAB (j)) != CLASS (TAB (i));
	ok &= !(ic->hash.zero_key && CLASS (TAB (i)) == 0);
      }
  return (ok && items == ic->items_count && items <= (C + 1) / 2);
}
static uint64_t contains (unsigned c)
{
  uint64_t r = 0;
  for (unsigned i = 0; i < C; i++) if (TAB (i) && CLASS (TAB (i)) == c) r = TAB (i) + 1;
  return (ic->hash.zero_key && c == 0 ? 1 : r);
}
void h_hash (void)
{
  start ();
  static mr_ic_virt_func_t vf = { .find = mr_ic_hash_find }; ic->virt_func = &vf;
  ic->hash.hash_fn = hash; ic->hash.hash_table = (mr_ptr_t *)tab; ic->hash.size = sizeof (tab); ic->hash.zero_key = mv_bool (); ic->items_count = mv_u8 ();
  for (unsigned i = 0; i <= C; i++) tab[i] = mv_u8 () & 31;
  for (unsigned i = 0; i < 8; i++) g_hash[i] = mv_u8 () % 6;
  mv_assume (valid ());
  unsigned k = mv_u8 () & 31, v = mv_u8 () & 7, items = ic->items_count; uint64_t had = contains (CLASS (k)), old_v = contains (v);
  if (OP)
    {
      mv_assume (had || items < (C + 1) / 2);       /* growing the table: native units */
      mr_ptr_t * r = mr_ic_hash_add (ic, mk (k));
      mv_assert (r != NULL && r->uintptr == (had ? had - 1 : k), "adding returns the stored key");
      mv_assert (ic->items_count == items + !had && contains (v) == (v == CLASS (k) ? (had ? had : (uint64_t)k + 1) : old_v), "exactly this key is added");
    }
  else
    {
      mr_status_t st = mr_ic_hash_del (ic, mk (k));
      mv_assert ((st == MR_SUCCESS) == (had != 0), "deletion succeeds exactly when the key is present");
      mv_assert (ic->items_count == items - (had != 0) && contains (v) == (v == CLASS (k) ? 0 : old_v), "exactly this key is deleted");
    }
  mv_assert (valid (), "every key stays reachable from its bucket");
  mr_ptr_t * f = mr_ic_hash_find (ic, mk (v * 4)); uint64_t has = contains (v);
  mv_assert (f ? (uint64_t)f->uintptr + 1 == has : !has, "a key is found exactly when present");
  g_visits = 0; g_stop = 0;
  mv_assert (mr_ic_hash_foreach (ic, visit, &g_vctx) == MR_SUCCESS && g_visits == ic->items_count, "the count is the number of visited keys");
  unsigned i = mv_u8 ();
  if (i < g_visits) mv_assert (contains (CLASS (g_seen[i])) == (uint64_t)g_seen[i] + 1, "visited keys are contained");
  MV_REACHED ();
}
#endif
#else
/* native: any collection type against the model */
#ifndef TYPES
#define TYPES (KIND == 3)
#endif
static int64_t model[CLASSES];       /* stored key of every class, -1 for none */
static mr_ptr_t g_ra[CLASSES * 2];
static void compare (mr_ic_t * ic)
{
  unsigned count = 0; static bool seen[CLASSES];
  for (unsigned c = 0; c < CLASSES; c++) { count += model[c] >= 0; seen[c] = false; }
  g_visits = 0; g_stop = 0;
  mv_assert (mr_ic_foreach (ic, visit, &g_vctx) == MR_SUCCESS, "iteration succeeds");
  mv_assert (g_visits == count && ic->items_count == count, "the count is the number of visited keys");
  for (unsigned i = 0; i < g_visits; i++)
    {
      unsigned c = CLASS (g_seen[i]);
      mv_assert (c < CLASSES && model[c] == g_seen[i] && !seen[c], "every stored key is visited once"); seen[c] = true;
    }
  for (unsigned c = 0; c < CLASSES; c++)
    {
      mr_ptr_t * f = mr_ic_find (ic, mk (c * 4 + mv_u8 () % 4));
      mv_assert (f ? model[c] == (int64_t)f->uintptr : model[c] < 0, "a key is found exactly when present");
    }
  if (count) { g_visits = 0; g_stop = 1 + mv_u8 () % count; mv_assert (mr_ic_foreach (ic, visit, &g_vctx) == MR_FAILURE && g_visits == g_stop, "iteration ends at a failing visit"); }
}
void h_model (void)
{
  mem_init (); mem_never_fail = true;
  static const mr_ic_type_t types[] = { MR_IC_UNSORTED_ARRAY, MR_IC_SORTED_ARRAY, MR_IC_STATIC_ARRAY, MR_IC_HASH, MR_IC_RBTREE, MR_IC_AVLTREE };
  mr_ic_t ic; mr_res_t context = { .data.ptr = &g_ctx };
  mr_ic_type_t type = types[mv_u8 () % 3 + 3 * TYPES];
  unsigned range = 1 + mv_u8 () % CLASSES, hmod = mv_bool () ? 2 : 1 << (mv_u8 () % 16), steps = mv_u8 () % 100, bias = 1 + mv_u8 () % 7;
  unsigned zero = mv_bool () ? 0 : 1;      /* with or without the zero key */
  for (unsigned c = 0; c < 64; c++) g_hash[c] = mv_u64 () % hmod;
  mv_assert (mr_ic_new (&ic, hash, cmp, "void", type, &context) == MR_SUCCESS, "created");
  for (unsigned c = 0; c < CLASSES; c++) model[c] = -1;
  compare (&ic);
  for (unsigned i = 0; i < steps; i++)
    {
      unsigned k = zero + mv_u8 () % (4 * range - zero), c = CLASS (k), what = mv_u8 () % 32, failed = mem_failed;
      mem_never_fail = mv_u8 () % 4;
      if (what == 31)
	{
	  unsigned m = mv_u8 () % (mv_bool () ? 4 : 2 * CLASSES); bool distinct = ic.ic_type == MR_IC_UNSORTED_ARRAY, has[CLASSES];
	  memset (has, 0, sizeof (has));
	  unsigned cnt = 0;
	  for (unsigned j = 0; j < m; j++)
	    {
	      unsigned x = zero + mv_u8 () % (4 * range - zero);
	      if (distinct && has[CLASS (x)]) continue;       /* an unsorted collection shows the given array itself */
	      has[CLASS (x)] = true; g_ra[cnt++] = mk (x);
	    }
	  mr_status_t st = mr_ic_index (&ic, g_ra, cnt * sizeof (g_ra[0]));
	  if (st != MR_SUCCESS)
	    {
	      mv_assert (mem_failed > failed, "only an allocation failure fails");
	      mem_never_fail = true; g_visits = 0; g_stop = 0; mr_ic_foreach (&ic, visit, &g_vctx); mv_assert (g_visits == ic.items_count, "the count is the number of visited keys");
	      mr_ic_free (&ic); for (c = 0; c < CLASSES; c++) model[c] = -1;
	    }
	  else
	    {
	      for (c = 0; c < CLASSES; c++) model[c] = -1;
	      for (unsigned j = 0; j < cnt; j++) if (model[CLASS (g_ra[j].uintptr)] < 0) model[CLASS (g_ra[j].uintptr)] = g_ra[j].uintptr;
	    }
	}
      else if (what == 30) { mr_ic_free (&ic); for (c = 0; c < CLASSES; c++) model[c] = -1; }
      else if (what % 8 < bias)
	{
	  mr_ptr_t * r = mr_ic_add (&ic, mk (k));
	  if (r == NULL) mv_assert (mem_failed > failed && model[c] < 0, "only an allocation failure fails");
	  else
	    {
	      if (model[c] < 0) model[c] = k;
	      mv_assert ((int64_t)r->uintptr == model[c], "adding returns the stored key");
	    }
	}
      else
	{
	  mr_status_t st = mr_ic_del (&ic, mk (k));
	  if (st != MR_SUCCESS) mv_assert (model[c] < 0 || mem_failed > failed, "deletion succeeds when the key is present");
	  else { mv_assert (model[c] >= 0, "deletion of an absent key fails"); model[c] = -1; }
	}
      mem_never_fail = true;
      compare (&ic);
    }
  mr_ic_free (&ic);
  mv_assert (ic.items_count == 0, "empty");
}
void h_static (void) { h_model (); }
void h_sorted (void) { h_model (); }
void h_unsorted (void) { h_model (); }
void h_hash (void) { h_model (); }
#endif
