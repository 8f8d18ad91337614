/* C12: strings, character arrays, pointers and union headers: what the save handler emits the load handler takes back, item by item */
//@ unit string harness=h_string functions=xdr_save_string,xdr_load_string kind=proof timeout=250 unwind=8 objbits=10
//@ unit chararray harness=h_chararray functions=xdr_char_array_ loops=yes kind=proof timeout=250 unwind=8 objbits=10
//@ unit pointer harness=h_pointer functions=xdr_save_pointer,xdr_load_pointer kind=proof timeout=250 unwind=8 objbits=10
//@ unit union harness=h_union functions=xdr_save_union,xdr_load_union kind=proof timeout=250 unwind=8 objbits=10
//@ loop file=xdr.c func=xdr_char_array_ n=1 units=chararray : __CPROVER_assigns (str_len, string) __CPROVER_loop_invariant (str_len <= size && string == (char *)ptrs->ra[idx].data.ptr + str_len && (g_z < str_len ==> ((uint8_t *)ptrs->ra[idx].data.ptr)[g_z] != 0)) __CPROVER_decreases (size - str_len)
//@ trusted libtirpc's xdr_int, xdr_uint32_t and xdr_opaque by contract: each item encoded is delivered to the decoder once and in order (the scalar units prove the byte level); strlen by contract
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#define ITEMS 6
static uint64_t g_z;                   /* arbitrary position in a text or block */
#if MV_CBMC
#include <rpc/types.h>
#include <rpc/xdr.h>
static struct { bool opaque; uint32_t n; uint8_t byte; } g_item[ITEMS]; static unsigned g_put, g_get; static bool g_write_fails, g_wfailed;
static bool_t item_int (XDR * x, uint32_t * p)
{
  if (XDR_ENCODE == x->x_op)
    {
      if (g_write_fails && mv_bool ()) { g_wfailed = true; return (FALSE); }
      mv_assert (g_put < ITEMS, "items");
      g_item[g_put].opaque = false; g_item[g_put].n = *p; g_put++;
      return (TRUE);
    }
  mv_assert (g_get < g_put && !g_item[g_get].opaque, "the decoder asks for the items in the order they were encoded");
  *p = g_item[g_get].n; g_get++;
  return (TRUE);
}
bool_t xdr_uint32_t (XDR * x, uint32_t * p) { return (item_int (x, p)); }
bool_t xdr_int (XDR * x, int * p) { return (item_int (x, (uint32_t *)p)); }
bool_t xdr_opaque (XDR * x, char * p, u_int n)
{
  if (n == 0) return (TRUE);
  if (XDR_ENCODE == x->x_op)
    {
      if (g_write_fails && mv_bool ()) { g_wfailed = true; return (FALSE); }
      mv_assert (__CPROVER_r_ok (p, n), "only existing bytes are encoded");
      mv_assert (g_put < ITEMS, "items");
      g_item[g_put].opaque = true; g_item[g_put].n = n; g_item[g_put].byte = g_z < n ? p[g_z] : 0; g_put++;
      return (TRUE);
    }
  mv_assert (g_get < g_put && g_item[g_get].opaque && g_item[g_get].n == n, "the decoder asks for the items in the order they were encoded");
  mv_assert (__CPROVER_w_ok (p, n), "bytes are decoded into memory of at least that size");
  if (g_z < n) p[g_z] = g_item[g_get].byte;
  g_get++;
  return (TRUE);
}
#define MV_NO_XDR_UINT32
#define MV_NO_XDR_OPAQUE
/* the text and its length, for strlen */
static uint8_t * g_text; static uint64_t g_len;
size_t strlen (const char * s)
{
  if (s[0] == 0) return (0);          /* the empty name the library itself supplies */
  mv_assert ((uint8_t *)s == g_text, "length of the text");
  return (g_len);
}
#else
static uint8_t * g_text; static uint64_t g_len;
#endif
#if MV_CBMC
/* by contract: C04 proves mr_type_size, the recorded size is observed by the loader's caller only */
mr_size_t mr_type_size (mr_type_t t) { mv_assert (t == MR_TYPE_UINT8, "element type"); return (1); }
void mr_pointer_set_size (mr_idx_t idx, mr_ra_ptrdes_t * ptrs) { }
bool_t xdr_void (void) { return (TRUE); }
#endif
#if MV_CBMC
/* see c12_scalar.c */
typedef mr_status_t (* xdr_handler_t) (XDR *, mr_idx_t, mr_ra_ptrdes_t *);
static xdr_handler_t xdr_load_handler[MR_TYPE_LAST], xdr_save_handler[MR_TYPE_LAST];
#endif
#include "xdr.c"
static XDR g_x; static mr_ptrdes_t * g_nodes; static mr_ra_ptrdes_t g_ptrs; static mr_fd_t g_fd, g_fd2; static mr_td_t g_td;
#if !MV_CBMC
static mr_rarray_t g_ra;
#endif
static void start (enum xdr_op op)
{
#if MV_CBMC
  g_x.x_op = op;
#else
  if (XDR_ENCODE == op) memset (&g_ra, 0, sizeof (g_ra));
  mr_xdrra_create (&g_x, &g_ra, op);
#endif
}
static void done (void)
{
#if MV_CBMC
  mv_assert (g_get == g_put, "everything that was encoded is consumed");
#else
  mv_assert (g_x.x_ops->x_getpostn (&g_x) == g_ra.MR_SIZE, "everything that was encoded is consumed");
#endif
}
static void init (void)
{
  mem_init ();
  g_z = mv_u64 ();
#if MV_CBMC
  g_put = g_get = 0; g_write_fails = mv_bool (); g_wfailed = false;
#else
  mem_never_fail = true; extern int mv_keep_blocks; mv_keep_blocks = 1;
#endif
  g_nodes = mv_malloc (4 * sizeof (*g_nodes));
  mv_assume (g_nodes != NULL);
  g_ptrs.ra = g_nodes; g_ptrs.size = g_ptrs.alloc_size = 4 * sizeof (*g_nodes);
  MV_NATIVE (memset (g_nodes, 0, 4 * sizeof (*g_nodes)); memset (&g_fd, 0, sizeof (g_fd)); memset (&g_fd2, 0, sizeof (g_fd2)); memset (&g_td, 0, sizeof (g_td));)
}
static void text_init (uint64_t max)
{
  g_len = mv_u64 ();
  MV_NATIVE (g_len %= 40; if (max < 40) g_len %= max + 1;)
  mv_assume (g_len <= max);
  g_text = mv_malloc (g_len + 1);
  mv_assume (g_text != NULL);
  MV_NATIVE (for (uint64_t i = 0; i < g_len; i++) { g_text[i] = mv_u8 (); if (!g_text[i]) g_text[i] = 1; } if (g_len) g_z %= g_len;)
  g_text[g_len] = 0;
  if (g_len) mv_assume (g_text[0] != 0);
}
/* strings of every length below 4 GiB, references, content references and NULL */
void h_string (void)
{
  init ();
  text_init (UINT32_MAX - 1);
  char * str = (char *)g_text; char * back = (char *)&g_fd; char keep;
  uint32_t ref = mv_u32 ();
  g_nodes[1].data.ptr = &str; g_nodes[1].mr_type = MR_TYPE_STRING; g_nodes[1].first_child = 2;
  g_nodes[2].idx = ref;
  uint8_t fl = mv_u8 ();
  memcpy (&g_nodes[1].flags, &fl, 1);
  bool is_ref = (fl & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) != 0, is_null = (fl & MR_IS_NULL) != 0;
  keep = g_z < g_len ? g_text[g_z] : 0;
  start (XDR_ENCODE);
  mr_status_t st = xdr_save_string (&g_x, 1, &g_ptrs);
#if MV_CBMC
  mv_assert ((st == MR_SUCCESS) == !g_wfailed, "encoding fails exactly when the stream cannot grow");
  mem_never_fail = true;
#endif
  if (st == MR_SUCCESS)
    {
      start (XDR_DECODE);
      g_nodes[3].data.ptr = &back; g_nodes[3].mr_type = MR_TYPE_STRING; g_nodes[3].fdp = &g_fd; g_nodes[3].flags = MR_NO_FLAGS; g_nodes[3].first_child = MR_NULL_IDX;
      mv_assert (xdr_load_string (&g_x, 3, &g_ptrs) == MR_SUCCESS, "what was encoded can be decoded");
      done ();
      mv_assert (!memcmp (&g_nodes[3].flags, &fl, 1), "flags");
      if (is_ref) mv_assert (g_nodes[3].first_child == ref, "the referenced index is given back");
      else if (is_null) mv_assert (back == NULL, "NULL is given back");
      else
	{
#if MV_CBMC
	  mv_assert (__CPROVER_OBJECT_SIZE (back) == g_len + 1, "block of the decoded text");
#endif
	  mv_assert (back[g_len] == 0 && (g_z >= g_len || back[g_z] == keep), "the text is given back");
	}
    }
  MV_REACHED ();
}
/* a fixed-size character array: the text up to its NUL (or the whole field) is given back; a dynamic string likewise */
void h_chararray (void)
{
  init ();
  uint32_t size = mv_u32 (); bool dyn = mv_bool ();
  MV_NATIVE (size %= 40;)
  mv_assume (size > 0);
  uint8_t * field = mv_malloc (size), * back = dyn ? MR_CALLOC (1, 1) : mv_malloc (size); void * holder, * holder2 = back;
  mv_assume (field != NULL && back != NULL);
  MV_NATIVE (for (uint32_t i = 0; i < size; i++) field[i] = mv_u8 () & mv_u8 () & mv_u8 ();)
  g_z = mv_u64 ();
  MV_NATIVE (g_z %= size;)
  if (dyn)
    {
      field[size - 1] = 0;
      g_text = field; g_len = mv_u32 ();
      MV_NATIVE (g_len = strlen ((char *)field);)
      mv_assume (g_len < size && field[g_len] == 0);
      /* strlen's contract: no NUL before */
      mv_assume (g_z >= g_len || field[g_z] != 0);
      mv_assume (g_len == 0 || field[0] != 0);
    }
  holder = field;
  for (int i = 0; i < 2; i++)
    {
      g_fd.stype.mr_type = MR_TYPE_CHAR_ARRAY; g_fd.stype.size = dyn ? 1 : size; static char name[] = "f"; g_fd.name.str = name;
      g_nodes[2].fdp = &g_fd; g_nodes[2].mr_type = MR_TYPE_CHAR_ARRAY; g_nodes[2].data.ptr = i ? back : field;
      g_nodes[2].MR_SIZE = i ? 0 : dyn ? 1 : size;
      g_nodes[2].parent = 1;
      g_nodes[1].mr_type = dyn ? MR_TYPE_POINTER : MR_TYPE_STRUCT; g_nodes[1].MR_SIZE = 1; g_nodes[1].data.ptr = i ? &holder2 : &holder;
      start (i ? XDR_DECODE : XDR_ENCODE);
      mr_status_t st = xdr_char_array_ (&g_x, 2, &g_ptrs);
      if (i == 0)
	{
#if MV_CBMC
	  mv_assert ((st == MR_SUCCESS) == !g_wfailed, "encoding fails exactly when the stream cannot grow");
	  mem_never_fail = true;
#endif
	  if (st != MR_SUCCESS) { MV_REACHED (); return; }
	}
      else mv_assert (st == MR_SUCCESS, "what was encoded can be decoded");
    }
  done ();
  uint8_t * got = g_nodes[2].data.ptr;
  mv_assert (holder2 == got, "the holder points at the text");
#if MV_CBMC
  uint32_t n = g_item[0].n;
  mv_assert (n >= 1 && n <= size, "number of characters");
  if (dyn) mv_assert (n == g_len + 1, "a dynamic string is encoded up to its NUL");
  else
    {
      mv_assert (n == size || field[n - 1] == 0, "encoding stops only after a NUL or at the end of the field");
      mv_assert (g_z >= n || g_z == n - 1 || field[g_z] != 0, "and at no earlier NUL than the first");
    }
  if (g_z < n) mv_assert (got[g_z] == field[g_z], "the text is given back");
#else
  for (uint32_t i = 0; i < size; i++) { mv_assert (got[i] == field[i], "the text is given back"); if (!field[i]) break; }
#endif
  MV_REACHED ();
}
/* pointers: NULL, references and opaque blocks of every size */
static void pointer (uint8_t fl)
{
  init ();
  uint32_t size = mv_u32 (), ref = mv_u32 ();
  MV_NATIVE (size %= 60;)
  mv_assume (size > 0);
  uint8_t * blk = mv_malloc (size);
  mv_assume (blk != NULL);
  void * p = blk, * back = NULL;
  MV_NATIVE (for (uint32_t i = 0; i < size; i++) blk[i] = mv_u8 (); g_z %= size;)
  uint8_t byte = g_z < size ? blk[g_z] : 0;
  g_td.size = 1; g_td.mr_type = MR_TYPE_UINT8;
  g_fd.stype.tdp = &g_td;
  g_nodes[1].data.ptr = &p; g_nodes[1].fdp = &g_fd; g_nodes[1].mr_type = MR_TYPE_POINTER; g_nodes[1].mr_type_aux = MR_TYPE_UINT8; g_nodes[1].MR_SIZE = size;
  memcpy (&g_nodes[1].flags, &fl, 1);
  g_nodes[1].first_child = 2; g_nodes[2].idx = ref;
  start (XDR_ENCODE);
#if MV_CBMC
  if (g_write_fails)
    {
      mv_assert ((xdr_save_pointer (&g_x, 1, &g_ptrs) == MR_SUCCESS) == !g_wfailed, "encoding fails exactly when the stream cannot grow");
      return;
    }
#endif
  mr_status_t st = xdr_save_pointer (&g_x, 1, &g_ptrs);
#if MV_CBMC
  mv_assert ((st == MR_SUCCESS) == !g_wfailed, "encoding fails exactly when the stream cannot grow");
  mem_never_fail = true;
#endif
  if (st == MR_SUCCESS)
    {
      start (XDR_DECODE);
      g_nodes[3].data.ptr = &back; g_nodes[3].fdp = &g_fd; g_nodes[3].mr_type = MR_TYPE_POINTER; g_nodes[3].mr_type_aux = MR_TYPE_UINT8; g_nodes[3].MR_SIZE = 0; g_nodes[3].flags = MR_NO_FLAGS;
      mv_assert (xdr_load_pointer (&g_x, 3, &g_ptrs) == MR_SUCCESS, "what was encoded can be decoded");
      done ();
      mv_assert (!memcmp (&g_nodes[3].flags, &fl, 1), "flags");
      if (fl & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) mv_assert (g_nodes[3].first_child == ref && back == NULL, "the referenced index is given back");
      else if (fl & MR_IS_NULL) mv_assert (back == NULL, "NULL is given back");
      else
	{
	  mv_assert (g_nodes[3].MR_SIZE == size && back != NULL, "size of the opaque block");
	  mv_assert (g_z >= size || ((uint8_t *)back)[g_z] == byte, "the opaque block is given back");
	}
    }
  MV_REACHED ();
}
void h_pointer (void)
{
#define OTHER (MR_IS_REFERENCED | MR_IS_UNNAMED | MR_IS_TYPED)
  switch (mv_u8 () & 7)
    {
    case 0: pointer (MR_IS_NULL); break;
    case 1: pointer (MR_IS_NULL | OTHER); break;
    case 2: pointer (MR_IS_REFERENCE); break;
    case 3: pointer (MR_IS_REFERENCE | OTHER); break;
    case 4: pointer (MR_IS_CONTENT_REFERENCE | OTHER); break;
    case 5: pointer (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE | MR_IS_OPAQUE_DATA); break;
    case 6: pointer (MR_IS_OPAQUE_DATA); break;
    case 7: pointer (MR_IS_OPAQUE_DATA | OTHER); break;
    }
}
/* a union's branch goes by name */
#if MV_CBMC
static bool g_found; static uint8_t g_keep;
mr_fd_t * mr_get_fd_by_name (mr_td_t * tdp, char * name)
{
  mv_assert (tdp == &g_td, "the branch is looked up in the union's own descriptor");
  mv_assert (__CPROVER_OBJECT_SIZE (name) == g_len + 1 && name[g_len] == 0 && (g_z >= g_len || ((uint8_t *)name)[g_z] == g_keep), "the branch is looked up by the name that was saved");
  return (g_found ? &g_fd : NULL);
}
mr_idx_t mr_add_ptr_to_list (mr_ra_ptrdes_t * ptrs) { return (mv_bool () ? 3 : MR_NULL_IDX); }
void mr_add_child (mr_ra_ptrdes_t * ptrs, mr_idx_t parent, mr_idx_t child) { mv_assert (parent == 1 && child == 3, "the branch becomes a child of the union"); }
#endif
void h_union (void)
{
  init ();
  text_init (UINT32_MAX - 1);
  uint32_t off = mv_u32 ();
  MV_NATIVE (off %= 64;)
  uint8_t * obj = mv_malloc ((uint64_t)off + 1);
  mv_assume (obj != NULL);
  static mr_fd_t * fields[1];
  fields[0] = &g_fd;
  g_td.param.struct_param.fields = fields; g_td.param.struct_param.fields_size = sizeof (fields);
  g_fd.name.str = (char *)g_text; g_fd.offset = off; g_fd.stype.mr_type = MR_TYPE_VOID; g_fd2.stype.tdp = &g_td;
  g_nodes[1].data.ptr = obj; g_nodes[1].fdp = &g_fd2; g_nodes[1].mr_type = MR_TYPE_UNION; g_nodes[1].first_child = 2; g_nodes[2].fdp = &g_fd;
  start (XDR_ENCODE);
#if MV_CBMC
  g_keep = g_z < g_len ? g_text[g_z] : 0; g_found = mv_bool ();
#else
  if (!g_len) mv_skip ();
  g_td.mr_type = MR_TYPE_UNION;
  g_fd.name.hash_value = mr_hash_str ((char *)g_text);
  mr_ic_new (&g_td.param.struct_param.field_by_name, mr_fd_name_get_hash, mr_fd_name_cmp, "mr_fd_t", MR_IC_UNSORTED_ARRAY, NULL);
  mr_ic_add (&g_td.param.struct_param.field_by_name, &g_fd);
#endif
  mr_status_t st = xdr_save_union (&g_x, 1, &g_ptrs);
#if MV_CBMC
  mv_assert ((st == MR_SUCCESS) == !g_wfailed, "encoding fails exactly when the stream cannot grow");
  mem_never_fail = true;
#endif
  if (st == MR_SUCCESS)
    {
      start (XDR_DECODE);
      g_nodes[1].first_child = MR_NULL_IDX;
      MV_NATIVE (g_ptrs.size = 3 * sizeof (*g_nodes);)
      mr_status_t ld = xdr_load_union (&g_x, 1, &g_ptrs);
#if MV_CBMC
      if (!g_found) mv_assert (ld != MR_SUCCESS, "an unknown branch is reported");
      if (g_found && ld == MR_SUCCESS) mv_assert (g_nodes[3].data.ptr == obj + off && g_nodes[3].fdp == &g_fd && g_nodes[3].mr_type == MR_TYPE_VOID, "the named branch is loaded at its offset");
      mv_assert (mem_allocs == 1 && mem_frees == 1, "the name is released");
#else
      mv_assert (ld == MR_SUCCESS && g_ptrs.ra[3].data.ptr == obj + off && g_ptrs.ra[3].fdp == &g_fd, "the named branch is loaded at its offset");
#endif
      done ();
    }
  MV_REACHED ();
}
