/* C17: characters and strings loaded into character, character array and string targets */
//@ unit char harness=h_char functions=mr_load_char kind=proof timeout=200 objbits=10 unwind=4
//@ unit string harness=h_string functions=mr_load_string kind=proof timeout=200 objbits=10 unwind=4
//@ unit array harness=h_array functions=mr_load_char_array,mr_get_char_array kind=proof timeout=300 objbits=10 unwind=5
//@ trusted at call sites in C17 mr_value_cast(MR_VT_INT) / mr_ptrdes_to_mr_value are taken by contract (C05 enforces them): they deliver the parsed integer or fail
//@ trusted strlen returns the position of the first NUL of the parsed text (ghost length), which is within its block
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#include <mr_value.h>
#if MV_CBMC
#define BLK_SIZE(P) __CPROVER_OBJECT_SIZE (P)
#else
#include <malloc.h>
#define BLK_SIZE(P) malloc_usable_size (P)
#endif
#define BIG (1UL << 40)
static uint64_t g_pdmem[3 * sizeof (mr_ptrdes_t) / 8 + 1] __attribute__ ((aligned (16)));
#define pd ((mr_ptrdes_t *)g_pdmem)
static mr_fd_t g_fd; static mr_ra_ptrdes_t ptrs;
static char * g_text; static size_t g_len; static char g_ch; static bool g_ok, g_null; static int64_t g_int;
#if MV_CBMC
size_t strlen (const char * s) { mv_assert (s == g_text && s != NULL, "length of the parsed text"); return (g_len); }
mr_status_t mr_ptrdes_to_mr_value (mr_value_t * mr_value, mr_ptrdes_t * ptrdes) { if (!g_ok && mv_bool ()) return (MR_FAILURE); mr_value->value_type = MR_VT_VOID; return (MR_SUCCESS); }
mr_status_t mr_value_cast (mr_value_type_t value_type, mr_value_t * mr_value)
{
  mv_assert (value_type == MR_VT_INT, "cast to integer");
  if (!g_ok) return (MR_FAILURE);
  mr_value->vt_int = g_int;
  return (MR_SUCCESS);
}
#endif
#include "mr_load.c"
/* a parsed text of g_len bytes with the byte g_ch at position k; exactly as long as it has to be (reads beyond it are caught) */
static void make_text (bool terminated, size_t k)
{
  g_len = mv_u64 ();
  MV_NATIVE (g_len = g_len % 3 ? g_len % 40 : g_len % 700;)
  mv_assume (g_len < BIG);
  g_text = mv_malloc (g_len + terminated);
  mv_assume (g_text != NULL);
  MV_NATIVE (for (size_t i = 0; i < g_len; i++) g_text[i] = 'a' + (i * 7 + g_ch) % 26;)
  MV_NATIVE (if (g_ch == 0) g_ch = 'q';)
  if (k < g_len) g_text[k] = g_ch;
  if (terminated) { mv_assume (g_ch != 0); g_text[g_len] = 0; }
}
static void make_node (mr_value_type_t vt)
{
  memset (&g_fd, 0, sizeof (g_fd)); memset (pd, 0, 3 * sizeof (mr_ptrdes_t)); memset (&ptrs, 0, sizeof (ptrs));
  ptrs.ra = pd; ptrs.size = 3 * sizeof (mr_ptrdes_t);
  pd[2].fdp = &g_fd; pd[2].value_type = vt;
}
static mr_value_type_t some_other (void)
{
  mr_value_type_t vt = mv_u8 () % 8;
  mv_assume (vt != MR_VT_SUBSTR && vt != MR_VT_STRING && vt != MR_VT_CHAR);
  return (vt);
}
void h_char (void)
{
  char old[3]; char mem[3]; bool by_int = false; g_ch = mv_u8 (); g_ok = false; g_int = (int64_t)mv_u64 ();
  mem_init ();
  mem[0] = old[0] = mv_u8 (); mem[1] = old[1] = mv_u8 (); mem[2] = old[2] = mv_u8 ();
  int kind = mv_u8 () % 4; mr_status_t st; char expect = old[1]; bool fail = false, any = false;
  switch (kind)
    {
    case 0:
      make_node (MR_VT_SUBSTR); make_text (false, 0);
      pd[2].load_params.vt_substr.str = g_text; pd[2].load_params.vt_substr.length = g_len;
      expect = g_len == 0 ? 0 : g_len == 1 ? g_ch : old[1];
      break;
    case 1: make_node (MR_VT_CHAR); pd[2].load_params.vt_char = expect = g_ch; break;
    case 2:
      make_node (MR_VT_STRING); g_null = mv_bool ();
      if (g_null) { fail = true; break; }
      make_text (true, 0); pd[2].load_params.vt_string = g_text;
      if (g_len == 1) { expect = g_ch; break; }
#if MV_CBMC
      g_ok = mv_bool (); fail = !g_ok; if (g_ok) expect = g_int;
#else
      { char num[32]; snprintf (num, sizeof (num), "%ld", (long)(g_int = 10 + (uint64_t)g_int % 240)); pd[2].load_params.vt_string = strdup (num); expect = g_int; g_ok = true; }
#endif
      break;
    default:
#if MV_CBMC
      make_node (some_other ()); g_ok = mv_bool (); fail = !g_ok; if (g_ok) expect = g_int;
#else
      make_node (MR_VT_INT); { mr_intmax_t v = g_int; memcpy (&pd[2].load_params.vt_int, &v, sizeof (v)); } expect = g_int;
#endif
      break;
    }
  pd[2].data.ptr = &mem[1]; pd[2].mr_type = MR_TYPE_CHAR;
  st = mr_load_char (2, &ptrs);
  mv_assert (mem[0] == old[0] && mem[2] == old[2], "a character target is one byte wide");
  mv_assert (st == MR_SUCCESS || st == MR_FAILURE, "status");
  if (kind == 0 && g_len > 1)
    mv_assert (mem[1] == old[1] || mem[1] == g_text[0], "a longer text is not mixed into a character");
  else if (fail) mv_assert (st == MR_FAILURE && mem[1] == old[1], "a value that is not a character is refused");
  else mv_assert (st == MR_SUCCESS && mem[1] == expect, "the character itself is stored");
  MV_REACHED ();
}
void h_string (void)
{
  static void * cell[3]; size_t k = mv_u64 (); int kind = mv_u8 () % 5;
  g_ch = mv_u8 ();
  mem_init ();
  cell[0] = cell[2] = cell; cell[1] = cell;
  mr_intmax_t ref = (int64_t)mv_u64 () % 0x7fffffff;
  bool skip = false;
  switch (kind)
    {
    case 0:
      make_node (MR_VT_SUBSTR);
      MV_NATIVE (k %= 50;)
      make_text (false, k); pd[2].load_params.vt_substr.str = g_text; pd[2].load_params.vt_substr.length = g_len; break;
    case 1: make_node (MR_VT_STRING); make_text (true, k); pd[2].load_params.vt_string = g_text; break;
    case 2: make_node (MR_VT_INT); memcpy (&pd[2].load_params.vt_int, &ref, sizeof (ref)); break;
    case 3: make_node (MR_VT_STRING); pd[2].flags = mv_bool () ? MR_IS_NULL : mv_bool () ? MR_IS_REFERENCE : MR_IS_CONTENT_REFERENCE; pd[2].first_child = 1; skip = true; break;
    default: make_node (MR_VT_COMPLEX); break;
    }
  unsigned flags = pd[2].flags;
  pd[2].data.ptr = &cell[1]; pd[2].mr_type = MR_TYPE_STRING;
  mr_status_t st = mr_load_string (2, &ptrs);
  mv_assert (cell[0] == cell && cell[2] == cell, "a string target is one pointer wide");
  char * s = cell[1];
  switch (kind)
    {
    case 0:
      if (s == NULL) { mv_assert (st == MR_FAILURE && mem_failed, "only an allocation failure loses the text"); break; }
      mv_assert (st == MR_SUCCESS && mem_allocs == 1 && s != g_text, "own copy");
      mv_assert (BLK_SIZE (s) >= g_len + 1 && s[g_len] == 0, "terminated");
      mv_assert (k >= g_len || s[k] == g_ch, "every byte of the text is stored");
      break;
    case 1: mv_assert (st == MR_SUCCESS && s == g_text && pd[2].load_params.vt_string == NULL && mem_frees == 0, "ownership of the text moves to the target"); break;
    case 2:
      mv_assert (st == MR_SUCCESS && s == NULL, "reference");
      mv_assert (ref >= 0 ? (pd[2].first_child == ref && pd[2].flags == (flags | MR_IS_REFERENCE)) : (pd[2].first_child == -ref && pd[2].flags == (flags | MR_IS_CONTENT_REFERENCE)), "reference is noted");
      break;
    case 3: mv_assert (st == MR_SUCCESS && s == NULL && pd[2].first_child == 1 && pd[2].flags == flags, "null and references leave the target empty"); break;
    default: mv_assert (st == MR_FAILURE && s == NULL, "other values are refused"); break;
    }
  (void)skip;
  MV_REACHED ();
}
void h_array (void)
{
  size_t k = mv_u64 (), out = mv_u64 (), pre, post, max; char out_ch = mv_u8 (); void * cell = NULL;
  g_ch = mv_u8 ();
  mem_init ();
  int parent = mv_u8 () % 4, kind = mv_u8 () % 4;
  switch (kind)
    {
    case 0: make_node (MR_VT_SUBSTR); MV_NATIVE (k %= 50;) make_text (false, k); pd[2].load_params.vt_substr.str = g_text; pd[2].load_params.vt_substr.length = g_len; break;
    case 1: make_node (MR_VT_STRING); MV_NATIVE (k %= 50;) make_text (true, k); pd[2].load_params.vt_string = g_text; break;
    case 2: make_node (MR_VT_STRING); break;
    default: make_node (MR_VT_INT); break;
    }
  max = mv_u64 (); pre = mv_u64 (); post = mv_u64 ();
  MV_NATIVE (max = max % 4 == 0 && kind < 2 ? g_len + (max >> 8) % 2 : max % 30; pre %= 3; post %= 3;)
  bool sole = parent == 1;                     /* the only element of a block allocated for a pointer */
  if (sole) pre = post = 0;
  mv_assume (max <= 0xffffffffUL && pre < BIG && post < BIG);
  mv_assume (!sole || max > 0);
  char * blk = sole ? malloc (max) : mv_malloc (pre + max + post);
  mv_assume (blk != NULL);
  MV_NATIVE (out %= 80;)
  if (out < pre + max + post) blk[out] = out_ch;
  char * data = blk + pre;
  pd[2].data.ptr = data; pd[2].mr_type = MR_TYPE_CHAR_ARRAY; g_fd.stype.size = max; pd[2].mr_size = max;
  pd[1].data.ptr = &cell; cell = blk;
  pd[2].parent = parent == 0 ? MR_NULL_IDX : 1;
  pd[1].mr_type = parent == 3 ? MR_TYPE_ARRAY : MR_TYPE_POINTER;
  pd[1].first_child = 2;
  if (parent == 2)                             /* one of several elements of the block */
    {
      if (mv_bool ()) { pd[2].next = 3; }
      else { pd[1].first_child = 3; if (mv_bool ()) pd[2].next = 4; }
    }
  mem_k[0] = 0; mem_k[1] = out;
  mr_status_t st = mr_load_char_array (2, &ptrs);
  if (kind >= 2)
    {
      mv_assert (st == MR_FAILURE, "only text can be loaded into a character array");
      mv_assert (cell == blk && pd[2].data.ptr == data && mem_frees == 0 && mem_allocs == 0, "block kept");
      mv_assert (out >= pre + max + post || out == pre || blk[out] == out_ch, "nothing else is written");
    }
  else if (sole && (g_len > max || pd[2].data.ptr != data || cell != data))
    {                                          /* the block may grow: then nothing is lost */
      mv_assert (cell == pd[2].data.ptr, "the pointer follows its block");
      if (cell == NULL) mv_assert (st == MR_FAILURE && mem_failed && mem_frees == 1, "only an allocation failure loses the text");
      else
	{
	  data = cell;
	  mv_assert (st == MR_SUCCESS && mem_frees == 0 && BLK_SIZE (data) >= g_len + 1, "room for the text");
	  mv_assert (data[g_len] == 0, "terminated");
	  mv_assert (k >= g_len || data[k] == g_ch, "every byte of the text is stored");
	}
    }
  else
    {
      mv_assert (st == MR_SUCCESS && cell == blk && pd[2].data.ptr == data && mem_frees == 0 && mem_allocs == 0 && mem_failed == 0, "stored in place");
      mv_assert (k >= g_len || k >= max || data[k] == g_ch, "every byte of the text that fits is stored");
      mv_assert (g_len >= max || data[g_len] == 0, "terminated when there is room");
      mv_assert (out >= pre + max + post || (out >= pre && out < pre + max) || blk[out] == out_ch, "nothing is written beyond the declared target");
    }
  MV_REACHED ();
}
