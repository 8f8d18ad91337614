/* C07: text buffers. mr_ra_append_char, mr_ra_append_string, mr_ra_printf on top of the real mr_rarray_append. */
//@ unit tchar harness=h_tchar link=metaresc enforce=mr_ra_append_char unwind=6 kind=proof
//@ unit tstr harness=h_tstr link=metaresc enforce=mr_ra_append_string unwind=6 kind=proof
#include "mv.h"
#include "mem.h"
#include "stubs.h"
#include "text.h"
#if MV_CBMC
/* C library string functions over strings of any length: the string g_str has length g_len; a copy is functional at the ghost positions */
//@ trusted strlen/strcpy/strcat-free C library model: strlen(g_str)=g_len, strcpy copies the bytes at arbitrary ghost positions and the terminating NUL (C17 semantics)
size_t strlen (const char * s) { mv_assert (s == g_str, "length of the appended string"); return (g_len); }
char * strcpy (char * d, const char * s)
{
  mv_assert (s == g_str, "source of the copy");
  mv_assert (__CPROVER_w_ok (d, (size_t)g_len + 1), "destination holds the string and its terminator");
  __CPROVER_havoc_slice (d, (size_t)g_len + 1);
  if (g_j < g_len) d[g_j] = s[g_j];
  d[g_len] = 0;
  return (d);
}
void * memcpy (void * d, const void * s, size_t n)
{
  mv_assert (__CPROVER_w_ok (d, n) && __CPROVER_r_ok (s, n), "memcpy operands");
  if (n == 0) return (d);
  __CPROVER_havoc_slice (d, n);
  if (g_j < n) ((char*)d)[g_j] = ((char*)s)[g_j];
  ((char*)d)[n - 1] = ((char*)s)[n - 1];
  return (d);
}
#endif
#if MV_CBMC
int mr_ra_append_char (mr_rarray_t * mr_ra_str, char c)
__CPROVER_assigns (ra, mem_allocs, mem_failed, mem_frees; g_blk != NULL: __CPROVER_object_whole (g_blk))
__CPROVER_frees (g_blk)
__CPROVER_ensures (text_post (__CPROVER_return_value, 1))
__CPROVER_ensures (__CPROVER_return_value == 1 ==> ((char *)ra.data.ptr)[g_size - 1] == c);
int mr_ra_append_string (mr_rarray_t * mr_ra_str, char * str)
__CPROVER_assigns (ra, mem_allocs, mem_failed, mem_frees; g_blk != NULL: __CPROVER_object_whole (g_blk))
__CPROVER_frees (g_blk)
__CPROVER_ensures (text_post (__CPROVER_return_value, g_len))
__CPROVER_ensures (__CPROVER_return_value >= 0 && g_j < g_len ==> ((char *)ra.data.ptr)[g_size - 1 + g_j] == g_str[g_j]);
#endif
#include "mr_stringify.c"
void h_tchar (void)
{
  setup ();
  g_c = mv_u8 ();
  int r = mr_ra_append_char (&ra, g_c);
  MV_NATIVE (mv_assert (text_post (r, 1) && (r < 0 || ((char *)ra.data.ptr)[g_size - 1] == g_c), "appended character"); free (ra.data.ptr);)
  MV_REACHED ();
}
void h_tstr (void)
{
  setup ();
  g_len = (int)mv_u32 (); MV_NATIVE (g_len &= 255;)
  mv_assume (g_len >= 0 && g_len < INT_MAX);
  g_str = mv_malloc ((size_t)g_len + 1); mv_assume (g_str != NULL);
  g_j = mv_u32 (); MV_NATIVE (for (int i = 0; i < g_len; i++) g_str[i] = 1 + (i + g_j) % 255;)
  g_str[g_len] = 0;
  int r = mr_ra_append_string (&ra, g_str);
  MV_NATIVE (mv_assert (text_post (r, g_len) && (r < 0 || !strcmp ((char *)ra.data.ptr + g_size - 1, g_str)), "appended string"); free (ra.data.ptr);)
  MV_REACHED ();
}
