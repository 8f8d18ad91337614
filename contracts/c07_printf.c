/* C07: text buffers, formatted append (mr_ra_printf) on top of the real mr_rarray_append */
//@ unit tprintf harness=h_tprintf link=metaresc enforce=mr_ra_printf unwind=6 kind=proof
#include "mv.h"
#include "mem.h"
#include "stubs.h"
#include "text.h"
static int g_n; /* what the format expands to: g_n characters, or a formatting error when negative */
static bool g_err2; /* the second formatting call fails */
#if MV_CBMC
//@ trusted vsnprintf model: returns the length of the expansion (the same for the same arguments) or a negative value, writes at most n bytes including a NUL
static bool vs_called;
int mv_vsnprintf (char * d, size_t n, const char * f)
{
  bool again = vs_called; vs_called = true;
  if (again && g_err2) return (-1);
  if (g_n < 0) return (-1);
  if (n == 0) return (g_n);
  size_t w = (size_t)g_n < n ? (size_t)g_n : n - 1;
  mv_assert (__CPROVER_w_ok (d, w + 1), "formatted text fits the buffer");
  mv_assert (d == NULL || w == (size_t)g_n, "the formatted text is not truncated");
  __CPROVER_havoc_slice (d, w + 1);
  d[w] = 0;
  return (g_n);
}
#define vsnprintf(D, N, F, A) mv_vsnprintf (D, N, F)
#endif
#if MV_CBMC
int mr_ra_printf (mr_rarray_t * mr_ra_str, const char * format, ...)
__CPROVER_assigns (ra, vs_called, mem_allocs, mem_failed, mem_frees; g_blk != NULL: __CPROVER_object_whole (g_blk))
__CPROVER_frees (g_blk)
__CPROVER_ensures (printf_post (__CPROVER_return_value));
#endif
static bool printf_post (int ret)
{
  if (ret < 0 && (g_n < 0 || g_err2)) mem_failed = 1; /* a formatting error releases the buffer like an allocation failure */
  return (text_post (ret, g_n));
}
#define mr_message mv_real_mr_message
#include "mr_message.c"
void h_tprintf (void)
{
  setup ();
#if MV_CBMC
  vs_called = false;
#endif
  g_n = (int)mv_u32 (); g_err2 = mv_bool (); MV_NATIVE (g_n &= 127; g_err2 = false;)
  mv_assume (g_n < INT_MAX);
  int r = mr_ra_printf (&ra, "%*s", g_n, "");
  MV_NATIVE (mv_assert (printf_post (r), "formatted append"); if (r >= 0) for (int i = 0; i < g_n; i++) mv_assert (((char*)ra.data.ptr)[g_size - 1 + i] == ' ', "appended text"); free (ra.data.ptr);)
  MV_REACHED ();
}
