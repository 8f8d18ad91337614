/* C20: message tables. The format functions are static-table driven, so the units are harness contracts on the unmodified functions
   (assume precondition; call; assert postcondition) instead of dfcc contracts, which would havoc the tables. */
//@ unit format harness=h_format functions=mr_message_format,mr_vasprintf,mr_vscprintf unwind=70 kind=proof
//@ unit message harness=h_message functions=mr_message,mr_message_format unwind=70 kind=proof
#include "mv.h"
#include "mem.h"
#include <stdio.h>
#include <execinfo.h>
#define NENUM (MR_MESSAGE_LAST + 1)
static mr_td_t * g_td; static mr_td_t td; static mr_ed_t ed[NENUM]; static mr_ed_t * eds[NENUM + 1];
static const char * g_expect; static int g_n; static bool g_err; static unsigned g_calls;
static char g_tpl[NENUM][2];
#if MV_CBMC
//@ trusted vsnprintf/fprintf/backtrace models: vsnprintf returns a length or a negative value and writes at most n bytes; the other functions return
int mv_vsnprintf (char * d, size_t n, const char * f)
{
  mv_assert (f != NULL, "a template is selected");
  mv_assert (f == g_expect || (g_expect == NULL && __CPROVER_r_ok (f, 1) && f[0] == 'U'), "the template of the identifier, or the fallback");
  g_calls++;
  if (g_err && mv_bool ()) return (-1);
  if (g_n < 0 || n == 0) return (g_n);
  size_t w = (size_t)g_n < n ? (size_t)g_n : n - 1;
  mv_assert (__CPROVER_w_ok (d, w + 1), "formatted message fits its buffer");
  d[w] = 0;
  return (g_n);
}
#define vsnprintf(D, N, F, A) mv_vsnprintf (D, N, F)
#define fprintf(...) ((void)0)
static unsigned bt_live;
static int mv_backtrace (void ** a, int n) { mv_assert (__CPROVER_w_ok (a, n * sizeof (*a)), "backtrace buffer"); int r = mv_u8 (); mv_assume (r <= n); return (r); }
static char ** mv_backtrace_symbols (void * const * a, int n) { if (mv_bool ()) return (NULL); bt_live++; return (malloc (n * sizeof (char*) + 1)); }
#define backtrace mv_backtrace
#define backtrace_symbols mv_backtrace_symbols
mr_conf_t mr_conf;
mr_td_t * mr_get_td_by_name_internal (const char * name) { return (g_td); }
void * mr_rarray_append (mr_rarray_t * r, ssize_t s) { return (NULL); }
#endif
#include "mr_message.c"
static unsigned g_id;
static void setup (void)
{
  mem_init ();
  mr_conf.msg_handler = NULL;
#if MV_CBMC
  /* the descriptor of mr_message_id_t, when it is registered, lists every identifier once; any one of them may lack a template */
  const unsigned m = MR_MESSAGE_LAST + 1; unsigned nul = mv_u8 ();
  memset (&td, 0, sizeof (td));
  g_td = mv_bool () ? &td : NULL;
  for (unsigned i = 0; i < m; i++) { eds[i] = &ed[i]; ed[i].value._unsigned = i; ed[i].meta = g_tpl[i]; }
  eds[m] = NULL;
  if (nul < m) ed[nul].meta = NULL;
  td.param.enum_param.enums = eds;
  g_n = (int)mv_u32 (); mv_assume (g_n < INT_MAX);
  g_err = mv_bool ();
  g_expect = (g_td && g_id < m) ? ed[g_id].meta : NULL;
  g_calls = 0; bt_live = 0;
#endif
}
static char * call_format (int d, ...) { va_list a; va_start (a, d); char * r = mr_message_format (g_id, a); va_end (a); return (r); }
void h_format (void)
{
  g_id = mv_u32 ();
  setup ();
  MV_NATIVE (if (g_id > MR_MESSAGE_LAST + 64) g_id |= 1 << 24; mem_never_fail = true;)
  char * r = call_format (0, 1, 2, 3);
  mv_assert (r == NULL ? mem_allocs == mem_frees : mem_allocs == 1 && mem_frees == 0, "one message is returned, nothing is leaked");
  if (r) MR_FREE (r);
  MV_REACHED ();
}
void h_message (void)
{
  g_id = mv_u32 ();
  setup ();
  mr_conf.log_level = (mr_log_level_t)mv_u32 ();
  mr_log_level_t ll = (mr_log_level_t)mv_u32 ();
  MV_NATIVE (if (g_id > MR_MESSAGE_LAST + 64) g_id |= 1 << 24; mem_never_fail = true;)
  mr_message ("file", "func", 1, ll, g_id, 1, 2, 3);
  mv_assert (mem_allocs == mem_frees, "the formatted message is released exactly once");
  MV_REACHED ();
}
