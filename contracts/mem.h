/* Allocation stubs: every allocation may fail; realloc preserves the bytes at the (arbitrary) ghost positions mem_k[],
   which is all a "for every byte" postcondition needs, for blocks of any size. */
#ifndef MEM_H
#define MEM_H
#include <stdlib.h>
#define MEM_GHOSTS 4
static size_t mem_k[MEM_GHOSTS];     /* ghost byte positions */
static unsigned mem_allocs, mem_frees, mem_failed;
static bool mem_never_fail;
//@ trusted the allocator set in mr_conf.mr_mem is replaced by a stub that may fail at every call and otherwise behaves as calloc/realloc/free (functional for the bytes at arbitrary ghost positions)
#if MV_CBMC
static void * mem_realloc (const char * a, const char * b, int c, void * p, size_t n)
{
  if (!mem_never_fail && mv_bool ()) { mem_failed++; return (NULL); }
  mv_assert (n > 0, "realloc to zero bytes");
  mv_assert (p == NULL || __CPROVER_POINTER_OFFSET (p) == 0, "realloc of a pointer that is not the start of a block");
  char * q = malloc (n);
  __CPROVER_assume (q != NULL);
  if (p)
    {
      size_t o = __CPROVER_OBJECT_SIZE (p);
      for (int i = 0; i < MEM_GHOSTS; i++) if (mem_k[i] < o && mem_k[i] < n) q[mem_k[i]] = ((char*)p)[mem_k[i]];
      free (p);
    }
  else mem_allocs++;
  return (q);
}
static void * mem_calloc (const char * a, const char * b, int c, size_t n, size_t s)
{
  if (!mem_never_fail && mv_bool ()) { mem_failed++; return (NULL); }
  void * q = calloc (n, s);
  __CPROVER_assume (q != NULL);
  mem_allocs++;
  return (q);
}
static void mem_release (const char * a, const char * b, int c, void * p) { if (p) mem_frees++; free (p); }
#else
static void * mem_realloc (const char * a, const char * b, int c, void * p, size_t n)
{
  if (!mem_never_fail && mv_bool ()) { mem_failed++; return (NULL); }
  if (!p) mem_allocs++;
  return (realloc (p, n));
}
static void * mem_calloc (const char * a, const char * b, int c, size_t n, size_t s)
{
  if (!mem_never_fail && mv_bool ()) { mem_failed++; return (NULL); }
  mem_allocs++;
  return (calloc (n, s));
}
static void mem_release (const char * a, const char * b, int c, void * p) { if (p) mem_frees++; free (p); }
#endif
static void mem_no_message (const char * f, const char * g, int l, mr_log_level_t ll, mr_message_id_t id, va_list args) { }
static void mem_init (void)
{
  MV_NATIVE (mr_conf.msg_handler = mem_no_message;)
  mr_conf.mr_mem.calloc = mem_calloc; mr_conf.mr_mem.realloc = mem_realloc; mr_conf.mr_mem.free = mem_release;
  mem_allocs = mem_frees = mem_failed = 0; mem_never_fail = false;
}
#endif
