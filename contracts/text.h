/* shared by the C07 text-buffer units */
#define BIG (1L << 48)
static mr_rarray_t ra; static char * g_blk; static ssize_t g_size, g_alloc; static char g_byte; static size_t g_k, g_j;
static char * g_str; static int g_len; static char g_c;
#if MV_CBMC
#define BLK_SIZE(P) __CPROVER_OBJECT_SIZE (P)
#else
#include <malloc.h>
#define BLK_SIZE(P) malloc_usable_size (P)
#endif
/* postcondition: n bytes of new text were appended, or the buffer was released and cleared */
static bool text_post (int ret, ssize_t n)
{
  if (ret < 0)
    return (ret == -1 && ra.data.ptr == NULL && ra.MR_SIZE == 0 && ra.alloc_size == 0 && mem_frees == (g_blk != NULL)
      && (mem_failed || g_blk == NULL || g_size == 0));
  if (g_blk == NULL || g_size <= 0) return (false);
  char * d = ra.data.ptr;
  return (ret == n && ra.MR_SIZE == g_size + n && ra.alloc_size >= ra.MR_SIZE && d != NULL && BLK_SIZE (d) >= (size_t)ra.alloc_size
    && mem_frees == 0
    && d[ra.MR_SIZE - 1] == 0                               /* NUL-terminated, size counts the NUL */
    && (g_k + 1 >= (size_t)g_size || d[g_k] == g_byte));       /* old text untouched at every position */
}
static void setup (void)
{
  mem_init ();
  g_alloc = (ssize_t)mv_u64 (); g_size = (ssize_t)mv_u64 ();
  MV_NATIVE (g_alloc &= 1023; g_size = (g_size & 0x7fffffff) % (g_alloc + 1);)
  mv_assume (g_alloc >= 0 && g_alloc <= BIG && g_size >= 0 && g_size <= g_alloc);
  g_k = (size_t)mv_u64 ();
  MV_NATIVE (g_k = g_alloc ? g_k % g_alloc : 0;)
  mv_assume (g_k < (size_t)BIG);
  g_blk = NULL; g_byte = mv_u8 ();
  if (g_alloc > 0)
    {
      g_blk = malloc (g_alloc); mv_assume (g_blk != NULL);
      if (g_k < (size_t)g_alloc) g_blk[g_k] = g_byte;
      if (g_size > 0) { mv_assume (g_k + 1 != (size_t)g_size || g_byte == 0); g_blk[g_size - 1] = 0; }
    }
  ra.data.ptr = g_blk; ra.MR_SIZE = g_size; ra.alloc_size = g_alloc;
  mem_k[0] = g_k; mem_k[1] = g_size - 1; mem_k[2] = mem_k[3] = 0;
}
