/* C13: operations of the in-memory XDR stream stay inside the supplied bytes, for every buffer size, position and request */
//@ unit stream harness=h_stream functions=xdrra_getlong,xdrra_getbytes,xdrra_setpostn,xdrra_inline,xdrra_getpostn,mr_xdrra_create kind=proof unwind=8
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#include "tirpc.h"
#include "xdr.c"
static mr_rarray_t g_ra; static uint8_t * g_buf; static uint64_t g_n, g_k; static uint8_t g_byte;
static XDR g_x;
/* a stream over g_n arbitrary bytes at an arbitrary position inside it */
static void stream_init (void)
{
  g_n = mv_u64 ();
  MV_NATIVE (g_n %= 60;)
  mv_assume (g_n <= (1UL << 40));
  g_buf = mv_malloc (g_n);
  mv_assume (g_buf != NULL);
  g_k = mv_u64 ();
  MV_NATIVE (for (uint64_t i = 0; i < g_n; i++) g_buf[i] = i % 4 != 3 && mv_u8 () % 4 ? 0 : mv_u8 () % 32; if (g_n) g_k %= g_n;)
  mv_assume (g_k < g_n);
  g_byte = g_buf[g_k];
  g_ra.data.ptr = g_buf; g_ra.MR_SIZE = g_n; g_ra.alloc_size = mv_bool () ? -1 : (ssize_t)g_n;
  mr_xdrra_create (&g_x, &g_ra, XDR_DECODE);
  mv_assert (g_x.x_ops->x_getpostn (&g_x) == 0, "a new stream starts at its first byte");
  uint32_t pos = mv_u32 ();
  MV_NATIVE (pos %= 64;)
  bool_t ok = g_x.x_ops->x_setpostn (&g_x, pos);
  uint32_t now = g_x.x_ops->x_getpostn (&g_x);
  mv_assert (ok ? now == pos && pos <= g_n : now == 0 && pos > g_n, "positions up to the end of the data are accepted and no others");
}
static void stream_same (void)
{
  mv_assert (g_ra.data.ptr == g_buf && g_ra.MR_SIZE == g_n && g_buf[g_k] == g_byte, "reading changes neither the buffer nor its size");
}
void h_stream (void)
{
  stream_init ();
  uint32_t p = g_x.x_ops->x_getpostn (&g_x), q;
  uint64_t rest = g_n - p;
  uint8_t dst[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };
  long l = 0; bool_t ok; uint32_t len = mv_u32 (); int32_t * in; uint32_t z = mv_u32 ();
  MV_NATIVE (len %= 64;)
  /* positions are 32-bit: requests that would carry one past 4 GiB are outside the claim */
  mv_assume ((uint64_t)p + len <= UINT32_MAX && (uint64_t)p + 4 <= UINT32_MAX);
  switch (mv_u8 () % 3)
    {
    case 0:
      ok = g_x.x_ops->x_getlong (&g_x, &l);
      q = g_x.x_ops->x_getpostn (&g_x);
      mv_assert (!ok == (rest < 4), "an integer is read exactly when four bytes remain");
      mv_assert (q == (ok ? p + 4 : p), "position after reading an integer");
      if (ok) mv_assert ((int32_t)l == (int32_t)(((uint32_t)g_buf[p] << 24) | ((uint32_t)g_buf[p + 1] << 16) | ((uint32_t)g_buf[p + 2] << 8) | g_buf[p + 3]), "big-endian value");
      break;
    case 1:
      {
	uint8_t * d = mv_malloc (len);
	mv_assume (d != NULL);
	ok = g_x.x_ops->x_getbytes (&g_x, (char *)d, len);
	q = g_x.x_ops->x_getpostn (&g_x);
	mv_assert (!ok == (rest < len), "bytes are read exactly when enough remain");
	mv_assert (q == (ok ? p + len : p), "position after reading bytes");
	if (ok && z < len) mv_assert (d[z] == g_buf[(uint64_t)p + z], "the bytes at the position are delivered");
	break;
      }
    default:
      in = g_x.x_ops->x_inline (&g_x, len);
      q = g_x.x_ops->x_getpostn (&g_x);
      mv_assert ((in == NULL) == (rest < len), "inline access is granted exactly when enough bytes remain");
      mv_assert (in == NULL || (uint8_t *)in == &g_buf[p], "inline access is to the bytes at the position");
      mv_assert (q == (in ? p + len : p), "position after inline access");
    }
  stream_same ();
  MV_REACHED ();
}
