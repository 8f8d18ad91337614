/* libtirpc's scalar filters, as documented in xdr(3) / RFC 4506, over the stream operations the library supplies.
   Verifier build only: natively the real libtirpc is linked. */
#ifndef TIRPC_H
#define TIRPC_H
#include <rpc/types.h>
#include <rpc/xdr.h>
#if MV_CBMC
//@ trusted libtirpc's xdr_int, xdr_{u_,}int{16,32}_t, xdr_float, xdr_double, xdr_opaque, xdr_void follow RFC 4506 over the library's own stream operations (their source is not in the repository; contracts/tirpc.h states the assumed behaviour)
#define MV_XDR_FILTER(NAME, TYPE) \
bool_t NAME (XDR * x, TYPE * p) \
{ \
  long l = 0; \
  if (XDR_ENCODE == x->x_op) { l = (long)*p; return (x->x_ops->x_putlong (x, &l)); } \
  if (XDR_DECODE == x->x_op) { if (!x->x_ops->x_getlong (x, &l)) return (FALSE); *p = (TYPE)l; return (TRUE); } \
  return (XDR_FREE == x->x_op); \
}
#ifndef MV_NO_XDR_UINT32
MV_XDR_FILTER (xdr_uint32_t, uint32_t)
#endif
MV_XDR_FILTER (xdr_int, int)
MV_XDR_FILTER (xdr_int16_t, int16_t)
MV_XDR_FILTER (xdr_uint16_t, uint16_t)
MV_XDR_FILTER (xdr_int32_t, int32_t)
bool_t xdr_float (XDR * x, float * p) { return (xdr_int32_t (x, (int32_t *)p)); }
bool_t xdr_double (XDR * x, double * p)
{
  int32_t * i = (int32_t *)p;
  return (xdr_int32_t (x, &i[1]) && xdr_int32_t (x, &i[0]));
}
#ifndef MV_NO_XDR_OPAQUE
bool_t xdr_opaque (XDR * x, char * p, u_int n)
{
  static const char zero[4] = { 0, 0, 0, 0 };
  char crud[4];
  u_int pad = (4 - n % 4) % 4;
  if (n == 0) return (TRUE);
  if (XDR_DECODE == x->x_op)
    return (x->x_ops->x_getbytes (x, p, n) && (pad == 0 || x->x_ops->x_getbytes (x, crud, pad)));
  if (XDR_ENCODE == x->x_op)
    return (x->x_ops->x_putbytes (x, p, n) && (pad == 0 || x->x_ops->x_putbytes (x, zero, pad)));
  return (XDR_FREE == x->x_op);
}
#endif
bool_t xdr_void (void) { return (TRUE); }
#endif
#endif
