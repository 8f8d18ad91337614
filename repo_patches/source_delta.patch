From 327c99a7cfa33182fc16f21ca3dc96e001892778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 01/22] fix: message and log level tables were read one element
 past their end

---
 src/mr_message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mr_message.c b/src/mr_message.c
index d408e15..554eac1 100644
--- a/src/mr_message.c
+++ b/src/mr_message.c
@@ -64,7 +64,7 @@ mr_message_format (mr_message_id_t message_id, va_list args)
 	}
     }
 
-  if ((message_id <= sizeof (messages) / sizeof (messages[0])) && messages[message_id])
+  if ((message_id < sizeof (messages) / sizeof (messages[0])) && messages[message_id])
     format = messages[message_id];
 
   if (format)
@@ -99,7 +99,7 @@ mr_message (const char * file_name, const char * func_name, int line, mr_log_lev
 	{ MR_FOREACH (LL_INIT, ALL, TRACE, DEBUG, INFO, WARN, ERROR, FATAL, OFF) };
 
       if (((int)log_level >= 0)
-	  && ((int)log_level <= sizeof (log_level_str) / sizeof (log_level_str[0])))
+	  && ((int)log_level < sizeof (log_level_str) / sizeof (log_level_str[0])))
 	if (log_level_str[log_level])
 	  log_level_str_ = log_level_str[log_level];
 
-- 
2.43.0


From 10a39d5c0da2e481e80f1a6342b507565abd7ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 02/22] fix: hash negative and positive floating zeros equally
 because they compare equal

---
 src/mr_extra.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index a1b5256..08b36af 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -257,12 +257,24 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
 
 #define CASE_MR_FLOAT_TYPE_HASH(TYPE)					\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = __builtin_isnan (*(TYPE*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  if (0 == value)						\
+	    value = 0; /* negative zero is equal to positive zero */	\
+	  ptrdes->res.data.uintptr = __builtin_isnan (value) ? -1 : mr_hash_block (&value, sizeof (value)); \
+	}								\
 	break;
 
 #define CASE_MR_COMPLEX_FLOAT_TYPE_HASH(TYPE)				\
       case MR_TYPE_DETECT (TYPE):					\
-	ptrdes->res.data.uintptr = (__builtin_isnan (__real__ *(TYPE*)ptrdes->data.ptr) || __builtin_isnan (__imag__ *(TYPE*)ptrdes->data.ptr)) ? -1 : mr_hash_block (ptrdes->data.ptr, sizeof (TYPE)); \
+	{								\
+	  TYPE value = *(TYPE*)ptrdes->data.ptr;			\
+	  if (0 == __real__ value)					\
+	    __real__ value = 0;						\
+	  if (0 == __imag__ value)					\
+	    __imag__ value = 0;						\
+	  ptrdes->res.data.uintptr = (__builtin_isnan (__real__ value) || __builtin_isnan (__imag__ value)) ? -1 : mr_hash_block (&value, sizeof (value)); \
+	}								\
 	break;
 
       MR_FOREACH (CASE_MR_TYPE_HASH, char, uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, mr_uint128_t, mr_int128_t);
@@ -270,16 +282,25 @@ node_hash (mr_ra_ptrdes_t * ptrs, mr_idx_t idx, int level, mr_dfs_order_t order,
       MR_FOREACH (CASE_MR_COMPLEX_FLOAT_TYPE_HASH, complex_float_t, complex_double_t);
 	  
     case MR_TYPE_LONG_DOUBLE:
-      ptrdes->res.data.uintptr = __builtin_isnan (*(long_double_t*)ptrdes->data.ptr) ? -1 : mr_hash_block (ptrdes->data.ptr, MR_SIZEOF_LONG_DOUBLE);
-      break;
+      {
+	long_double_t value = *(long_double_t*)ptrdes->data.ptr;
+	if (0 == value)
+	  value = 0;
+	ptrdes->res.data.uintptr = __builtin_isnan (value) ? -1 : mr_hash_block (&value, MR_SIZEOF_LONG_DOUBLE);
+	break;
+      }
 
     case MR_TYPE_COMPLEX_LONG_DOUBLE:
       {
-	long double * real = &__real__ *(complex long double *)ptrdes->data.ptr;
-	long double * imag = &__imag__ *(complex long double *)ptrdes->data.ptr;
+	long double real = __real__ *(complex long double *)ptrdes->data.ptr;
+	long double imag = __imag__ *(complex long double *)ptrdes->data.ptr;
+	if (0 == real)
+	  real = 0;
+	if (0 == imag)
+	  imag = 0;
 	ptrdes->res.data.uintptr =
-	  (__builtin_isnan (*real) || __builtin_isnan (*imag)) ? -1 :
-	  mr_hash_block (real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (imag, MR_SIZEOF_LONG_DOUBLE);
+	  (__builtin_isnan (real) || __builtin_isnan (imag)) ? -1 :
+	  mr_hash_block (&real, MR_SIZEOF_LONG_DOUBLE) + mr_hash_block (&imag, MR_SIZEOF_LONG_DOUBLE);
       }
       break;
 	  
-- 
2.43.0


From edb8b3229a8b6a39cf28971c36ac5083d0d21887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 03/22] fix: order complex keys with a NaN part consistently

---
 src/mr_extra.c | 41 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 29 deletions(-)

diff --git a/src/mr_extra.c b/src/mr_extra.c
index 08b36af..5664c2e 100644
--- a/src/mr_extra.c
+++ b/src/mr_extra.c
@@ -460,36 +460,19 @@ mr_cmp_structs (mr_ra_ptrdes_t * x, mr_ra_ptrdes_t * y)
 	    {								\
 	      TYPE _x = *(TYPE*)x_i->data.ptr;				\
 	      TYPE _y = *(TYPE*)y_i->data.ptr;				\
-	      bool rx_isnan = __builtin_isnan (__real__ _x);		\
-	      bool ix_isnan = __builtin_isnan (__imag__ _x);		\
-	      bool ry_isnan = __builtin_isnan (__real__ _y);		\
-	      bool iy_isnan = __builtin_isnan (__imag__ _y);		\
-	      if (((rx_isnan || ix_isnan)) && ((ry_isnan || iy_isnan)))	\
+	      bool x_isnan = __builtin_isnan (__real__ _x) || __builtin_isnan (__imag__ _x); \
+	      bool y_isnan = __builtin_isnan (__real__ _y) || __builtin_isnan (__imag__ _y); \
+	      if (x_isnan && y_isnan)					\
 		continue;						\
-	      if (!rx_isnan && !ry_isnan)				\
-		{							\
-		  diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !rx_isnan - !ry_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      if (!ix_isnan && !iy_isnan)				\
-		{							\
-		  diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
-		  if (diff)						\
-		    return (diff);					\
-		}							\
-	      else							\
-		{							\
-		  diff = !ix_isnan - !iy_isnan;				\
-		  if (diff)						\
-		    return (diff);					\
-		}							\
+	      diff = !x_isnan - !y_isnan;				\
+	      if (diff)							\
+		return (diff);						\
+	      diff = (__real__ _x > __real__ _y) - (__real__ _x < __real__ _y); \
+	      if (diff)							\
+		return (diff);						\
+	      diff = (__imag__ _x > __imag__ _y) - (__imag__ _x < __imag__ _y); \
+	      if (diff)							\
+		return (diff);						\
 	    }								\
 	    break;
 
-- 
2.43.0


From 6f1d417ee13c5c97d572b1c298369d7cc8933361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 04/22] fix: XDR memory stream accepted positions beyond its
 buffer and read past it

---
 src/xdr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 389875d..b1d5b42 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -37,7 +37,7 @@ xdrra_getlong (XDR * xdrs, long * lp)
   if (NULL == ra)
     return (false);
   
-  if (ra->MR_SIZE - xdrs->x_handy < sizeof (int32_t))
+  if (ra->MR_SIZE - xdrs->x_handy < (ssize_t)sizeof (int32_t))
     return (false);
   
   char * base = ra->data.ptr;
@@ -132,6 +132,14 @@ xdrra_getpostn (__const XDR * xdrs)
 static bool_t
 xdrra_setpostn (XDR * xdrs, u_int pos)
 {
+  mr_rarray_t * ra = (mr_rarray_t*)xdrs->x_private;
+
+  if (NULL == ra)
+    return (false);
+
+  if (ra->MR_SIZE < pos)
+    return (false);
+
   xdrs->x_handy = pos;
   return (true);
 }
-- 
2.43.0


From f9006dfa9edc73c72ba2290972eb9ada53fbd979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 05/22] fix: XDR inline request did not advance the stream
 position

---
 src/xdr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index b1d5b42..3dde6d0 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -162,7 +162,9 @@ xdrra_inline (XDR * xdrs, u_int len)
     return (NULL);
 
   char * base = ra->data.ptr;
-  return ((int32_t*)&base[xdrs->x_handy]);
+  int32_t * data = (int32_t*)&base[xdrs->x_handy];
+  xdrs->x_handy += len;
+  return (data);
 }
 
 /**
-- 
2.43.0


From f72f1ae7bf483e257bb77816268111ff6ee39273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 06/22] fix: XDR decoding wrote past fixed-size character
 arrays and reallocated interior pointers

---
 src/xdr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 3dde6d0..968bd5b 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -550,7 +550,9 @@ static mr_status_t
 xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 {
   mr_idx_t parent = ptrs->ra[idx].parent;
-  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type));
+  /* content of a dynamic string is saved as a single char array with declared size of at most one char */
+  bool is_a_dynamic_string = ((parent != MR_NULL_IDX) && (MR_TYPE_POINTER == ptrs->ra[parent].mr_type)
+			      && (ptrs->ra[parent].MR_SIZE <= sizeof (char)));
   mr_ptrdes_t * ptrdes = &ptrs->ra[idx];
   typeof (ptrdes->MR_SIZE) str_len;
 
@@ -573,6 +575,12 @@ xdr_char_array_ (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
   if (!xdr_uint32_t (xdrs, &str_len))
     return (MR_FAILURE);
 
+  if ((XDR_DECODE == xdrs->x_op) && !is_a_dynamic_string && (str_len > ptrdes->fdp->stype.size))
+    {
+      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, ptrdes->fdp->name.str);
+      return (MR_FAILURE);
+    }
+
   if ((XDR_DECODE == xdrs->x_op) && (str_len > sizeof (char)) && is_a_dynamic_string)
     {
       void * data = MR_REALLOC (ptrs->ra[idx].data.ptr, str_len);
-- 
2.43.0


From 65d2c7904401f4b53f1c54a8119548bcf09b8de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 07/22] fix: XDR string of size UINT32_MAX overflowed its
 allocation size

---
 src/xdr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xdr.c b/src/xdr.c
index 968bd5b..bd9a3fe 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -660,7 +660,7 @@ xdr_load_string (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       *str = NULL;
       if (!xdr_uint32_t (xdrs, &size))
 	return (MR_FAILURE);
-      *str = MR_CALLOC (size + 1, sizeof (**str));
+      *str = MR_CALLOC ((size_t)size + 1, sizeof (**str));
       if (NULL == *str)
 	{
 	  MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
-- 
2.43.0


From 45cdd97fec658fd53b69e7f32c000154ea16e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 08/22] fix: XDR decoding of an array with surplus elements
 wrote past the array

---
 src/xdr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xdr.c b/src/xdr.c
index bd9a3fe..950e9ac 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -927,6 +927,12 @@ xdr_load_array (XDR * xdrs, mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	  if (fd_.stype.size == 0)
 	    return (MR_SUCCESS);
 
+	  if (ptrs->ra[idx].MR_SIZE / fd_.stype.size > count)
+	    {
+	      MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_RANGE_CHECK, fd_.name.str);
+	      return (MR_FAILURE);
+	    }
+
 	  count = ptrs->ra[idx].MR_SIZE / fd_.stype.size;
 	  ptrs->ra[idx].MR_SIZE = count * fd_.stype.size;
 
-- 
2.43.0


From 8b1964aceff7f3fbc418211a4280deec9ead35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 09/22] fix: union discriminators wider than int were truncated
 and selected a wrong branch

---
 src/mr_save.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index cc0d974..273085c 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -12,10 +12,10 @@ TYPEDEF_FUNC (mr_idx_t, mr_save_handler_t, (mr_save_data_t *))
 static mr_save_handler_t mr_save_handler[];
 
 static inline mr_fd_t *
-mr_union_discriminator_by_idx (mr_td_t * tdp, int idx)
+mr_union_discriminator_by_idx (mr_td_t * tdp, mr_uintmax_t idx)
 {
-  /* check that field index in union is valid and reset to default otherwise */
-  if ((idx < 0) || (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0])))
+  /* check that field index in union is valid and reset to default otherwise (negative values are converted to huge ones) */
+  if (idx >= tdp->param.union_param.fields_size / sizeof (tdp->param.union_param.fields[0]))
     idx = 0;
   if (tdp->param.union_param.fields_size > 0) /* check for an empty union */
     return (tdp->param.struct_param.fields[idx]);
-- 
2.43.0


From acf598635c9e270446294460da39b8ef7bf2e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 10/22] fix: signed bit-field union discriminators were not
 sign extended

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 273085c..43ce42d 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -100,7 +100,7 @@ mr_union_discriminator_by_type (mr_td_t * tdp, mr_fd_t * parent_fdp, void * disc
 	case MR_TYPE_BITFIELD:
 	  {
 	    mr_uintmax_t value = 0;
-	    mr_ptrdes_t ptrdes = { .data.ptr = discriminator, .fdp = parent_fdp, };
+	    mr_ptrdes_t ptrdes = { .data.ptr = discriminator, .fdp = parent_fdp, .mr_type_aux = parent_fdp->stype.mr_type_aux, };
 	    mr_td_t * enum_tdp = parent_fdp->stype.tdp;
 
 	    mr_save_bitfield_value (&ptrdes, &value); /* get value of the bitfield */
-- 
2.43.0


From 1ce6cae014569d3db0bd1572fe93e354823eafa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 11/22] fix: union overrides ignored upper half of 128 bits
 discriminators

---
 src/mr_save.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 43ce42d..0b995d8 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -41,11 +41,16 @@ mr_union_discriminator_by_name (mr_td_t * tdp, char * name)
 }
 
 static inline mr_fd_t *
-mr_ud_override_value (mr_ic_t * ud_overrides, uint64_t value)
+mr_ud_override_value (mr_ic_t * ud_overrides, mr_uintmax_t discriminator)
 {
   if (NULL == ud_overrides)
     return (NULL);
   
+  uint64_t value = discriminator;
+  /* overrides are 64 bits wide and can't match values that don't fit */
+  if ((discriminator != value) && (discriminator != (mr_uintmax_t)(mr_intmax_t)(int64_t)value))
+    return (NULL);
+
   uintptr_t key = (uintptr_t)&value - offsetof (mr_ud_override_t, value); /* (mr_ud_override_t[]){{ .value = value }}; */
   mr_ptr_t * result = mr_ic_find (ud_overrides, key);
   mr_ud_override_t * udo = result ? result->ptr : NULL;
-- 
2.43.0


From 96bbe9916e75de5b06c896d0fd614c93e17e782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 12/22] fix: char array loaded through a pointer must not
 reallocate a block holding several elements

---
 src/mr_load.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mr_load.c b/src/mr_load.c
index 38c9a22..ab62252 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -481,7 +481,9 @@ mr_get_char_array (mr_idx_t idx, mr_ra_ptrdes_t * ptrs, char * str, size_t str_l
   mr_status_t status = MR_SUCCESS;
 
   if ((str_len >= max_size) && (ptrdes->parent != MR_NULL_IDX))
-    if (MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type)
+    if ((MR_TYPE_POINTER == ptrs->ra[ptrdes->parent].mr_type)
+	/* block allocated for a pointer could be extended only if there are no other elements in it */
+	&& (ptrs->ra[ptrdes->parent].first_child == idx) && (MR_NULL_IDX == ptrdes->next))
       {
 	void * data = MR_REALLOC (ptrdes->data.ptr, str_len + 1);
 	if (NULL == data)
-- 
2.43.0


From 986f98a7bc5d73a036aac9c753c83279c9dd28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:16 +0000
Subject: [PATCH 13/22] fix: saving of multi-dimensional arrays used outer
 dimensions for inner arrays

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index 0b995d8..c22666f 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1221,7 +1221,7 @@ mr_save_array (mr_save_data_t * mr_save_data)
   else
     {
       fd_.stype.dim.size -= sizeof (fd_.stype.dim.dim[0]);
-      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[0], fd_.stype.dim.size);
+      memmove (&fd_.stype.dim.dim[0], &fd_.stype.dim.dim[1], fd_.stype.dim.size);
     }
 
   for (i = 0; i < count; )
-- 
2.43.0


From 73c9efad57d1c92b8402416960972c670213b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 14/22] fix: huge value of array size field was truncated to 32
 bits

---
 src/mr_save.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index c22666f..4f0b1ab 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1210,7 +1210,7 @@ mr_save_array (mr_save_data_t * mr_save_data)
 		count = 0;
 	      else
 		{
-		  mr_idx_t count_ = size / fd_.stype.size;
+		  typeof (size) count_ = size / fd_.stype.size;
 		  if (count > count_)
 		    count = count_;
 		}
-- 
2.43.0


From 0ecaa873211621897afe15781d75bec06aa93d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:56 +0000
Subject: [PATCH 15/22] fix: appended node must become the last child of its
 parent

---
 src/metaresc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metaresc.c b/src/metaresc.c
index 15b1fe2..a231998 100644
--- a/src/metaresc.c
+++ b/src/metaresc.c
@@ -636,7 +636,10 @@ mr_last_child_for_parent (mr_ra_ptrdes_t * ptrs, mr_idx_t parent)
     last_child = ra[last_child].parent;
 
   if (MR_NULL_IDX == last_child)
-    for (last_child = ra[parent].first_child; ra[last_child].next != MR_NULL_IDX; last_child = ra[last_child].next);
+    last_child = ra[parent].first_child;
+  /* found child might be not the last one if nodes were appended to the previously finished subtree */
+  while (ra[last_child].next != MR_NULL_IDX)
+    last_child = ra[last_child].next;
 
   ptrs->last_child = last_child;
   return (last_child);
@@ -656,6 +659,7 @@ mr_add_child (mr_ra_ptrdes_t * ptrs, mr_idx_t parent, mr_idx_t child)
 
   ptrs->last_child = child;
   ra[child].parent = parent;
+  ra[child].next = MR_NULL_IDX;
   if (MR_NULL_IDX == parent)
     return;
 
-- 
2.43.0


From 790346f31144eede5afdcb0adba4065ce55f7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:11 +0000
Subject: [PATCH 16/22] fix: DFS started from a leaf node walked into siblings
 of this node

---
 src/mr_save.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mr_save.c b/src/mr_save.c
index 4f0b1ab..e3630c1 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -1259,6 +1259,8 @@ mr_ptrs_dfs_impl (mr_ra_ptrdes_t * ptrs, mr_ptrdes_processor_t processor, mr_ptr
 	{
 	  if (MR_SUCCESS != processor (ptrs, idx, level, MR_DFS_POST_ORDER, context))
 	    return (MR_FAILURE);
+	  if (idx == start)
+	    return (MR_SUCCESS);
 	  while ((ptrs->ra[idx].next == MR_NULL_IDX) && (ptrs->ra[idx].parent != MR_NULL_IDX))
 	    {
 	      idx = ptrs->ra[idx].parent;
-- 
2.43.0


From ebe0505b88ce6e6b70ae0a7c095df5c9891669b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:27 +0000
Subject: [PATCH 17/22] fix: saving of self-nested resizable pointers detached
 nodes from the tree

---
 src/mr_save.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mr_save.c b/src/mr_save.c
index e3630c1..d3965ab 100644
--- a/src/mr_save.c
+++ b/src/mr_save.c
@@ -719,7 +719,8 @@ resolve_pointer (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
       if (MR_TYPE_POINTER == ra[ref_parent].mr_type)
 	{
 	  *resolved = true;
-	  if (is_first_child (ra, ref_idx))
+	  /* nodes can't be moved under their own descendant */
+	  if (is_first_child (ra, ref_idx) && !ref_is_parent (ra, parent, ref_parent))
 	    /*
 	      previously saved resizable pointer was pointing to the same address, but was shorter.
 	      we need to reassign nodes to bigger resizable pointer and make a references for shorter one.
@@ -747,8 +748,11 @@ resolve_pointer (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
     }
   else
     {
-      /* we can handle only match with another resizable pointer */
-      if (MR_TYPE_POINTER == ra[ref_parent].mr_type)
+      /*
+	we can handle only match with the beginning of another resizable pointer,
+	but nodes can't be moved under their own descendant
+      */
+      if ((MR_TYPE_POINTER == ra[ref_parent].mr_type) && is_first_child (ra, ref_idx) && !ref_is_parent (ra, parent, ref_parent))
 	{
 	  /*
 	    in the middle of saving of resizable pointer we matched another resizable pointer
@@ -820,7 +824,7 @@ resolve_matched (mr_save_data_t * mr_save_data, mr_idx_t ref_idx, bool * resolve
 		   || ((MR_TYPE_POINTER == ra[ref_parent].mr_type)
 		       && is_first_child (ra, ref_idx)
 		       && (ra[idx].MR_SIZE >= ra[ref_idx].MR_SIZE)))
-		  && !ref_is_parent (ra, parent, ref_idx))
+		  && !ref_is_parent (ra, parent, ref_parent))
 		{
 		  *resolved = true;
 		  return (move_nodes_to_parent (ptrs, ref_parent, idx));
-- 
2.43.0


From 8f9e726442f380aaf08bb55607e59d951c5d8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 18/22] fix: content reference on a node that holds no pointer
 read past this node

---
 src/mr_load.c | 5 +++++
 src/xdr.c     | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/mr_load.c b/src/mr_load.c
index ab62252..5ec9dd6 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -86,6 +86,11 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
 		continue;
 	      }
+	    else if ((MR_TYPE_POINTER != ptrs->ra[idx].mr_type) && (MR_TYPE_STRING != ptrs->ra[idx].mr_type))
+	      {
+		MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[idx].mr_type);
+		continue;
+	      }
 	    else
 	      data = *(void**)data;
 	  }
diff --git a/src/xdr.c b/src/xdr.c
index 950e9ac..44be50a 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -284,6 +284,12 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
 		    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_NULL_POINTER);
 		    status = MR_FAILURE;
 		  }
+		else if ((MR_TYPE_POINTER != ptrs->ra[ref_idx].mr_type) && (MR_TYPE_STRING != ptrs->ra[ref_idx].mr_type))
+		  {
+		    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNEXPECTED_TARGET_TYPE, ptrs->ra[ref_idx].mr_type);
+		    status = MR_FAILURE;
+		    continue;
+		  }
 		else
 		  data = *(void**)data;
 	      }
-- 
2.43.0


From 39e41117a81bd6ed4eca46ac10973fa3f3ee9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:28 +0000
Subject: [PATCH 19/22] fix: indexes out of range of mr_idx_t were truncated
 and huge index overflowed the table size

---
 src/cinit_load.l |  2 +-
 src/lexer.h      |  1 +
 src/mr_load.c    | 10 +++++-----
 src/mr_load.h    |  7 +++++++
 src/scm_load.l   |  2 +-
 src/xdr.c        |  2 +-
 src/xml1_load.y  |  2 +-
 src/xml2_load.c  |  3 ++-
 src/yaml_load.c  | 22 +++++++++++++++++-----
 9 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/cinit_load.l b/src/cinit_load.l
index 22a5858..82e4b4f 100644
--- a/src/cinit_load.l
+++ b/src/cinit_load.l
@@ -95,7 +95,7 @@ IMAGENARY_NUMBER {INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{INT_NUMBER})?[Ii]
 
 "/*"{WS}{ID}{WS}"="{WS}[[:digit:]]+{WS}"*/" {
   mr_get_id (&yylval->id_ivalue.id, &yytext[2]);
-  yylval->id_ivalue.ivalue = strtoull (strchr (yytext, '=') + 1, NULL, 0);
+  yylval->id_ivalue.ivalue = mr_value_to_idx (strtoull (strchr (yytext, '=') + 1, NULL, 0));
   return (TOK_CINIT_ID_IVALUE);
 }
 
diff --git a/src/lexer.h b/src/lexer.h
index e236d47..8b31c20 100644
--- a/src/lexer.h
+++ b/src/lexer.h
@@ -6,6 +6,7 @@
 #define _LEXER_H_
 
 #include <metaresc.h>
+#include <mr_load.h>
 
 TYPEDEF_STRUCT (mr_token_lloc_t, ATTRIBUTES ( , "token location"),
 		(mr_lloc_t, start, , "start of the token"),
diff --git a/src/mr_load.c b/src/mr_load.c
index 5ec9dd6..6783ede 100644
--- a/src/mr_load.c
+++ b/src/mr_load.c
@@ -37,7 +37,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     {
       MR_MESSAGE (MR_LL_FATAL, MR_MESSAGE_OUT_OF_MEMORY);
@@ -458,12 +458,12 @@ mr_load_string (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
 	    memcpy (&vt_int, &ptrdes->load_params.vt_int, sizeof (vt_int));
 	    if (vt_int >= 0)
 	      {
-		ptrdes->first_child = vt_int;
+		ptrdes->first_child = mr_value_to_idx (vt_int);
 		ptrdes->flags |= MR_IS_REFERENCE;
 	      }
 	    else
 	      {
-		ptrdes->first_child = -vt_int;
+		ptrdes->first_child = mr_value_to_idx (-(mr_uintmax_t)vt_int);
 		ptrdes->flags |= MR_IS_CONTENT_REFERENCE;
 	      }
 	  }
@@ -723,12 +723,12 @@ mr_load_pointer_postponed (mr_idx_t idx, mr_ra_ptrdes_t * ptrs)
       memcpy (&vt_int, &ptrdes->load_params.vt_int, sizeof (vt_int));
       if (vt_int >= 0)
 	{
-	  ptrdes->first_child = vt_int;
+	  ptrdes->first_child = mr_value_to_idx (vt_int);
 	  ptrdes->flags |= MR_IS_REFERENCE;
 	}
       else
 	{
-	  ptrdes->first_child = -vt_int;
+	  ptrdes->first_child = mr_value_to_idx (-(mr_uintmax_t)vt_int);
 	  ptrdes->flags |= MR_IS_CONTENT_REFERENCE;
 	}
     }
diff --git a/src/mr_load.h b/src/mr_load.h
index 6d8ebd6..d826055 100644
--- a/src/mr_load.h
+++ b/src/mr_load.h
@@ -7,4 +7,11 @@ extern mr_status_t mr_load_integer (mr_idx_t, mr_ra_ptrdes_t *);
 extern mr_status_t mr_load_func (mr_idx_t, mr_ra_ptrdes_t *);
 extern void mr_pointer_set_size (mr_idx_t, mr_ra_ptrdes_t *);
 
+/* values out of range of mr_idx_t must not be truncated to an index of another node */
+static inline mr_idx_t
+mr_value_to_idx (mr_uintmax_t value)
+{
+  return ((mr_idx_t)value == value ? (mr_idx_t)value : MR_NULL_IDX);
+}
+
 #endif /* _MR_LOAD_H_ */
diff --git a/src/scm_load.l b/src/scm_load.l
index 04ec4cd..a6d5923 100644
--- a/src/scm_load.l
+++ b/src/scm_load.l
@@ -90,7 +90,7 @@ FLOAT_NUMBER {FLOAT_NAN}|{FLOAT_INF}|{INT_NUMBER}("."[[:digit:]]*)?([eE][+-]?{IN
 
 ";"+{WS}*"("{WS}*{ID}{WS}*\.{WS}*[[:digit:]]+{WS}*")"{WS}* {
   mr_get_id (&yylval->id_ivalue.id, strchr (yytext, '(') + 1);
-  yylval->id_ivalue.ivalue = strtoull (strchr (yytext, '.') + 1, NULL, 0);
+  yylval->id_ivalue.ivalue = mr_value_to_idx (strtoull (strchr (yytext, '.') + 1, NULL, 0));
   return (TOK_SCM_ID_IVALUE);
 }
 
diff --git a/src/xdr.c b/src/xdr.c
index 44be50a..a736a47 100644
--- a/src/xdr.c
+++ b/src/xdr.c
@@ -260,7 +260,7 @@ mr_set_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
       {
 	mr_idx_t ref_idx = ptrs->ra[i].first_child;
-	if (ref_idx >= count)
+	if ((MR_NULL_IDX == ref_idx) || (ref_idx >= count))
 	  {
 	    MR_MESSAGE (MR_LL_WARN, MR_MESSAGE_UNDEFINED_REF_IDX, "ref_idx", ref_idx);
 	    status = MR_FAILURE;
diff --git a/src/xml1_load.y b/src/xml1_load.y
index da99291..4695bc1 100644
--- a/src/xml1_load.y
+++ b/src/xml1_load.y
@@ -24,7 +24,7 @@
   {
     char * end = &substr->str[substr->length];
     char * tail = NULL;
-    *idx = strtoull (substr->str, &tail, 0);
+    *idx = mr_value_to_idx (strtoull (substr->str, &tail, 0));
     if (NULL == tail)
       return (MR_FAILURE);
     while ((tail < end) && isspace (*tail))
diff --git a/src/xml2_load.c b/src/xml2_load.c
index 20c4485..11fee9f 100644
--- a/src/xml2_load.c
+++ b/src/xml2_load.c
@@ -3,6 +3,7 @@
 /* This file is a part of Metaresc project */
 
 #include <metaresc.h>
+#include <mr_load.h>
 
 static mr_status_t
 mr_load_xml_property (xmlNodePtr node, char * property_name, mr_idx_t * idx, mr_ptrdes_flags_t * flags, mr_ptrdes_flags_t flag)
@@ -11,7 +12,7 @@ mr_load_xml_property (xmlNodePtr node, char * property_name, mr_idx_t * idx, mr_
   if (property)
     {
       char * tail = NULL;
-      *idx = mr_strtouintmax (property, &tail, 0);
+      *idx = mr_value_to_idx (mr_strtouintmax (property, &tail, 0));
       if (tail)
 	while (isspace (*tail))
 	  ++tail;
diff --git a/src/yaml_load.c b/src/yaml_load.c
index bc670b7..5d2af12 100644
--- a/src/yaml_load.c
+++ b/src/yaml_load.c
@@ -1,5 +1,7 @@
 #include <yaml.h>
+#include <ctype.h>
 #include <metaresc.h>
+#include <mr_load.h>
 
 static void
 add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
@@ -12,7 +14,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
     if (ptrs->ra[i].idx > max_idx)
       max_idx = ptrs->ra[i].idx;
 
-  table = MR_CALLOC (max_idx + 1, sizeof (table[0]));
+  table = MR_CALLOC ((size_t)max_idx + 1, sizeof (table[0]));
   if (NULL == table)
     return;
 
@@ -22,7 +24,7 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
 
   for (i = 1; i < count; ++i)
     {
-      int ref_idx = ptrs->ra[i].first_child;
+      mr_idx_t ref_idx = ptrs->ra[i].first_child;
       if (ptrs->ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
 	if ((ref_idx > max_idx) || (table[ref_idx] == 0))
 	  if ((ref_idx < count) && (ptrs->ra[ref_idx].idx == MR_NULL_IDX))
@@ -37,6 +39,16 @@ add_missed_crossrefs (mr_ra_ptrdes_t * ptrs)
   MR_FREE (table);
 }
 
+static bool
+yaml_read_idx (char * str, char * prefix, uint32_t * value)
+{
+  size_t length = strlen (prefix);
+  if ((strncmp (str, prefix, length) != 0) || !isdigit ((unsigned char)str[length]))
+    return (false);
+  *value = mr_value_to_idx (strtoull (&str[length], NULL, 10));
+  return (true);
+}
+
 static mr_status_t
 yaml_add_node (mr_ra_ptrdes_t * ptrs, mr_idx_t * parent, mr_fd_t * name_fd, char * value, char * anchor, char * alias, bool unnamed)
 {
@@ -59,12 +71,12 @@ yaml_add_node (mr_ra_ptrdes_t * ptrs, mr_idx_t * parent, mr_fd_t * name_fd, char
 
   if (alias)
     {
-      if (1 == sscanf (alias, MR_YAML_REF_ANCHOR_CONTENT_TMPLT, &prop_value))
+      if (yaml_read_idx (alias, MR_REF_CONTENT "_", &prop_value))
 	{
 	  ptrs->ra[idx].first_child = prop_value;
 	  ptrs->ra[idx].flags |= MR_IS_CONTENT_REFERENCE;
 	}
-      else if (1 == sscanf (alias, MR_YAML_REF_ANCHOR_TMPLT, &prop_value))
+      else if (yaml_read_idx (alias, MR_REF_IDX "_", &prop_value))
 	{
 	  ptrs->ra[idx].first_child = prop_value;
 	  ptrs->ra[idx].flags |= MR_IS_REFERENCE;
@@ -80,7 +92,7 @@ yaml_add_node (mr_ra_ptrdes_t * ptrs, mr_idx_t * parent, mr_fd_t * name_fd, char
 
   if (anchor)
     {
-      if (1 == sscanf (anchor, MR_YAML_ANCHOR_TMPLT, &prop_value))
+      if (yaml_read_idx (anchor, MR_REF_IDX "_", &prop_value))
 	{
 	  ptrs->ra[idx].idx = prop_value;
 	  ptrs->ra[idx].flags |= MR_IS_REFERENCED;
-- 
2.43.0


From e511e61cac6b86f6c2aab678851f4e71924a465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 20/22] fix: sorting used 32 bit indexes which wrap for arrays
 above 2^31 elements

---
 src/mr_hsort.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mr_hsort.c b/src/mr_hsort.c
index 9036608..81ab096 100644
--- a/src/mr_hsort.c
+++ b/src/mr_hsort.c
@@ -9,9 +9,9 @@
 #include <mr_hsort.h>
 
 static inline void
-sift (char * array, size_t count, size_t size, mr_compar_fn_t compar_fn, void * context, unsigned idx0)
+sift (char * array, size_t count, size_t size, mr_compar_fn_t compar_fn, void * context, size_t idx0)
 {
-  unsigned idx1;
+  size_t idx1;
   char x[size];
   memcpy (x, &array[idx0 * size], size);
 
@@ -36,7 +36,7 @@ sift (char * array, size_t count, size_t size, mr_compar_fn_t compar_fn, void *
 void
 mr_hsort (void * array, size_t count, size_t size, mr_compar_fn_t compar_fn, void * context)
 {
-  unsigned i;
+  size_t i;
 
   if (count-- <= 1)
     return;
-- 
2.43.0


From 698f86633d19b0814af8ec02f00f59da0ac05419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 21/22] fix: number of items in an empty or reset tree
 collection was wrong

---
 src/mr_ic.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 4478663..33f9e54 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -846,11 +846,18 @@ mr_ic_static_array_new (mr_ic_t * ic, mr_hash_fn_t hash_fn, mr_compar_fn_t compa
 
 /* ----------------------- MR_IC_RBTREE ----------------------- */
 
+static unsigned
+mr_ic_tree_items_count (mr_tree_t * tree)
+{
+  unsigned count = tree->size / sizeof (tree->pool[0]);
+  return ((count > 0) ? count - 1 : 0); /* first slot is reserved for the root node, but it is absent in an empty tree */
+}
+
 mr_ptr_t *
 mr_ic_rbtree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_rbtree_add (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->rb);
   return (add);
 }
 
@@ -858,7 +865,7 @@ mr_status_t
 mr_ic_rbtree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_rbtree_del (key, &ic->rb, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->rb.size / sizeof (ic->rb.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->rb);
   return (status);
 }
 
@@ -902,6 +909,7 @@ mr_ic_tree_index (mr_ic_t * ic, mr_ptr_t * rarray, size_t size)
   /* Add elements into the tree in the natuaral order. In case of equal elements only first will be added. */
   int i, count = size / sizeof (rarray[0]);
   mr_tree_reserve (&ic->tree, count, true);
+  ic->items_count = 0;
   for (i = 0; i < count; ++i)
     if (NULL == mr_ic_add (ic, rarray[i]))
       return (MR_FAILURE);
@@ -964,7 +972,7 @@ mr_ptr_t *
 mr_ic_avltree_add (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_ptr_t * add = mr_avltree_add (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->avl);
   return (add);
 }
 
@@ -972,7 +980,7 @@ mr_status_t
 mr_ic_avltree_del (mr_ic_t * ic, mr_ptr_t key)
 {
   mr_status_t status = mr_avltree_del (key, &ic->avl, ic->compar_fn, ic->context.data.ptr);
-  ic->items_count = ic->avl.size / sizeof (ic->avl.pool[0]) - 1;
+  ic->items_count = mr_ic_tree_items_count (&ic->avl);
   return (status);
 }
 
-- 
2.43.0


From bfac7d5afaddd83431e56c0a52fa9f89a1edd442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:34 +0000
Subject: [PATCH 22/22] fix: hash collection counted repeated zero key twice
 and miscounted after a failed allocation

---
 src/mr_ic.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mr_ic.c b/src/mr_ic.c
index 33f9e54..a9a53b8 100644
--- a/src/mr_ic.c
+++ b/src/mr_ic.c
@@ -454,12 +454,19 @@ mr_ic_hash_index_add (mr_ic_t * ic, mr_ptr_t key)
       
       if (0 == key.intptr)
 	{
+	  mr_ptr_t * find = mr_ic_hash_find (ic, key);
+	  if (find != NULL)
+	    return (find);
 	  ++ic->items_count;
 	  ic->hash.zero_key = true;
 	  ic->hash.hash_table[count].intptr = 0;
 	  return (&ic->hash.hash_table[count]);
 	}
 
+      if (ic->hash.zero_key &&
+	  (0 == ic->compar_fn (key, ic->hash.hash_table[count], ic->context.data.ptr)))
+	return (&ic->hash.hash_table[count]);
+
       unsigned i, bucket = ic->hash.hash_fn (key, ic->context.data.ptr) % count;
 
       for (i = bucket; ;)
@@ -551,7 +558,10 @@ mr_ic_hash_add (mr_ic_t * ic, mr_ptr_t key)
 	return (NULL);
       ++ic->items_count;
       if (MR_SUCCESS != mr_ic_hash_reindex (&dst_ic, ic))
-	return (NULL);
+	{
+	  --ic->items_count;
+	  return (NULL);
+	}
 
       mr_ic_free (ic);
       *ic = dst_ic;
-- 
2.43.0

