From f95dd00c86a618717e734626d9d96a259cd2ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 001/161] fix: builtin triplestore index bookkeeping,
 compaction and matching of non-literals

The id->index map stored the index within the call instead of the index
in the store and was not updated when triples were moved.  Compaction
leaked trailing removed triples, and d="" did not match non-literals in
find_first() and remove().
---
 src/triplestore-builtin.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/triplestore-builtin.c b/src/triplestore-builtin.c
index 455be0b..5f33ca8 100644
--- a/src/triplestore-builtin.c
+++ b/src/triplestore-builtin.c
@@ -161,9 +161,9 @@ int triplestore_add_triples(TripleStore *ts, const Triple *triples,
       if (!(t->o = strdup(triples[i].o))) return err(1, "allocation error");
       t->d = (triples[i].d) ? strdup(triples[i].d) : NULL;
       t->id = id;
+      map_set(&ts->map, id, (int)ts->true_length);
       ts->length++;
       ts->true_length++;
-      map_set(&ts->map, id, i);
     } else {
       free(id);
     }
@@ -173,6 +173,14 @@ int triplestore_add_triples(TripleStore *ts, const Triple *triples,
 }
 
 
+/* Moves triple from index `from` to (the cleared) index `to`. */
+static void move_triple(TripleStore *ts, size_t to, size_t from)
+{
+  memcpy(ts->triples + to, ts->triples + from, sizeof(Triple));
+  memset(ts->triples + from, 0, sizeof(Triple));
+  map_set(&ts->map, ts->triples[to].id, (int)to);
+}
+
 /* Removes triple number n.  Returns non-zero on error. */
 static int _remove_by_index(TripleStore *ts, size_t n)
 {
@@ -194,7 +202,7 @@ static int _remove_by_index(TripleStore *ts, size_t n)
     triple_clean(t);
     ts->length--;
     if (t < ts->triples + ts->length)
-      memcpy(t, &ts->triples[ts->length], sizeof(Triple));
+      move_triple(ts, n, ts->length);
     ts->true_length = ts->length;
   }
   return 0;
@@ -228,7 +236,7 @@ int triplestore_remove(TripleStore *ts, const char *s, const char *p,
     if ((!s || strcmp(s, t->s) == 0) &&
         (!p || strcmp(p, t->p) == 0) &&
         (!o || strcmp(o, t->o) == 0) &&
-        (!d || (t->d && strcmp(d, t->d) == 0))) {
+        (!d || (!d[0] && !t->d) || (t->d && strcmp(d, t->d) == 0))) {
       if (_remove_by_index(ts, i) == 0) n++;
     }
   }
@@ -245,12 +253,12 @@ void triplestore_clear(TripleStore *ts)
   int n=ts->true_length;
   int niter=ts->niter;
   while (--n >= 0)
-    if (ts->triples[n].id) _remove_by_index(ts, n);
+    triple_clean(ts->triples + n);
   if (ts->triples) free(ts->triples);
   map_deinit(&ts->map);
+  if (ts->ns) free((char *)ts->ns);
   memset(ts, 0, sizeof(TripleStore));
   ts->niter = niter;
-  if (ts->ns) free((char *)ts->ns);
 }
 
 
@@ -283,7 +291,7 @@ const Triple *triplestore_find_first(const TripleStore *ts, const char *s,
         (!s || strcmp(s, t->s) == 0) &&
         (!p || strcmp(p, t->p) == 0) &&
         (!o || strcmp(o, t->o) == 0) &&
-        (!d || (t->d && strcmp(d, t->d) == 0)))
+        (!d || (!d[0] && !t->d) || (t->d && strcmp(d, t->d) == 0)))
       return t;
   }
   return NULL;
@@ -319,21 +327,22 @@ void triplestore_deinit_state(TripleState *state)
   }
 
   if (ts->niter == 0 && ts->true_length > ts->length) {
-    for (i=ts->true_length-1; i>=0 && !ts->triples[i].id; i--)
-      ts->true_length--;
     for (i=ts->true_length-1; i>=0; i--) {
       Triple *t = ts->triples + i;
       if (!t->id) {
-        Triple *tt = ts->triples + (--ts->true_length);
-        assert(t < tt);
         triple_clean(t);
-        memcpy(t, tt, sizeof(Triple));
+        if (i < (int)(--ts->true_length)) move_triple(ts, i, ts->true_length);
       }
     }
     assert(ts->true_length == ts->length);
     if (ts->size > ts->length + TRIPLESTORE_CHUNKSIZE) {
-      ts->size = ts->length + ts->length % TRIPLESTORE_CHUNKSIZE;
-      ts->triples = realloc(ts->triples, ts->size*sizeof(Triple));
+      size_t size = (ts->length / TRIPLESTORE_CHUNKSIZE + 1) *
+        TRIPLESTORE_CHUNKSIZE;
+      void *ptr = realloc(ts->triples, size*sizeof(Triple));
+      if (ptr) {
+        ts->triples = ptr;
+        ts->size = size;
+      }
     }
   }
 }
-- 
2.43.0


From b306bcd404f7947599ee2279dfa6f13966819ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 002/161] fix: only accept complete type names

---
 src/dlite-type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 39cb890..d1998c2 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -494,7 +494,8 @@ int dlite_type_set_dtype_and_size(const char *typename,
 
   /* Check if typename is a fixed-sized type listed in the type table */
   for (i=0; type_table[i].typename; i++) {
-    if (strncmp(typename, type_table[i].typename, len) == 0) {
+    if (strncmp(typename, type_table[i].typename, len) == 0 &&
+        type_table[i].typename[len] == '\0') {
       *dtype = type_table[i].dtype;
       *size = type_table[i].size;
       return 0;
-- 
2.43.0


From c93fb7d65e76a945ab7d0ded812f588593c7102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 003/161] fix: scanning uint with initial blanks loops forever

---
 src/dlite-type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index d1998c2..c6e2932 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1004,7 +1004,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
   case dliteUInt:
     v = 0;
-    while (isblank(src[v])) m++;
+    while (isblank(src[v])) v++;
     if (src[v] == '0' && (src[v+1] == 'x' || src[v+1] == 'X')) {
       switch (size) {
 #ifdef HAVE_INTTYPES_H
-- 
2.43.0


From 557a518283bb34ef46a7b745d5a18dba96062005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 004/161] fix: ndcast copied padded layouts wrongly, aliased
 strings and failed on empty arrays

---
 src/dlite-type.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index c6e2932..7300f2b 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1454,6 +1454,7 @@ int dlite_type_ndcast(int ndims,
   if (n != N)
     return err(dliteIndexError, "incompatible sizes of dimension %d for source (%lu) and dest (%lu)", i,
                (unsigned long)N, (unsigned long)n);
+  if (N == 0) return 0;  // nothing to copy
 
   /* Default source strides */
   if (!src_strides) {
@@ -1478,7 +1479,8 @@ int dlite_type_ndcast(int ndims,
   }
 
   /* -- check that source and dest have same layout */
-  if (dest_type != src_type || dest_size != src_size) samelayout = 0;
+  if (dest_type != src_type || dest_size != src_size ||
+      dlite_type_is_allocated(src_type)) samelayout = 0;
   if (samelayout) {
     for (i=0; i<ndims; i++)
       if (dest_dims[i] != src_dims[i] || dest_strides[i] != src_strides[i]) {
@@ -1487,13 +1489,10 @@ int dlite_type_ndcast(int ndims,
       }
   }
   if (samelayout) {
-    /* -- check that source is contiguous */
+    /* -- check that source is C-contiguous */
     int size = src_size;
-    for (i=0; i<ndims; i++) {
-      int iscont=0;
-      for (j=0; j < src_dims[j]; j++)
-        if (src_strides[j] == size) { iscont = 1; break; }
-      if (!iscont) { samelayout = 0; break; }
+    for (i=ndims-1; i>=0; i--) {
+      if (src_strides[i] != size) { samelayout = 0; break; }
       size *= src_dims[i];
     }
   }
-- 
2.43.0


From c9183359009969ab1a9e8b62eeb1e5ffb11ea689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 005/161] fix: JSON output lost floating point digits

---
 src/dlite-json.c      |  2 +-
 src/dlite-type-cast.c |  6 +++---
 src/dlite-type.c      | 25 ++++++++++++++++++++++++-
 src/dlite-type.h      |  4 +++-
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 45c4040..7d84e6d 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -108,7 +108,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       void *ptr = dlite_instance_get_property_by_index(inst, i);
       size_t *shape= DLITE_PROP_DIMS(inst, i);
       PRINT2("%s    \"%s\": ", in, p->name);
-      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -2, f);
+      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -3, f);
       if (m < 0) return -1;
       n += m;
       PRINT1("%s\n", c);
diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index fc76355..8b22f18 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -161,7 +161,7 @@ static int istrue(const void *src, DLiteType type, size_t size)
 #define toFixString                                                     \
   do {                                                                  \
     if (dlite_type_print(dest, dest_size, src, src_type, src_size,      \
-                         0, -2, 0) < 0) goto fail;                      \
+                         0, -3, 0) < 0) goto fail;                      \
     return 0;                                                           \
   } while (0)
 
@@ -171,12 +171,12 @@ static int istrue(const void *src, DLiteType type, size_t size)
     char *p;                                                            \
     UNUSED(m);  /* m is unused if NDEBUG is non-zero */                 \
     if ((n = dlite_type_print(NULL, 0, src, src_type, src_size,         \
-                              0, -2, 0)) < 0) goto fail;                \
+                              0, -3, 0)) < 0) goto fail;                \
     if (!(p = realloc(*(char **)dest, n + 1)))                          \
       FAILCODE(dliteMemoryError, "reallocation failure");                                     \
     *(char **)dest = p;                                                 \
     m = dlite_type_print(*(char **)dest, n+1, src, src_type, src_size,  \
-                         0, -2, 0);                                     \
+                         0, -3, 0);                                     \
     assert(m == n);                                                     \
     return 0;                                                           \
   } while (0)
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 7300f2b..5580d35 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -706,7 +706,8 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  Set `prec` to -3 to print
+  floats with the number of digits needed for reading them back unchanged.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
@@ -786,6 +787,28 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
   case dliteFloat:
     if (w == -1) w = 12;
     if (r == -1) r = 6;
+    if (r == -3) {
+      /* Use the lowest precision (at least 6 digits) for which the
+         value can be read back unchanged */
+      char buf[64];
+      for (r=6; r<36; r++) {
+        int same=1;
+        switch (size) {
+        case 4:
+          snprintf(buf, sizeof(buf), "%.*g", r, *((float32_t *)p));
+          same = (strtof(buf, NULL) == *((float32_t *)p)); break;
+        case 8:
+          snprintf(buf, sizeof(buf), "%.*g", r, *((float64_t *)p));
+          same = (strtod(buf, NULL) == *((float64_t *)p)); break;
+#ifdef HAVE_FLOAT128
+        case 16:
+          snprintf(buf, sizeof(buf), "%.*Lg", r, *((float128_t *)p));
+          same = (strtold(buf, NULL) == *((float128_t *)p)); break;
+#endif
+        }
+        if (same || !strpbrk(buf, "0123456789")) break;
+      }
+    }
     switch (size) {
     case 4:  m = snprintf(dest, n, "%*.*g",  w, r, *((float32_t *)p)); break;
     case 8:  m = snprintf(dest, n, "%*.*g",  w, r, *((float64_t *)p)); break;
diff --git a/src/dlite-type.h b/src/dlite-type.h
index f2ffc54..8e08ebc 100644
--- a/src/dlite-type.h
+++ b/src/dlite-type.h
@@ -231,7 +231,9 @@ void *dlite_type_clear(void *p, DLiteType dtype, size_t size);
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  Set `prec` to -3 to
+  print floats with the number of digits needed for reading them back
+  unchanged.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
-- 
2.43.0


From ce8e352c1f3cb263a7cd6fd0fcc7abf32a3a12bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 006/161] fix: type casts wrote to the source, outside the
 destination or read outside the source

---
 src/dlite-type-cast.c | 48 +++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index 8b22f18..f1d3c83 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -88,8 +88,8 @@ static int istrue(const void *src, DLiteType type, size_t size)
 
   case dliteBlob:
     q = (uint8_t *)src;
-    for (i=0; i<size; i++, q++) if (*q) return 0;
-    return 1;
+    for (i=0; i<size; i++, q++) if (*q) return 1;
+    return 0;
 
   case dliteBool:
     return *((bool *)src);
@@ -152,8 +152,8 @@ static int istrue(const void *src, DLiteType type, size_t size)
 #define toBool                                          \
   do {                                                  \
     switch (istrue(src, src_type, src_size)) {          \
-    case 0: *((bool *)src) = 0; return 0;               \
-    case 1: *((bool *)src) = 1; return 0;               \
+    case 0: *((bool *)dest) = 0; return 0;              \
+    case 1: *((bool *)dest) = 1; return 0;              \
     default: goto fail;                                 \
     }                                                   \
   } while (0)
@@ -229,32 +229,32 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       toBool;
     case dliteUInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((uint8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((uint16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((uint32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((uint64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((uint8_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
+      case 2: *((uint16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((uint32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((uint64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((int8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((int16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((int32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((int64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((int8_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
+      case 2: *((int16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((int32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((int64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteFloat:
       switch (dest_size) {
-      case 4: *((bool *)dest) = (*((float32_t *)src)) ? 1 : 0;   return 0;
-      case 8: *((bool *)dest) = (*((float64_t *)src)) ? 1 : 0;   return 0;
+      case 4: *((float32_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
+      case 8: *((float64_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
 #ifdef HAVE_FLOAT80
-      case 10: *((bool *)dest) = (*((float80_t *)src)) ? 1 : 0;  return 0;
+      case 10: *((float80_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
 #ifdef HAVE_FLOAT96
-      case 12: *((bool *)dest) = (*((float96_t *)src)) ? 1 : 0;  return 0;
+      case 12: *((float96_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
 #ifdef HAVE_FLOAT128
-      case 16: *((bool *)dest) = (*((float128_t *)src)) ? 1 : 0; return 0;
+      case 16: *((float128_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #endif
       default: goto fail;
       }
@@ -735,7 +735,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       case 16:
         switch (src_size) {
         case 4: *((float128_t *)dest) = *((float32_t *)src);   return 0;
-        case 8: *((float|18_t *)dest) = *((float64_t *)src);   return 0;
+        case 8: *((float128_t *)dest) = *((float64_t *)src);   return 0;
 #ifdef HAVE_FLOAT80
         case 10: *((float128_t *)dest) = *((float80_t *)src);  return 0;
 #endif
@@ -765,10 +765,10 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     switch (dest_type) {
     case dliteBlob:
       memset(dest, 0, dest_size);
-      memcpy(dest, p, strlen(p));
+      if (p) memcpy(dest, p, MIN(strlen(p), dest_size));
       return 0;
     case dliteBool:
-      *(bool *)src = (p && *p) ? 1 : 0;
+      *(bool *)dest = (p && *p) ? 1 : 0;
       return 0;
     case dliteUInt:
       switch (isnegative(src, src_type, src_size)) {
@@ -823,6 +823,14 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     }
     assert(0);
 
+  case dliteRef:
+    if (dest_type == dliteRef) {
+      assert(dest_size == src_size);
+      if (!dlite_type_copy(dest, src, dest_type, dest_size)) goto fail;
+      return 0;
+    }
+    goto fail;
+
   case dliteDimension:
     if (dest_type == dliteDimension) {
       assert(dest_size == src_size);
-- 
2.43.0


From 352bd06773d4c55444d2e7222eb078032ff4df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 007/161] fix: dlite_type_copy/scan lost or mishandled
 references, datatypes and missing descriptions

---
 src/dlite-type.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 5580d35..916b7ed 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -566,9 +566,17 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
   case dliteUInt:
   case dliteFloat:
   case dliteFixString:
-  case dliteRef:
     memcpy(dest, src, size);
     break;
+  case dliteRef:
+    {
+      DLiteInstance *old = *(DLiteInstance **)dest;
+      DLiteInstance *inst = *(DLiteInstance **)src;
+      if (inst) dlite_instance_incref(inst);
+      *(DLiteInstance **)dest = inst;
+      if (old) dlite_instance_decref(old);
+    }
+    break;
   case dliteStringPtr:
     {
       char *s = *((char **)src);
@@ -589,7 +597,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
       DLiteDimension *d=dest;
       const DLiteDimension *s=src;
       d->name = strdup(s->name);
-      d->description = strdup(s->description);
+      d->description = (s->description) ? strdup(s->description) : NULL;
     }
     break;
   case dliteProperty:
@@ -599,7 +607,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
       d->name = strdup(s->name);
       d->type = s->type;
       d->size = s->size;
-      if (s->ref) d->ref = strdup(s->ref);
+      d->ref = (s->ref) ? strdup(s->ref) : NULL;
       d->ndims = s->ndims;
       if (d->ndims) {
         int i;
@@ -618,9 +626,10 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteRelation *d=dest;
       const DLiteRelation *s=src;
-      d->s = strdup(s->s);
-      d->p = strdup(s->p);
-      d->o = strdup(s->o);
+      d->s = (s->s) ? strdup(s->s) : NULL;
+      d->p = (s->p) ? strdup(s->p) : NULL;
+      d->o = (s->o) ? strdup(s->o) : NULL;
+      d->d = (s->d) ? strdup(s->d) : NULL;
       d->id = (s->id) ? strdup(s->id) : NULL;
     }
     break;
@@ -1231,6 +1240,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       if (rel->s) free(rel->s);
       if (rel->p) free(rel->p);
       if (rel->o) free(rel->o);
+      if (rel->d) free(rel->d);
       if (rel->id) free(rel->id);
       memset(rel, 0, sizeof(DLiteRelation));
 
-- 
2.43.0


From 7604f0a43d48ed2aa89f68c23b01b2d166c70c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 008/161] fix: escape and unescape backslashes and control
 characters in JSON strings

---
 src/dlite-type.c     |  96 +++++++++++++++++----------------
 src/utils/jsmnx.c    |  23 ++++++++
 src/utils/jsmnx.h    |  11 ++++
 src/utils/strutils.c | 126 ++++++++++++++++++++++++++++++++++++-------
 4 files changed, 192 insertions(+), 64 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 916b7ed..9432e84 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -861,9 +861,16 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     break;
 
   case dliteDimension:
-    m = snprintf(dest, n, "{\"name\": \"%s\", \"description\": \"%s\"}",
-                 ((DLiteDimension *)p)->name,
-                 ((DLiteDimension *)p)->description);
+    {
+      DLiteDimension *d = (DLiteDimension *)p;
+      m = snprintf(dest, n, "{\"name\": ");
+      m += strquote(dest+m, PDIFF(n, m), d->name);
+      if (d->description) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": ");
+        m += strquote(dest+m, PDIFF(n, m), d->description);
+      }
+      m += snprintf(dest+m, PDIFF(n, m), "}");
+    }
     break;
 
   case dliteProperty:
@@ -873,23 +880,31 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
       DLiteProperty *prop = (DLiteProperty *)p;
       dlite_type_set_typename(prop->type, prop->size, typename,
                               sizeof(typename));
-      m = snprintf(dest, n, "{"
-                   "\"name\": \"%s\", "
-                   "\"type\": \"%s\", "
-                   "\"ndims\": %d",
-                   prop->name, typename, prop->ndims);
+      m = snprintf(dest, n, "{\"name\": ");
+      m += strquote(dest+m, PDIFF(n, m), prop->name);
+      m += snprintf(dest+m, PDIFF(n, m),
+                    ", \"type\": \"%s\", \"ndims\": %d",
+                    typename, prop->ndims);
+      if (prop->ref) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"$ref\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->ref);
+      }
       if (prop->ndims) {
         m += snprintf(dest+m, PDIFF(n, m), ", \"shape\": [");
-        for (i=0; i < prop->ndims; i++)
-          m += snprintf(dest+m, PDIFF(n, m), "\"%s\"%s", prop->shape[i],
-                        (i < prop->ndims-1) ? ", " : "");
+        for (i=0; i < prop->ndims; i++) {
+          m += strquote(dest+m, PDIFF(n, m), prop->shape[i]);
+          if (i < prop->ndims-1) m += snprintf(dest+m, PDIFF(n, m), ", ");
+        }
         m += snprintf(dest+m, PDIFF(n, m), "]");
       }
-      if (prop->unit && *prop->unit)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": \"%s\"", prop->unit);
-      if (prop->description && *prop->description)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": \"%s\"",
-                      prop->description);
+      if (prop->unit && *prop->unit) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->unit);
+      }
+      if (prop->description && *prop->description) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->description);
+      }
       m += snprintf(dest+m, PDIFF(n, m), "}");
     }
     break;
@@ -963,11 +978,8 @@ int dlite_type_aprint(char **dest, size_t *n, size_t pos, const void *p,
 
 /* Macro used by dlite_type_scan() to asign `target` when scanning a
    relation. */
-#define SET_RELATION(target, buf, bufsize, t, src)                      \
-  if (strnput_unquote(&buf, &bufsize, 0, src + t->start,                \
-                      t->end - t->start, NULL, strquoteNoQuote) < 0)    \
-    return -1;                                                          \
-  target = (buf[0]) ? strndup(buf, t->end - t->start) : NULL;
+#define SET_RELATION(target, t, src)                                    \
+  target = (t->end > t->start) ? jsmn_strdup(src, t) : NULL;
 
 
 /*
@@ -1162,9 +1174,9 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (!(t = jsmn_item(src, tokens, "name")))
         return err(dliteValueError, "missing dimension name: '%s'", src);
-      dim->name = strndup(src + t->start, t->end - t->start);
+      dim->name = jsmn_strdup(src, t);
       if ((t = jsmn_item(src, tokens, "description")))
-        dim->description = strndup(src + t->start, t->end - t->start);
+        dim->description = jsmn_strdup(src, t);
     }
     break;
 
@@ -1193,7 +1205,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (!(t = jsmn_item(src, tokens, "name")))
         return errx(dliteParseError, "missing property name: '%s'", src);
-      prop->name = strndup(src + t->start, t->end - t->start);
+      prop->name = jsmn_strdup(src, t);
 
       if (!(t = jsmn_item(src, tokens, "type")))
         return dlite_property_clear(prop),
@@ -1203,7 +1215,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         return dlite_property_clear(prop), errnum;
 
       if ((t = jsmn_item(src, tokens, "$ref")))
-        prop->ref = strndup(src + t->start, t->end - t->start);
+        prop->ref = jsmn_strdup(src, t);
 
       if ((t = jsmn_item(src, tokens, "shape")) ||
           (t = jsmn_item(src, tokens, "dims"))) {
@@ -1217,15 +1229,15 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
             return dlite_property_clear(prop),
               err(dliteParseError, "error parsing property dimensions: %.*s",
                        t->end - t->start, src + t->start);
-          prop->shape[i] = strndup(src + d->start, d->end - d->start);
+          prop->shape[i] = jsmn_strdup(src, d);
         }
       }
 
       if ((t = jsmn_item(src, tokens, "unit")))
-        prop->unit = strndup(src + t->start, t->end - t->start);
+        prop->unit = jsmn_strdup(src, t);
 
       if ((t = jsmn_item(src, tokens, "description")))
-        prop->description = strndup(src + t->start, t->end - t->start);
+        prop->description = jsmn_strdup(src, t);
     }
     break;
 
@@ -1253,38 +1265,30 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         return errx(dliteParseError, "relation should have 3 (optionally 5) elements");
       m = tokens->end - tokens->start;
       if (tokens->type == JSMN_ARRAY) {
-        size_t bufsize=0;
-        char *buf=NULL;
         if (!(t = jsmn_element(src, tokens, 0))) return -1;
-        SET_RELATION(rel->s, buf, bufsize, t, src);
+        SET_RELATION(rel->s, t, src);
         if (!(t = jsmn_element(src, tokens, 1))) return -1;
-        SET_RELATION(rel->p, buf, bufsize, t, src);
+        SET_RELATION(rel->p, t, src);
         if (!(t = jsmn_element(src, tokens, 2))) return -1;
-        SET_RELATION(rel->o, buf, bufsize, t, src);
+        SET_RELATION(rel->o, t, src);
         if (tokens->size > 3 && (t = jsmn_element(src, tokens, 3))) {
-          SET_RELATION(rel->d, buf, bufsize, t, src);
+          SET_RELATION(rel->d, t, src);
         }
         if (tokens->size > 4 && (t = jsmn_element(src, tokens, 4))) {
-          rel->id = (t->end > t->start) ?
-            strndup(src + t->start, t->end - t->start) : NULL;
+          SET_RELATION(rel->id, t, src);
         }
-        free(buf);
       } else if (tokens->type == JSMN_OBJECT) {
-        size_t bufsize=0;
-        char *buf=NULL;
         if (!(t = jsmn_item(src, tokens, "s"))) return -1;
-        SET_RELATION(rel->s, buf, bufsize, t, src);
+        SET_RELATION(rel->s, t, src);
         if (!(t = jsmn_item(src, tokens, "p"))) return -1;
-        SET_RELATION(rel->p, buf, bufsize, t, src);
+        SET_RELATION(rel->p, t, src);
         if (!(t = jsmn_item(src, tokens, "o"))) return -1;
-        SET_RELATION(rel->o, buf, bufsize, t, src);
+        SET_RELATION(rel->o, t, src);
         if ((t = jsmn_item(src, tokens, "d"))) {
-          SET_RELATION(rel->d, buf, bufsize, t, src);
+          SET_RELATION(rel->d, t, src);
         }
         if ((t = jsmn_item(src, tokens, "id")))
-          rel->id = (t->end > t->start) ?
-            strndup(src + t->start, t->end - t->start) : NULL;
-        free(buf);
+          SET_RELATION(rel->id, t, src);
       } else {
         return errx(dliteValueError, "relation should be a JSON array");
       }
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index aa3831a..bb8e097 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -10,6 +10,7 @@
 #include <string.h>
 
 #include "err.h"
+#include "strutils.h"
 
 /* Include the jsmn.h header without defining JSMN_HEADER defined.
    This defines all functions in jsmn. */
@@ -168,6 +169,28 @@ const jsmntok_t *jsmn_element(const char *js, const jsmntok_t *t, int i)
 }
 
 
+/*
+  Returns a malloc'ed copy of the text of token `t` with JSON escape
+  sequences decoded.
+
+  `js` is the JSON source.
+
+  Returns NULL if `t` is the JSON primitive `null` or on allocation error.
+*/
+char *jsmn_strdup(const char *js, const jsmntok_t *t)
+{
+  char *buf=NULL;
+  size_t size=0;
+  int len = t->end - t->start;
+  const char *s = js + t->start;
+  if (t->type == JSMN_PRIMITIVE && len == 4 && strncmp(s, "null", 4) == 0)
+    return NULL;
+  if (strnput_unquote(&buf, &size, 0, s, len, NULL,
+                      strquoteInitialBlanks | strquoteNoQuote) < 0) return NULL;
+  return buf;
+}
+
+
 /*
   Returns error message corresponding to return value from jsmn_parse().
 */
diff --git a/src/utils/jsmnx.h b/src/utils/jsmnx.h
index ce494d1..406b141 100644
--- a/src/utils/jsmnx.h
+++ b/src/utils/jsmnx.h
@@ -114,6 +114,17 @@ const jsmntok_t *jsmn_item(const char *js, const jsmntok_t *t, const char *key);
 const jsmntok_t *jsmn_element(const char *js, const jsmntok_t *t, int i);
 
 
+/**
+ * Returns a malloc'ed copy of the text of token `t` with JSON escape
+ * sequences decoded.
+ *
+ * `js` is the JSON source.
+ *
+ * Returns NULL if `t` is the JSON primitive `null` or on allocation error.
+ */
+char *jsmn_strdup(const char *js, const jsmntok_t *t);
+
+
 /**
  * Returns error message corresponding to return value from jsmn_parse().
  */
diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 414010f..4fc8279 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -243,10 +243,88 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
 #define PDIFF(a, b) (((size_t)(a) > (size_t)(b)) ? (a) - (b) : 0)
 
 
+/*
+  Writes character `c` escaped as required in a double-quoted JSON
+  string to `esc` (which must have space for at least 7 bytes).
+ */
+static void escape_char(char esc[8], char c)
+{
+  static const char special[] = "\"\\\b\f\n\r\t", letter[] = "\"\\bfnrt";
+  const char *q = strchr(special, c);
+  if (q && *q)
+    snprintf(esc, 8, "\\%c", letter[q - special]);
+  else if ((unsigned char)c < 0x20)
+    snprintf(esc, 8, "\\u%04x", (unsigned char)c);
+  else
+    snprintf(esc, 8, "%c", c);
+}
+
+/* Reads 4 hex digits from `s`.  Returns -1 on error. */
+static long scan_hex4(const char *s)
+{
+  int i;
+  long v=0;
+  for (i=0; i<4; i++) {
+    if (!isxdigit((unsigned char)s[i])) return -1;
+    v = 16*v + (isdigit((unsigned char)s[i]) ? s[i] - '0' :
+                tolower((unsigned char)s[i]) - 'a' + 10);
+  }
+  return v;
+}
+
+/*
+  Decodes the escape sequence at `s`, which should start with a
+  backslash.  The decoded character is written (NUL-terminated) to `buf`.
+
+  At most `n` bytes are read from `s` if `n` is non-negative.
+
+  Returns number of bytes consumed or zero if `s` does not start with a
+  known escape sequence.
+ */
+static int unescape_char(char buf[8], const char *s, int n)
+{
+  static const char special[] = "\"\\/\b\f\n\r\t", letter[] = "\"\\/bfnrt";
+  const char *q;
+  long c, c2;
+  int m;
+  if ((n >= 0 && n < 2) || !s[1]) return 0;
+  if ((q = strchr(letter, s[1]))) {
+    buf[0] = special[q - letter];
+    buf[1] = '\0';
+    return 2;
+  }
+  if (s[1] != 'u' || (n >= 0 && n < 6)) return 0;
+  if ((c = scan_hex4(s+2)) <= 0) return 0;  // NUL cannot be represented
+  m = 6;
+  if (c >= 0xd800 && c < 0xdc00) {  // surrogate pair
+    if ((n >= 0 && n < 12) || s[6] != '\\' || s[7] != 'u') return 0;
+    c2 = scan_hex4(s+8);
+    if (c2 < 0xdc00 || c2 >= 0xe000) return 0;
+    c = 0x10000 + ((c - 0xd800) << 10) + (c2 - 0xdc00);
+    m = 12;
+  } else if (c >= 0xdc00 && c < 0xe000) {
+    return 0;
+  }
+  if (c < 0x80)
+    snprintf(buf, 8, "%c", (char)c);
+  else if (c < 0x800)
+    snprintf(buf, 8, "%c%c", (char)(0xc0 | (c >> 6)), (char)(0x80 | (c & 0x3f)));
+  else if (c < 0x10000)
+    snprintf(buf, 8, "%c%c%c", (char)(0xe0 | (c >> 12)),
+             (char)(0x80 | ((c >> 6) & 0x3f)), (char)(0x80 | (c & 0x3f)));
+  else
+    snprintf(buf, 8, "%c%c%c%c", (char)(0xf0 | (c >> 18)),
+             (char)(0x80 | ((c >> 12) & 0x3f)),
+             (char)(0x80 | ((c >> 6) & 0x3f)), (char)(0x80 | (c & 0x3f)));
+  return m;
+}
+
+
 /*
   Double-quote input string `s` and write it to `dest`.
 
-  Embedded double-quotes are escaped with backslash. At most `size`
+  Embedded double-quotes, backslashes and control characters are escaped
+  with backslash like in JSON. At most `size`
   characters are written to `dest` (including terminating NUL).
 
   If `s` is NULL, this function will behave similarly to snprintf(),
@@ -284,14 +362,16 @@ int strnquote(char *dest, size_t size, const char *s, int n,
        If `n` is positive, consume at most `n` characters from `s`. */
     while (s[j] && (n < 0 || (int)j < n)) {
 
-      /* Add backslash (escape) in front of double-quote characters
-         when copying to `dest` */
-      if (s[j] == '"' && !(flags & strquoteNoEscape)) {
-        if (size > i) dest[i] = '\\';
-        i++;
-      }
-      if (size > i) dest[i] = s[j];
-      i++;
+      /* Escape double-quotes, backslashes and control characters with
+         a backslash when copying to `dest` */
+      char esc[8];
+      const char *q;
+      if (flags & strquoteNoEscape)
+        snprintf(esc, sizeof(esc), "%c", s[j]);
+      else
+        escape_char(esc, s[j]);
+      for (q=esc; *q; q++, i++)
+        if (size > i) dest[i] = *q;
       j++;
     }
 
@@ -301,7 +381,7 @@ int strnquote(char *dest, size_t size, const char *s, int n,
        way. */
     // cppcheck-suppress nullPointer
     int m = snprintf(dest+i, PDIFF(size, i), "%s", s);
-    if (m >= 0) i += j;
+    if (m >= 0) i += m;
   }
 
   /* Write final quote sign to `dest`. */
@@ -356,15 +436,24 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
   size_t i=0, j=0;
   if (!dest) size = 0;
   if (!size) dest = NULL;
-  if (!(flags && strquoteInitialBlanks))
-    while (isspace(s[j])) j++;
+  if (!(flags & strquoteInitialBlanks))
+    while ((n < 0 || (int)j < n) && isspace((unsigned char)s[j])) j++;
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
-  while (s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
-    if (!(flags & strquoteNoEscape) && s[j] == '\\' && s[j+1] == '"') j++;
-    if (n >= 0 && (int)j >= n) break;
-    if (dest && size > i) dest[i] = s[j];
-    i++;
-    j++;
+  while ((n < 0 || (int)j < n) && s[j] &&
+         ((flags & strquoteNoQuote) || s[j] != '"')) {
+    char buf[8];
+    const char *q;
+    int m;
+    if (!(flags & strquoteNoEscape) && s[j] == '\\' &&
+        (m = unescape_char(buf, s+j, (n < 0) ? -1 : n - (int)j)) > 0) {
+      for (q=buf; *q; q++, i++)
+        if (size > i) dest[i] = *q;
+      j += m;
+    } else {
+      if (size > i) dest[i] = s[j];
+      i++;
+      j++;
+    }
   }
   if (dest) dest[(size > i) ? i : size-1] = '\0';
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -2;
@@ -429,6 +518,7 @@ int strhex_encode(char *hex, size_t hexsize, const unsigned char *data,
 {
   int n, m=0;
   size_t i;
+  if (hexsize) hex[0] = '\0';
   for (i=0; i<size; i++) {
     if ((n = snprintf(hex+m, PDIFF(hexsize, m), "%02x", data[i])) < 0) return n;
     if (n == 2 && m == (int)hexsize-2) hex[m] = '\0';
-- 
2.43.0


From 36eb3c953360d0b2a893865eb98af8906d37ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 009/161] fix: misspelled keys when converting dicts with
 relations or identity

---
 bindings/python/dlite-jstore-python.i | 2 +-
 bindings/python/utils.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/dlite-jstore-python.i b/bindings/python/dlite-jstore-python.i
index 31a3f9a..e7fb750 100644
--- a/bindings/python/dlite-jstore-python.i
+++ b/bindings/python/dlite-jstore-python.i
@@ -153,7 +153,7 @@ def format_dict(
         )
 
     if "relations" in d:
-        dct["relations"] = d["repations"].copy()
+        dct["relations"] = d["relations"].copy()
 
     if single:
         return dct
diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 5c9df6e..4d3a2a6 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -108,7 +108,7 @@ class DictStore(dict):
         if "uuid" in d:
             uuid = d["uuid"]
         else:
-            uuid = dlite.get_uuid(d.get("uri", d.get("identiry")))
+            uuid = dlite.get_uuid(d.get("uri", d.get("identity")))
 
         if id and uuid and dlite.get_uuid(id) != uuid:
             raise dlite.DLiteInconsistentDataError(
@@ -158,7 +158,7 @@ class DictStore(dict):
             )
 
         if "relations" in d:
-            dct["relations"] = d["repations"].copy()
+            dct["relations"] = d["relations"].copy()
 
         self[uuid] = dct
 
-- 
2.43.0


From 2660a45ab92d70d23dd6d06aab2e7664082a5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 010/161] fix: JSON serialisation lost or corrupted metadata
 text, relations and strings, and parsing did not validate its input

---
 src/dlite-entity.c |  81 +++++++++++++++----
 src/dlite-json.c   | 198 ++++++++++++++++++++++++++++-----------------
 2 files changed, 190 insertions(+), 89 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 958978e..3c0e7e5 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3186,6 +3186,47 @@ int dlite_property_aprint(char **dest, size_t *n, size_t pos, const void *ptr,
 }
 
 
+/*
+  Help function for scanning a single (scalar) value from JSON token `t`.
+
+  Arguments:
+   - src    JSON source
+   - t      pointer to a jsmn token
+   - ptr    pointer to memory to write to
+   - p      property describing the data
+   - flags  format options.  If zero (default), string tokens are scanned
+            including their enclosing quotes, such that JSON escape
+            sequences are decoded.
+
+  Returns number of characters consumed or a negative number on error.
+ */
+static int scantoken(const char *src, const jsmntok_t *t, void *ptr,
+                     const DLiteProperty *p, DLiteTypeFlag flags)
+{
+  const char *val = src + t->start;
+  int len = t->end - t->start;
+  if (!flags) {
+    switch (p->type) {
+    case dliteStringPtr:
+      if (t->type == JSMN_PRIMITIVE && len == 4 && !strncmp(val, "null", 4)) {
+        if (*(char **)ptr) free(*(char **)ptr);
+        *(char **)ptr = NULL;
+        return len;
+      }
+      /* fall through */
+    case dliteFixString:
+    case dliteRef:
+      if (t->type == JSMN_STRING)
+        return dlite_type_scan(val - 1, len + 2, ptr, p->type, p->size,
+                               dliteFlagQuoted);
+      break;
+    default:
+      break;
+    }
+  }
+  return dlite_type_scan(val, len, ptr, p->type, p->size, flags);
+}
+
 /*
   Recursive help function for dlite_property_scan() for handling
   n-dimensional arrays.
@@ -3217,8 +3258,7 @@ static int scandim(int d, const char *src, void **pptr,
       if (scandim(d+1, src, pptr, p, shape, flags, t)) goto fail;
     }
   } else {
-    if ((m = dlite_type_scan(src+(*t)->start, (*t)->end-(*t)->start, *pptr,
-                             p->type, p->size, flags)) < 0) return m;
+    if ((m = scantoken(src, *t, *pptr, p, flags)) < 0) return m;
     *((char **)pptr) += p->size;
     *t += jsmn_count(*t);
   }
@@ -3262,17 +3302,22 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         if (dim->description) free(dim->description);
         memset(dim, 0, sizeof(DLiteDimension));
         dim->name = strndup(key, keylen);
-        dim->description = strndup(val, len);
+        dim->description = jsmn_strdup(src, item);
       } else if (item->type == JSMN_OBJECT) {
         int i;
+        const jsmntok_t *k = item + 1;
         for (i=0; i < item->size; i++, dim++) {
-          const jsmntok_t *k = item + 2*i + 1;
-          const jsmntok_t *v = item + 2*i + 2;
+          const jsmntok_t *v = k + 1;
+          if (v->type != JSMN_STRING && v->type != JSMN_PRIMITIVE)
+            return err(dliteValueError,
+                       "expected dimension description to be a string, got "
+                       "\"%.*s\"", v->end - v->start, src + v->start);
           if (dim->name) free(dim->name);
           if (dim->description) free(dim->description);
           memset(dim, 0, sizeof(DLiteDimension));
-          dim->name = strndup(src + k->start, k->end - k->start);
-          dim->description = strndup(src + v->start, v->end - v->start);
+          dim->name = jsmn_strdup(src, k);
+          dim->description = jsmn_strdup(src, v);
+          k = v + 1;
         }
       } else
         return err(dliteValueError,
@@ -3295,7 +3340,7 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         dlite_property_clear(prop);
 
         assert(v->type == JSMN_STRING);  // key must be a string
-        prop->name = strndup(src + v->start, v->end - v->start);
+        prop->name = jsmn_strdup(src, v);
         v++;
 
         if (v->type != JSMN_OBJECT) {
@@ -3316,9 +3361,9 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         }
 
         if ((t = jsmn_item(src, v, "$ref")))
-          prop->ref = strndup(src + t->start, t->end - t->start);
+          prop->ref = jsmn_strdup(src, t);
         else if (prop->type == dliteRef && (t = jsmn_item(src, v, "type")))
-          prop->ref = strndup(src + t->start, t->end - t->start);
+          prop->ref = jsmn_strdup(src, t);
 
         if ((t = jsmn_item(src, v, "dims")) ||
             (t = jsmn_item(src, v, "shape"))) {
@@ -3338,15 +3383,19 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
                          "\"%.*s\"", t->end - t->start, src + t->start,
                          keylen, key);
             }
-            prop->shape[j] = strndup(src + d->start, d->end - d->start);
+            if (!(prop->shape[j] = jsmn_strdup(src, d))) {
+              dlite_property_clear(prop);
+              return err(dliteIndexError, "invalid shape of property "
+                         "\"%.*s\"", keylen, key);
+            }
           }
         }
 
         if ((t = jsmn_item(src, v, "unit")))
-          prop->unit = strndup(src + t->start, t->end - t->start);
+          prop->unit = jsmn_strdup(src, t);
 
         if ((t = jsmn_item(src, v, "description")))
-          prop->description = strndup(src + t->start, t->end - t->start);
+          prop->description = jsmn_strdup(src, t);
 
         v += jsmn_count(v) + 1;
       }
@@ -3433,6 +3482,9 @@ int dlite_property_jscan(const char *src, const jsmntok_t *item,
       if (scandim(0, src, &q, p, shape, flags, &t)) return -1;
       break;
     case JSMN_OBJECT:
+      if (p->ndims != 1 || item->size != (int)shape[0])
+        return errx(dliteIndexError, "property \"%s\": JSON object does not "
+                    "match the shape of the property", p->name);
       return scanobj(src, item, key, ptr, p);
     default:
       return errx(dliteIndexError,
@@ -3441,8 +3493,7 @@ int dlite_property_jscan(const char *src, const jsmntok_t *item,
     }
     return len;
   } else {
-    return dlite_type_scan(src + item->start, item->end - item->start,
-                           ptr, p->type, p->size, flags);
+    return scantoken(src, item, ptr, p, flags);
   }
 }
 
diff --git a/src/dlite-json.c b/src/dlite-json.c
index 7d84e6d..1d0f0df 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -5,6 +5,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <errno.h>
+#include <limits.h>
 
 #include "utils/err.h"
 #include "utils/compat.h"
@@ -56,6 +57,14 @@
 static const jsmntok_t *nexttok(DLiteJsonIter *iter, int *length);
 
 
+/* Like PRINT(), but prints string `s` quoted and escaped. */
+#define PRINTQ(s)                                       \
+  do {                                                  \
+    int m = strquote(dest+n, PDIFF(size, n), s);        \
+    if (m < 0) goto fail;                               \
+    n += m;                                             \
+  } while (0)
+
 /*
   Help function for serialise instance `inst` to `dest`, formatted as JSON.
 
@@ -82,14 +91,20 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   in[indent] = '\0';
 
   PRINT1("%s{\n", in);
-  if (inst->uri)
-    PRINT2("%s  \"uri\": \"%s\",\n", in, inst->uri);
+  if (inst->uri) {
+    PRINT1("%s  \"uri\": ", in);
+    PRINTQ(inst->uri);
+    PRINT(",\n");
+  }
   if (flags & dliteJsonWithUuid)
     PRINT2("%s  \"uuid\": \"%s\",\n", in, inst->uuid);
   if (flags & dliteJsonWithMeta ||
       dlite_instance_is_data(inst) ||
-      dlite_instance_is_metameta(inst))
-    PRINT2("%s  \"meta\": \"%s\",\n", in, inst->meta->uri);
+      dlite_instance_is_metameta(inst)) {
+    PRINT1("%s  \"meta\": ", in);
+    PRINTQ(inst->meta->uri);
+    PRINT(",\n");
+  }
 
   if (dlite_instance_is_data(inst)) {  // data
     PRINT1("%s  \"dimensions\": {\n", in);
@@ -109,7 +124,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       size_t *shape= DLITE_PROP_DIMS(inst, i);
       PRINT2("%s    \"%s\": ", in, p->name);
       m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -3, f);
-      if (m < 0) return -1;
+      if (m < 0) goto fail;
       n += m;
       PRINT1("%s\n", c);
     }
@@ -119,8 +134,14 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     DLiteMeta *met = (DLiteMeta *)inst;
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    int has_relations = (met->_nrelations > 0 &&
+                         dlite_meta_has_property(inst->meta, "relations"));
+
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINTQ(description);
+      PRINT(",\n");
+    }
 
     PRINT1("%s  \"dimensions\": [\n", in);
     for (i=0; i < met->_ndimensions; i++) {
@@ -128,9 +149,11 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       DLiteDimension *d = met->_dimensions + i;
       PRINT1("%s    {\n", in);
       PRINT2("%s      \"name\": \"%s\"", in, d->name);
-      if (d->description)
-        PRINT2(",\n%s      \"description\": \"%s\"\n", in, d->description);
-      PRINT2("%s    }%s\n", in, c);
+      if (d->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTQ(d->description);
+      }
+      PRINT2("\n%s    }%s\n", in, c);
     }
     PRINT1("%s  ],\n", in);
 
@@ -143,42 +166,47 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       PRINT1("%s    {\n", in);
       PRINT2("%s      \"name\": \"%s\",\n", in, p->name);
       PRINT2("%s      \"type\": \"%s\"", in, typename);
-      if (p->ref)
-        PRINT2(",\n%s      \"$ref\": \"%s\"", in, p->ref);
+      if (p->ref) {
+        PRINT1(",\n%s      \"$ref\": ", in);
+        PRINTQ(p->ref);
+      }
       if (p->ndims) {
         PRINT1(",\n%s      \"dims\": [", in);
         for (j=0; j < p->ndims; j++) {
           char *cc = (j < p->ndims - 1) ? ", " : "";
-          PRINT2("\"%s\"%s", p->shape[j], cc);
+          PRINTQ(p->shape[j]);
+          PRINT1("%s", cc);
         }
         PRINT("]");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
+      if (p->unit) {
+        PRINT1(",\n%s      \"unit\": ", in);
+        PRINTQ(p->unit);
+      }
+      if (p->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTQ(p->description);
+      }
       PRINT2("\n%s    }%s\n", in, c);
     }
-    PRINT1("%s  ]\n", in);
+    PRINT2("%s  ]%s\n", in, (has_relations) ? "," : prop_comma);
 
-    if (dlite_instance_get_property((DLiteInstance *)inst->meta, "relations")) {
+    if (has_relations) {
       PRINT1("%s  \"relations\": [\n", in);
       for (i=0; i < met->_nrelations; i++) {
-        int m;
+        char *c = (i < met->_nrelations - 1) ? "," : "";
         DLiteRelation *r = met->_relations + i;
         PRINT1("%s    [", in);
-        m = strquote(dest+n, PDIFF(size, n), r->s);
-        if (m < 0) goto fail;
-        n += m;
+        PRINTQ(r->s);
         PRINT(", ");
-        m = strquote(dest+n, PDIFF(size, n), r->p);
-        if (m < 0) goto fail;
-        n += m;
+        PRINTQ(r->p);
         PRINT(", ");
-        m = strquote(dest+n, PDIFF(size, n), r->o);
-        if (m < 0) goto fail;
-        n += m;
-        PRINT("]\n");
+        PRINTQ(r->o);
+        if (r->d) {
+          PRINT(", ");
+          PRINTQ(r->d);
+        }
+        PRINT1("]%s\n", c);
 
       }
       PRINT2("%s  ]%s\n", in, prop_comma);
@@ -188,15 +216,25 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     DLiteMeta *met = (DLiteMeta *)inst;
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
+    int has_relations = (met->_nrelations > 0 &&
+                         dlite_meta_has_property(inst->meta, "relations"));
 
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINTQ(description);
+      PRINT(",\n");
+    }
 
     PRINT1("%s  \"dimensions\": {\n", in);
     for (i=0; i < met->_ndimensions; i++) {
       char *c = (i < met->_ndimensions - 1) ? "," : "";
       DLiteDimension *d = met->_dimensions + i;
-      PRINT4("%s    \"%s\": \"%s\"%s\n", in, d->name, d->description, c);
+      PRINT2("%s    \"%s\": ", in, d->name);
+      if (d->description)
+        PRINTQ(d->description);
+      else
+        PRINT("null");
+      PRINT1("%s\n", c);
     }
     PRINT1("%s  },\n", in);
 
@@ -208,42 +246,47 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
       PRINT2("%s    \"%s\": {\n", in, p->name);
       PRINT2("%s      \"type\": \"%s\"", in, typename);
-      if (p->ref)
-        PRINT2(",\n%s      \"$ref\": \"%s\"", in, p->ref);
+      if (p->ref) {
+        PRINT1(",\n%s      \"$ref\": ", in);
+        PRINTQ(p->ref);
+      }
       if (p->ndims) {
         PRINT1(",\n%s      \"shape\": [", in);
         for (j=0; j < p->ndims; j++) {
           char *cc = (j < p->ndims - 1) ? ", " : "";
-          PRINT2("\"%s\"%s", p->shape[j], cc);
+          PRINTQ(p->shape[j]);
+          PRINT1("%s", cc);
         }
         PRINT("]");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
+      if (p->unit) {
+        PRINT1(",\n%s      \"unit\": ", in);
+        PRINTQ(p->unit);
+      }
+      if (p->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTQ(p->description);
+      }
       PRINT2("\n%s    }%s\n", in, c);
     }
-    PRINT1("%s  }\n", in);
+    PRINT2("%s  }%s\n", in, (has_relations) ? "," : prop_comma);
 
-    if (dlite_instance_get_property((DLiteInstance *)inst->meta, "relations")) {
+    if (has_relations) {
       PRINT1("%s  \"relations\": [\n", in);
       for (i=0; i < met->_nrelations; i++) {
-        int m;
+        char *c = (i < met->_nrelations - 1) ? "," : "";
         DLiteRelation *r = met->_relations + i;
         PRINT1("%s    [", in);
-        m = strquote(dest+n, PDIFF(size, n), r->s);
-        if (m < 0) goto fail;
-        n += m;
+        PRINTQ(r->s);
         PRINT(", ");
-        m = strquote(dest+n, PDIFF(size, n), r->p);
-        if (m < 0) goto fail;
-        n += m;
+        PRINTQ(r->p);
         PRINT(", ");
-        m = strquote(dest+n, PDIFF(size, n), r->o);
-        if (m < 0) goto fail;
-        n += m;
-        PRINT("]\n");
+        PRINTQ(r->o);
+        if (r->d) {
+          PRINT(", ");
+          PRINTQ(r->d);
+        }
+        PRINT1("]%s\n", c);
       }
       PRINT2("%s  ]%s\n", in, prop_comma);
     }
@@ -333,7 +376,7 @@ int dlite_json_asprint(char **dest, size_t *size, size_t pos,
 
   if (!dest || !*dest || !*size) {
     /* Just count number of bytes to write */
-    m = dlite_json_sprint(*dest, 0, inst, indent, flags);
+    m = dlite_json_sprint(NULL, 0, inst, indent, flags);
     if (m < 0) return m;
   } else {
     /* Try to write to existing buffer */
@@ -490,9 +533,9 @@ static char *get_uri(const char *src, const jsmntok_t *obj)
 {
   const jsmntok_t *t, *t1, *t2, *t3;
   if ((t = jsmn_item(src, obj, "uri")))
-    return strndup(src + t->start, t->end - t->start);
+    return jsmn_strdup(src, t);
   if ((t = jsmn_item(src, obj, "identity")))
-    return strndup(src + t->start, t->end - t->start);
+    return jsmn_strdup(src, t);
   if ((t1 = jsmn_item(src, obj, "name")) &&
       (t2 = jsmn_item(src, obj, "version")) &&
       (t3 = jsmn_item(src, obj, "namespace"))) {
@@ -512,7 +555,6 @@ static char *get_meta_uri(const char *src, const jsmntok_t *obj)
 {
   const jsmntok_t *item;
   char *buf=NULL;
-  size_t size=0;
   const char *s = src + obj->start;
   int len = obj->end - obj->start;
   if (!(item = jsmn_item(src, (jsmntok_t *)obj, "meta")))
@@ -522,7 +564,7 @@ static char *get_meta_uri(const char *src, const jsmntok_t *obj)
     if (!(buf = get_uri(src, item)))
       FAIL2("invalid meta for object %.*s", len, s);
   } else if (item->type == JSMN_STRING) {
-    strnput(&buf, &size, 0, src + item->start, item->end - item->start);
+    buf = jsmn_strdup(src, item);
   } else
     return err(1, "\"meta\" in json repr. of instance should be either an "
                "object or a string: %.*s", len, s), NULL;
@@ -539,7 +581,7 @@ static int get_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
   if (!(item = jsmn_item(src, (jsmntok_t *)obj, "uuid"))) return 1;
   if (item->end - item->start != DLITE_UUID_LENGTH)
     return err(dliteParseError, "UUID should have length %d, got %d",
-               item->end - item->start, DLITE_UUID_LENGTH);
+               DLITE_UUID_LENGTH, item->end - item->start);
   if (dlite_get_uuidn(uuid, src+item->start, item->end-item->start) < 0)
     return -1;
   return 0;
@@ -590,8 +632,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   /* Get uri and uuid */
   uri = get_uri(src, obj);
   if (!uri && (item = jsmn_item(src, obj, "uuid"))) {
-    strncpy(uuid, src + item->start, DLITE_UUID_LENGTH);
-    uuid[DLITE_UUID_LENGTH] = '\0';
+    if (get_uuid(uuid, src, obj)) goto fail;
+    if (!id || !*id) id = uuid;
   } else {
     if (dlite_get_uuid(uuid, (uri) ? uri : id) < 0) goto fail;
   }
@@ -604,7 +646,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
       dlite_warn("Instance \"%s\" include an URI \"%s\" whos UUID (%s) is "
                  "inconsistent with the instance UUID (%s). "
                  "This may be due to the namespacedID behavior change. "
-                 "Ignoring the URI.", id, uri, uuid, uuid2);
+                 "Ignoring the URI.", id, (uri) ? uri : "", uuid, uuid2);
+      if (uri) free(uri);
       uri = NULL;
     }
   }
@@ -652,9 +695,14 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
           DLiteDimension *d = meta->_dimensions + i;
           if (!(t = jsmn_item(src, item, d->name)))
             FAIL2("missing dimension \"%s\" in %s", d->name, id);
-          if (t->type == JSMN_PRIMITIVE)
-            dims[i] = atoi(src + t->start);
-          else
+          if (t->type == JSMN_PRIMITIVE) {
+            char *endptr=NULL;
+            long dim = strtol(src + t->start, &endptr, 10);
+            if (endptr != src + t->end || dim < 0 || dim > INT_MAX)
+              FAIL3("invalid dimension value '%.*s': %s",
+                    t->end-t->start, src+t->start, id);
+            dims[i] = dim;
+          } else
             FAIL3("value '%.*s' of dimension should be an integer: %s",
                   t->end-t->start, src+t->start, id);
         }
@@ -718,8 +766,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         } else {
           if (!ptr)
             FAIL1("cannot assign property with NULL destination: %s", p->name);
-          if (dlite_type_scan(src+t->start, t->end - t->start, ptr, p->type,
-                              p->size, 0) < 0)
+          if (dlite_property_jscan(src, t, p->name, ptr, p, pdims, 0) < 0)
             goto fail;
         }
       } else if (dlite_instance_is_meta(inst)) {
@@ -740,7 +787,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
       if (meta->_loadprop) meta->_loadprop(inst, i);
     }
   }
-  if (dlite_instance_is_meta(inst)) dlite_meta_init((DLiteMeta *)inst);
+  if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
+    goto fail;
   ok = 1;
  fail:
   if (name) free(name);
@@ -752,8 +800,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   if (metauri) free(metauri);
   if (!ok && inst) {
     /* Metadata has an extra refcount, so loop until refcount is zero */
-    while (inst->_refcount)
-      dlite_instance_decref(inst);
+    while (dlite_instance_decref(inst) > 0);
     inst = NULL;
   }
   if (meta) dlite_meta_decref((DLiteMeta *)meta);
@@ -836,7 +883,8 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
   if (metaid) {
     char uuid[DLITE_UUID_LENGTH + 1];
     if (dlite_get_uuid(uuid, metaid) < 0 ||
-        (strcmp(metaid, uuid) != 0 && strcmp(metaid, inst->meta->uri) != 0)) {
+        (strcmp(inst->meta->uuid, uuid) != 0 &&
+         strcmp(metaid, inst->meta->uri) != 0)) {
       if (!id) id = inst->uuid;
       err(1, "instance '%s' has meta id '%s' but '%s' is expected",
           id, inst->meta->uri, metaid);
@@ -968,8 +1016,9 @@ DLiteJsonFormat dlite_json_check(const char *src, const jsmntok_t *tokens,
   } else if (props->type == JSMN_OBJECT) {
     prop = props + 1;
     assert(prop);
-    if (prop->type == JSMN_OBJECT)
-      fmt = (jsmn_item(src, item, "type")) ?
+    /* `prop` is the key of the first property and `prop+1` its value */
+    if (props->size > 0 && prop[1].type == JSMN_OBJECT)
+      fmt = (jsmn_item(src, prop + 1, "type")) ?
         dliteJsonMetaFormat : dliteJsonDataFormat;
     else
       fmt = dliteJsonDataFormat;
@@ -1087,7 +1136,8 @@ static const jsmntok_t *nexttok(DLiteJsonIter *iter, int *length)
     if (*iter->metauuid) {
       char uuid[DLITE_UUID_LENGTH+1];
       const jsmntok_t *v = t + 1;
-      get_meta_uuid(uuid, iter->src, v);
+      if (v->type != JSMN_OBJECT || get_meta_uuid(uuid, iter->src, v))
+        continue;
       if (strncmp(uuid, iter->metauuid, DLITE_UUID_LENGTH) == 0) return t;
     } else
       return t;
-- 
2.43.0


From 45fe80b024828e07365760b06b8d3a0c8cf536d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 011/161] fix: BSON serialisation of strings, references,
 relations, floats and metadata, and unchecked reading of BSON

---
 src/dlite-bson.c | 511 ++++++++++++++++++++++++++++++++++-------------
 src/utils/bson.c |  88 ++++----
 2 files changed, 420 insertions(+), 179 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 68ae99c..334b987 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -76,6 +76,38 @@ static BsonType bsontype(DLiteType dtype, size_t size)
 }
 
 
+/* Append string `s` to BSON document.  If `s` is NULL, a bsonNull element is
+   appended.  Returns number of bytes appended or a negative error code. */
+static int append_string(unsigned char *buf, int bufsize, const char *ename,
+                         const char *s)
+{
+  if (!s) return bson_append(buf, bufsize, bsonNull, ename, 0, NULL);
+  return bson_append(buf, bufsize, bsonString, ename, -1, s);
+}
+
+#define APPEND_STRING(buf, ename, s)                                    \
+  do {                                                                  \
+    int m = append_string(buf, bufsize-n, ename, s);                    \
+    if (m < 0) return m;                                                \
+    n += m;                                                             \
+  } while (0)
+
+/* Append relation `rel` as a subdocument.  Returns number of bytes
+   appended or a negative error code. */
+static int append_relation(unsigned char *buf, int bufsize, const char *ename,
+                           const DLiteRelation *rel)
+{
+  int n=0;
+  unsigned char *subdoc=NULL;
+  BEGIN_SUBDOC(buf, ename, &subdoc);
+  APPEND_STRING(subdoc, "s", rel->s);
+  APPEND_STRING(subdoc, "p", rel->p);
+  APPEND_STRING(subdoc, "o", rel->o);
+  if (rel->d) APPEND_STRING(subdoc, "d", rel->d);
+  END_SUBDOC(buf, bsonDocument);
+  return n;
+}
+
 /*
   Append DLite property to BSON document.
 
@@ -106,7 +138,7 @@ static int append_property(unsigned char *buf, int bufsize,
   float128_t f128;
 #endif
 
-  if (p->shape) {
+  if (p->ndims) {
 
     /* Array - treated as binary using host byte order */
     int i, nmemb=1;
@@ -130,11 +162,15 @@ static int append_property(unsigned char *buf, int bufsize,
         n += m;
         for (i=0; i<nmemb; i++) {
           char *s = ((char **)ptr)[i];
+          if (!s)
+            return errx(dliteUnsupportedError, "NULL in string array "
+                        "cannot be represented in bson: %s", p->name);
           if ((m = bson_append_binary(subdoc, bufsize-n, strlen(s)+1, s)) < 0)
             return m;
           n += m;
         }
         if ((m = bson_end_binary(buf, bufsize-n)) < 0) return m;
+        n += m;
       }
       break;
 
@@ -146,12 +182,15 @@ static int append_property(unsigned char *buf, int bufsize,
           return m;
         n += m;
         for (i=0; i<nmemb; i++) {
-          char *uuid = ((DLiteInstance **)ptr)[i]->uuid;
+          DLiteInstance *ref = ((DLiteInstance **)ptr)[i];
+          char uuid[DLITE_UUID_LENGTH+1]="";
+          if (ref) memcpy(uuid, ref->uuid, sizeof(uuid));
           if ((m = bson_append_binary(subdoc, bufsize-n, DLITE_UUID_LENGTH+1,
                                       uuid)) < 0) return m;
           n += m;
         }
         if ((m = bson_end_binary(buf, bufsize-n)) < 0) return m;
+        n += m;
       }
       break;
 
@@ -161,14 +200,18 @@ static int append_property(unsigned char *buf, int bufsize,
                   dlite_type_get_dtypename(p->type));
 
     case dliteRelation:
-      for (i=0; i<nmemb; i++) {
-        unsigned char *subdoc;
-        DLiteRelation rel = *((DLiteRelation *)ptr + i);
+      {
+        unsigned char *subdoc=NULL;
         BEGIN_SUBDOC(buf, p->name, &subdoc);
-        APPEND(subdoc, bsonString, "s", -1, rel.s);
-        APPEND(subdoc, bsonString, "p", -1, rel.p);
-        APPEND(subdoc, bsonString, "o", -1, rel.o);
-        END_SUBDOC(buf, bsonDocument);
+        for (i=0; i<nmemb; i++) {
+          char index[20];
+          int m;
+          snprintf(index, sizeof(index), "%d", i);
+          if ((m = append_relation(subdoc, bufsize-n, index,
+                                   (DLiteRelation *)ptr + i)) < 0) return m;
+          n += m;
+        }
+        END_SUBDOC(buf, bsonArray);
       }
       break;
     }
@@ -244,13 +287,14 @@ static int append_property(unsigned char *buf, int bufsize,
       break;
 
     case dliteStringPtr:
-      APPEND(buf, bsonString, p->name,
-             strlen(*((char **)ptr)), *((char **)ptr));
+      APPEND_STRING(buf, p->name, *((char **)ptr));
       break;
 
     case dliteRef:
-      APPEND(buf, bsonString, p->name, p->size,
-             (*((DLiteInstance **)ptr))->uuid);
+      {
+        DLiteInstance *ref = *((DLiteInstance **)ptr);
+        APPEND_STRING(buf, p->name, (ref) ? ref->uuid : NULL);
+      }
       break;
 
     case dliteDimension:
@@ -260,13 +304,9 @@ static int append_property(unsigned char *buf, int bufsize,
 
     case dliteRelation:
       {
-        unsigned char *subdoc;
-        DLiteRelation rel = *((DLiteRelation *)ptr);
-        BEGIN_SUBDOC(buf, p->name, &subdoc);
-        APPEND(subdoc, bsonString, "s", -1, rel.s);
-        APPEND(subdoc, bsonString, "p", -1, rel.p);
-        APPEND(subdoc, bsonString, "o", -1, rel.o);
-        END_SUBDOC(buf, bsonDocument);
+        int m;
+        if ((m = append_relation(buf, bufsize-n, p->name, ptr)) < 0) return m;
+        n += m;
       }
     }
   }
@@ -293,7 +333,7 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
 {
   size_t i;
   int n=0, ismeta=dlite_instance_is_meta(inst);
-  unsigned char *subdoc, byteordering[]="\x01\x02\x03\x04";
+  unsigned char *subdoc=NULL, byteordering[]="\x01\x02\x03\x04";
 
   APPEND(buf, bsonString, "uuid", DLITE_UUID_LENGTH, inst->uuid);
   if (inst->uri)
@@ -328,13 +368,13 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
     BEGIN_SUBDOC(buf, "dimensions", &subdoc);
     for (i=0; i < meta->_ndimensions; i++) {
       DLiteDimension *d = meta->_dimensions + i;
-      APPEND(subdoc, bsonString, d->name, -1, d->description);
+      APPEND_STRING(subdoc, d->name, d->description);
     }
     END_SUBDOC(buf, bsonDocument);
 
     BEGIN_SUBDOC(buf, "properties", &subdoc);
     for (i=0; i < meta->_nproperties; i++) {
-      unsigned char *prop;
+      unsigned char *prop=NULL;
       DLiteProperty *p = meta->_properties + i;
       char typename[32];
       dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
@@ -343,7 +383,7 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
       if (p->ref)
         APPEND(prop, bsonString, "$ref", -1, p->ref);
       if (p->ndims) {
-        unsigned char *arr;
+        unsigned char *arr=NULL;
         BEGIN_SUBDOC(prop, "shape", &arr);
         int j;
         for (j=0; j < p->ndims; j++) {
@@ -353,9 +393,9 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
         }
         END_SUBDOC(prop, bsonArray);
       }
-      if (p->unit && *p->unit)
+      if (p->unit)
         APPEND(prop, bsonString, "unit", -1, p->unit);
-      if (p->description && *p->description)
+      if (p->description)
         APPEND(prop, bsonString, "description", -1, p->description);
       END_SUBDOC(subdoc, bsonDocument);
     }
@@ -422,32 +462,59 @@ unsigned char *dlite_bson_from_instance(const DLiteInstance *inst,
                "', got '%s'", bson_typename(type))
 
 
-/* Read relations from `subdoc` and write them to `d` of length `len`.
+/* Assign string `*dest` to a copy of the content of a BSON element.
+   Returns non-zero on error. */
+static int set_string(char **dest, const char *name, int type, const char *value)
+{
+  if (type != bsonString && type != bsonNull)
+    return err(dliteTypeError, "bson element '%s' should be a string, got '%s'",
+               name, bson_typename(type));
+  if (*dest) free(*dest);
+  *dest = NULL;
+  if (type == bsonString && !(*dest = strdup(value)))
+    return err(dliteMemoryError, "allocation failure");
+  return 0;
+}
+
+/* Read relation from `doc` and write it to `rel`.
+   Returns non-zero on error. */
+static int parse_relation(const unsigned char *doc, DLiteRelation *rel)
+{
+  unsigned char *endptr=NULL;
+  char *ename, *value;
+  int type, stat=0;
+  while ((type = bson_parse(doc, &ename, (void **)&value, NULL, &endptr)) > 0) {
+    if (strcmp(ename, "s") == 0)
+      stat = set_string(&rel->s, ename, type, value);
+    else if (strcmp(ename, "p") == 0)
+      stat = set_string(&rel->p, ename, type, value);
+    else if (strcmp(ename, "o") == 0)
+      stat = set_string(&rel->o, ename, type, value);
+    else if (strcmp(ename, "d") == 0)
+      stat = set_string(&rel->d, ename, type, value);
+    if (stat) return stat;
+  }
+  return type;
+}
+
+/* Read relations from `subdoc` and write them to `rel` of length `len`.
    Returns non-zero on error. */
 static int parse_relations(const unsigned char *subdoc, DLiteRelation *rel,
-                            int len)
+                           int len)
 {
   unsigned char *buf, *endptr=NULL;
-  char *ename;
-  int type, i=0;
-  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL, &endptr))) {
-    if (i++ >= len)
+  int type, i=0, stat;
+  while ((type = bson_parse(subdoc, NULL, (void **)&buf, NULL, &endptr)) > 0) {
+    if (i >= len)
       return err(dliteIndexError, "too many relations in bson, expected %d",
                  len);
     if (type != bsonDocument)
       return err(dliteTypeError, "bson relations should be document, got %s",
                  bson_typename(type));
-    unsigned char *ep=NULL;
-    int e;
-    char *s, *p, *o;
-    if ((e = bson_parse(buf, NULL, (void **)&s, NULL, &ep)) < 0) return e;
-    if ((e = bson_parse(buf, NULL, (void **)&p, NULL, &ep)) < 0) return e;
-    if ((e = bson_parse(buf, NULL, (void **)&o, NULL, &ep)) < 0) return e;
-    rel->s = strdup(s);
-    rel->p = strdup(p);
-    rel->o = strdup(o);
-    rel++;
+    if ((stat = parse_relation(buf, rel + i))) return stat;
+    i++;
   }
+  if (type < 0) return type;
   if (i != len) return err(dliteIndexError, "too few relations in bson, "
                            "got  %d, expected %d", i, len);
   return 0;
@@ -459,65 +526,87 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
 {
   unsigned char *endptr=NULL;
   char *ename, *val;
-  int type;
+  int type, stat;
   size_t ndims=0;
   DLiteDimension *d = meta->_dimensions;
-  while ((type = bson_parse(subdoc, &ename, (void **)&val, NULL, &endptr))) {
-    TYPECHECK("dimension", bsonString);
+  while ((type = bson_parse(subdoc, &ename, (void **)&val, NULL, &endptr)) > 0) {
     if (ndims++ >= meta->_ndimensions)
       return err(dliteIndexError, "too many dimensions in bson, expected %d",
                  (int)meta->_ndimensions);
-    d->name = strdup(ename);
-    d->description = strdup(val);
+    if ((stat = set_string(&d->name, ename, bsonString, ename)) ||
+        (stat = set_string(&d->description, ename, type, val))) return stat;
     d++;
   }
+  if (type < 0) return type;
   if (ndims != meta->_ndimensions)
     return err(dliteIndexError, "too few dimensions in bson, got  %d, "
                "expected %d", (int)ndims, (int)meta->_ndimensions);
   return 0;
 }
 
+/* Read shape from bson array `arr` and assign it to property `p`.
+   Return non-zero on error. */
+static int set_property_shape(DLiteProperty *p, const unsigned char *arr)
+{
+  unsigned char *endptr=NULL;
+  char *value;
+  int ndims, type, stat;
+  if (p->shape)
+    return err(dliteParseError, "multiple shapes of property '%s'", p->name);
+  if ((ndims = bson_nelements(arr)) < 0) return ndims;
+  if (!ndims) return 0;
+  if (!(p->shape = calloc(ndims, sizeof(char *))))
+    return err(dliteMemoryError, "allocation failure");
+  while ((type = bson_parse(arr, NULL, (void **)&value, NULL, &endptr)) > 0) {
+    if (type != bsonString)
+      return err(dliteTypeError, "shape of property '%s' should be strings",
+                 p->name);
+    if ((stat = set_string(p->shape + p->ndims, "shape", type, value)))
+      return stat;
+    p->ndims++;
+  }
+  return type;
+}
+
 /* Read `subdoc` and assign metadata properties. Return non-zero on error. */
- static int set_meta_properties(DLiteMeta *meta, unsigned char *subdoc)
+static int set_meta_properties(DLiteMeta *meta, unsigned char *subdoc)
 {
   unsigned char *buf, *endptr=NULL;
   char *ename;
-  int type;
+  int type, stat;
   size_t nprops=0;
   DLiteProperty *p = meta->_properties;
-  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL, &endptr))) {
+  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL, &endptr)) > 0) {
     unsigned char *bufptr=NULL;
     char *value;
     TYPECHECK("property", bsonDocument);
     if (nprops++ >= meta->_nproperties)
       return err(dliteIndexError, "too many properties in bson, expected %d",
                  (int)meta->_nproperties);
-    p->name = strdup(ename);
-    while ((type = bson_parse(buf, &ename, (void **)&value, NULL, &bufptr))) {
+    if ((stat = set_string(&p->name, ename, bsonString, ename))) return stat;
+    while ((type = bson_parse(buf, &ename, (void **)&value, NULL, &bufptr)) > 0) {
+      stat = 0;
       if (strcmp(ename, "type") == 0) {
         TYPECHECK("type", bsonString);
-        dlite_type_set_dtype_and_size(value, &(p->type), &(p->size));
+        stat = dlite_type_set_dtype_and_size(value, &(p->type), &(p->size));
+      } else if (strcmp(ename, "$ref") == 0) {
+        stat = set_string(&p->ref, ename, type, value);
       } else if (strcmp(ename, "shape") == 0) {
-        unsigned char *b=(unsigned char *)value, *ep=NULL;
-        char *v;
-        int ndims, i=0;
         TYPECHECK("shape", bsonArray);
-        if ((ndims = bson_nelements(b)) < 0) return ndims;
-        p->shape = calloc(ndims, sizeof(char *));
-        while ((type = bson_parse(b, NULL, (void **)&v, NULL, &ep)))
-          p->shape[i++] = strdup(v);
-        p->ndims = ndims;
+        stat = set_property_shape(p, (unsigned char *)value);
       } else if (strcmp(ename, "unit") == 0) {
-        TYPECHECK("unit", bsonString);
-        p->unit = strdup(value);
+        stat = set_string(&p->unit, ename, type, value);
       } else if (strcmp(ename, "description") == 0) {
-        TYPECHECK("description", bsonString);
-        p->description = strdup(value);
+        stat = set_string(&p->description, ename, type, value);
       }
+      if (stat) return stat;
     }
+    if (type < 0) return type;
+    if (!p->size)
+      return err(dliteParseError, "missing type of property '%s'", p->name);
     p++;
   }
-  dlite_meta_init(meta);
+  if (type < 0) return type;
 
   if (nprops != meta->_nproperties)
     return err(dliteIndexError, "too few properties in bson, got  %d, "
@@ -525,35 +614,68 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
   return 0;
 }
 
+/* Assign string property `name` of metadata `meta` if it has such property.
+   Returns non-zero on error. */
+static int set_meta_string(DLiteMeta *meta, const char *name, const char *value)
+{
+  int i;
+  if (!value || !dlite_meta_has_property(meta->meta, name)) return 0;
+  if ((i = dlite_meta_get_property_index(meta->meta, name)) < 0) return i;
+  if (meta->meta->_properties[i].type != dliteStringPtr) return 0;
+  return dlite_instance_set_property((DLiteInstance *)meta, name, &value);
+}
+
 
 /*
-  Set array property `idx` of `inst` from `data`.
-  If `byteswap` is non-zero, the data will by byteswapped.
+  Set array property `idx` of `inst` from `data` of size `datasize` and
+  bson type `type`.  If `byteswap` is non-zero, the data will by byteswapped.
 
   Returns non-zero on error.
  */
 static int set_array_property(DLiteInstance *inst, int idx, void *data,
-                              int byteswap)
+                              int type, size_t datasize, int byteswap)
 {
-   int i, stat, nmemb=1;
-  void *ptr = dlite_instance_get_property_by_index(inst, idx);
+  int i, nmemb=1;
   DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
   assert(p->ndims);
- size_t *shape = DLITE_PROP_DIMS(inst, idx);
+  void *ptr = *(void **)DLITE_PROP(inst, idx);
+  size_t *shape = DLITE_PROP_DIMS(inst, idx);
   for (i=0; i < p->ndims; i++) nmemb *= shape[i];
+
+  if (p->type == dliteRelation) {
+    if (type != bsonArray && type != bsonDocument)
+      return err(dliteTypeError, "expected bson array for property '%s', got %s",
+                 p->name, bson_typename(type));
+    return parse_relations(data, ptr, nmemb);
+  }
+  if (type != bsonBinary)
+    return err(dliteTypeError, "expected bson binary for property '%s', got %s",
+               p->name, bson_typename(type));
+
   switch (p->type) {
   case dliteBlob:
   case dliteBool:
   case dliteFixString:
-  case dliteRef:
-    dlite_instance_set_property_by_index(inst, idx, data);
-    break;
-
   case dliteInt:
   case dliteUInt:
   case dliteFloat:
-    dlite_instance_set_property_by_index(inst, idx, data);
-    if (byteswap) {
+    if (datasize != nmemb * p->size)
+      return err(dliteInconsistentDataError, "expected %d bytes for property "
+                 "'%s', got %d", (int)(nmemb * p->size), p->name, (int)datasize);
+    if (p->type == dliteBool)
+      for (i=0; i < nmemb; i++)
+        if (((unsigned char *)data)[i] > 1)
+          return err(dliteInconsistentDataError, "invalid boolean value in "
+                     "bson property '%s'", p->name);
+    if (p->type == dliteFixString)
+      for (i=0; i < nmemb; i++)
+        if (((char *)data)[(i+1)*p->size - 1])
+          return err(dliteInconsistentDataError, "unterminated string in "
+                     "bson property '%s'", p->name);
+    if (datasize) memcpy(ptr, data, datasize);
+
+    if (byteswap &&
+        (p->type == dliteInt || p->type == dliteUInt || p->type == dliteFloat)) {
       char *q = ptr;
       for (i=0; i<nmemb; i++, q += p->size) {
         switch (p->size) {
@@ -565,64 +687,94 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
         case 16: *((uint128_t *)q) = bswap_128(*((uint128_t *)q)); break;
 #endif
         default:
-          warnx("cannot byteswap property '%s' with type %s and size %d",
-                p->name, dlite_type_get_dtypename(p->type), (int)p->size);
+          return err(dliteUnsupportedError, "cannot byteswap property '%s' "
+                     "with type %s and size %d", p->name,
+                     dlite_type_get_dtypename(p->type), (int)p->size);
         }
       }
     }
     break;
 
   case dliteStringPtr:
+  case dliteRef:
     {
-      char **v = ptr;
-      char *s = *((char **)data);
+      char *s=data, *end=s+datasize;
       for (i=0; i < nmemb; i++) {
-        int n = strlen(s);
-        v[i] = strdup(s);
-        s += n+1;
+        int stat;
+        char *next = (s < end) ? memchr(s, 0, end-s) : NULL;
+        if (!next)
+          return err(dliteInconsistentDataError, "too few elements in bson "
+                     "property '%s'", p->name);
+        if (p->type == dliteStringPtr) {
+          if ((stat = set_string((char **)ptr + i, p->name, bsonString, s)))
+            return stat;
+        } else if (*s) {
+          DLiteInstance **q = (DLiteInstance **)ptr + i;
+          if (*q) dlite_instance_decref(*q);
+          if (!(*q = dlite_instance_get(s)))
+            return err(dliteMissingInstanceError, "cannot find instance '%s' "
+                       "referred to by property '%s'", s, p->name);
+        }
+        s = next + 1;
       }
+      if (s != end)
+        return err(dliteInconsistentDataError, "too many elements in bson "
+                   "property '%s'", p->name);
     }
     break;
 
   case dliteDimension:
   case dliteProperty:
+  case dliteRelation:
     return err(dliteInconsistentDataError, "data instance should not "
                "have a property of type: %s",
                dlite_type_get_enum_name(p->type));
-
-  case dliteRelation:
-    if ((stat = parse_relations(data, ptr, nmemb))) return stat;
-    break;
   }
   return 0;
 }
 
 
 /*
-  Set scalar property `idx` of `inst` from `data` (of BSON type `btype`).
-  If `byteswap` is non-zero, the data will by byteswapped.
+  Set scalar property `idx` of `inst` from `data` of size `datasize`.
+  The bson type of `data` should correspond to the property.
 
   Returns non-zero on error.
  */
-static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
+static int set_scalar_property(DLiteInstance *inst, int idx, void *data,
+                               size_t datasize)
 {
-  int stat;
-  int32_t i32;
-  int64_t i64;
-  uint64_t u64;
-  float64_t f64;
+  int32_t i32=0;
+  int64_t i64=0;
+  uint64_t u64=0;
+  float64_t f64=0;
 #ifdef HAVE_FLOAT128
-  float128_t f128;
+  float128_t f128=0;
 #endif
-  void *ptr = dlite_instance_get_property_by_index(inst, idx);
   DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
+  void *ptr = DLITE_PROP(inst, idx);
   int btype = bsontype(p->type, p->size);
   switch (p->type) {
   case dliteBlob:
-  case dliteBool:
   case dliteFixString:
+    if (datasize != p->size ||
+        (p->type == dliteFixString && ((char *)data)[p->size-1]))
+      return err(dliteInconsistentDataError, "expected %d bytes for property "
+                 "'%s', got %d", (int)p->size, p->name, (int)datasize);
+    memcpy(ptr, data, p->size);
+    break;
+
+  case dliteBool:
+    *((bool *)ptr) = (*(unsigned char *)data) ? true : false;
+    break;
+
   case dliteRef:
-    dlite_instance_set_property_by_index(inst, idx, data);
+    {
+      DLiteInstance **q = ptr;
+      if (*q) dlite_instance_decref(*q);
+      if (!(*q = dlite_instance_get(data)))
+        return err(dliteMissingInstanceError, "cannot find instance '%s' "
+                   "referred to by property '%s'", (char *)data, p->name);
+    }
     break;
 
   case dliteInt:
@@ -646,19 +798,20 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
     switch (p->size) {
     case 1: *((uint8_t *)ptr)  = i32; break;
     case 2: *((uint16_t *)ptr) = i32; break;
-    case 4: *((uint32_t *)ptr) = i32; break;
+    case 4: *((uint32_t *)ptr) = u64; break;
     case 8: *((uint64_t *)ptr) = u64; break;
     }
     break;
 
   case dliteFloat:
-    if (btype == bsonDouble)
-      f64 = le64toh(*((float64_t *)data));
+    if (btype == bsonDouble) {
+      u64 = le64toh(*((uint64_t *)data));
+      memcpy(&f64, &u64, sizeof(f64));
 #ifdef HAVE_FLOAT128
-    else if (btype == bsonDecimal128)
+    } else if (btype == bsonDecimal128) {
       f128 = le128toh(*((float128_t *)data));
 #endif
-    else
+    } else
       return errx(dliteUnsupportedError,
                   "cannot read property '%s' of '%s' from bson, %d bytes "
                   "float is not supported", p->name,
@@ -684,39 +837,82 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
     break;
 
   case dliteStringPtr:
-    *((char **)ptr) = strdup(data);
-    break;
+    return set_string(ptr, p->name, bsonString, data);
+
   case dliteDimension:
   case dliteProperty:
     return err(dliteInconsistentDataError, "data instance should not "
                "have a property of type: %s",
                dlite_type_get_enum_name(p->type));
   case dliteRelation:
-    if ((stat = parse_relations(data, ptr, 1))) return stat;
-    break;
+    return parse_relation(data, ptr);
   }
   return 0;
 }
 
 
+/* Assign dimension values `dims` for an instance of `meta` from `subdoc`.
+   Returns non-zero on error. */
+static int get_dimensions(const DLiteMeta *meta, const unsigned char *subdoc,
+                          size_t *dims)
+{
+  unsigned char *endptr=NULL;
+  char *ename;
+  void *data;
+  int type;
+  size_t ndims=0;
+  while ((type = bson_parse(subdoc, &ename, &data, NULL, &endptr)) > 0) {
+    int32_t v;
+    if (type != bsonInt32)
+      return err(dliteTypeError, "expected dimension values to be bsonInt32, "
+                 "got %s", bson_typename(type));
+    if (ndims >= meta->_ndimensions ||
+        strcmp(ename, meta->_dimensions[ndims].name) != 0)
+      return err(dliteInconsistentDataError, "unexpected dimension '%s' in "
+                 "instance of '%s'", ename, meta->uri);
+    if ((v = le32toh(*((int32_t *)data))) < 0)
+      return err(dliteValueError, "negative value of dimension '%s'", ename);
+    dims[ndims++] = v;
+  }
+  if (type < 0) return type;
+  if (ndims != meta->_ndimensions)
+    return err(dliteInconsistentDataError, "expected %d dimensions, got %d",
+               (int)meta->_ndimensions, (int)ndims);
+  return 0;
+}
+
 
 /*
   Create a new instance from bson document and return it.
+  If the instance already exists, a new reference to it is returned.
   Returns NULL on error.
 */
 DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
 {
   const char *metaid, *uuid, *uri, *id, *byteorder;
-  int i, type, idx, ndims, datasize, byteswap=0;
+  int type, idx, datasize, byteswap=0, ok=0;
   unsigned char *subdoc, *endptr;
-  char *ename;
+  char *ename, *name=NULL, *version=NULL, *namespace=NULL;
   void *data;
   size_t *dims=NULL;
+  DLiteMeta *meta=NULL;
   DLiteInstance *inst=NULL;
-  if (!(metaid = bson_scan_string(doc, "meta", NULL))) goto fail;
+  if (!(metaid = bson_scan_string(doc, "meta", NULL)))
+    FAILCODE(dliteKeyError, "missing \"meta\" in bson data");
   uuid = bson_scan_string(doc, "uuid", NULL);
   uri = bson_scan_string(doc, "uri", NULL);
 
+  if (!(id = (uri) ? uri : (uuid) ? uuid : NULL))
+    FAILCODE(dliteKeyError, "bson data is missing uri and/or uuid");
+  if (uri && uuid) {
+    char buf[DLITE_UUID_LENGTH+1];
+    if (dlite_get_uuid(buf, uri) < 0) goto fail;
+    if (strcmp(buf, uuid) != 0)
+      FAILCODE2(dliteInconsistentDataError, "uri '%s' and uuid '%s' in bson "
+                "data are inconsistent", uri, uuid);
+  }
+  if (dlite_instance_has(id, 0)) return dlite_instance_get(id);
+
   /* Check whether arrays should be byteswapped */
   if ((byteorder = bson_scan_string(doc, "byteorder", NULL))) {
     unsigned char x[]="\x01\x02\x03\x04";
@@ -724,6 +920,11 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
     if (strcmp(byteorder, host_byteorder) != 0) byteswap=1;
   }
 
+  if (!(meta = (DLiteMeta *)dlite_instance_get(metaid)))
+    FAILCODE1(dliteMissingMetadataError, "cannot find metadata '%s'", metaid);
+  if (!dlite_instance_is_meta((DLiteInstance *)meta))
+    FAILCODE1(dliteTypeError, "not a metadata: '%s'", metaid);
+
   /* Get dimensions */
   if ((type = bson_scan(doc, "dimension_values", (void **)&subdoc, NULL)) < 0)
     goto fail;
@@ -736,63 +937,91 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
   if (type != bsonDocument)
     FAILCODE1(dliteKeyError, "expected dimension values to be a bson "
               "document, got %s", bson_typename(type));
-  if ((ndims = bson_nelements(subdoc)) < 0) goto fail;
-  if (!(dims = calloc(ndims, sizeof(size_t))))
+  if (!(dims = calloc(meta->_ndimensions + 1, sizeof(size_t))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  endptr = NULL;
-  i = 0;
-  while ((type = bson_parse(subdoc, &ename, &data, NULL, &endptr))) {
-    if (type != bsonInt32)
-      FAILCODE1(dliteTypeError, "expected dimension values to be bsonInt32, "
-                "got %s", bson_typename(type));
-    dims[i++] = *((int32_t *)data);
+  if (get_dimensions(meta, subdoc, dims)) goto fail;
+
+  if (dlite_meta_is_metameta(meta)) {
+    /* For metadata the dimensions should match the number of elements. */
+    size_t i;
+    for (i=0; i < meta->_ndimensions; i++) {
+      const char *key = meta->_dimensions[i].name + 1;  // skip initial "n"
+      int n=0;
+      if ((type = bson_scan(doc, key, (void **)&subdoc, NULL)) < 0) goto fail;
+      if (type && type != bsonDocument && type != bsonArray)
+        FAILCODE1(dliteTypeError, "expected bson document for '%s'", key);
+      if (type && (n = bson_nelements(subdoc)) < 0) goto fail;
+      if (n != (int)dims[i])
+        FAILCODE3(dliteInconsistentDataError, "expected %d %s, got %d",
+                  (int)dims[i], key, n);
+    }
   }
-  if (i != ndims)
-    FAILCODE2(dliteInconsistentDataError, "expected %d dimensions, got %d",
-              ndims, i);
 
   /* Create instance */
-  if (!(id = (uri) ? uri : (uuid) ? uuid : NULL))
-    FAILCODE(dliteKeyError, "bson data is missing uri and/or uuid");
-  if (!(inst = dlite_instance_create_from_id(metaid, dims, id))) goto fail;
+  if (!(inst = dlite_instance_create(meta, dims, id))) goto fail;
 
   if (dlite_instance_is_meta(inst)) {
     /* Metadata */
-    if ((type = bson_scan(doc, "dimensions", (void **)&subdoc, NULL)) < 0 ||
-        set_meta_dimensions((DLiteMeta *)inst, subdoc)) goto fail;
+    if ((type = bson_scan(doc, "dimensions", (void **)&subdoc, NULL)) < 0)
+      goto fail;
+    if (type && set_meta_dimensions((DLiteMeta *)inst, subdoc)) goto fail;
+
+    if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0)
+      goto fail;
+    if (type && set_meta_properties((DLiteMeta *)inst, subdoc)) goto fail;
 
-    if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0 ||
-        set_meta_properties((DLiteMeta *)inst, subdoc)) goto fail;
+    if (uri && dlite_split_meta_uri(uri, &name, &version, &namespace))
+      goto fail;
+    if (set_meta_string((DLiteMeta *)inst, "name", name) ||
+        set_meta_string((DLiteMeta *)inst, "version", version) ||
+        set_meta_string((DLiteMeta *)inst, "namespace", namespace) ||
+        set_meta_string((DLiteMeta *)inst, "description",
+                        bson_scan_string(doc, "description", NULL))) goto fail;
+    if (dlite_meta_init((DLiteMeta *)inst)) goto fail;
   } else {
     /* Data */
     if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0)
       goto fail;
     if (type != bsonDocument)
       FAILCODE1(dliteTypeError, "expected properties to be a bson document, "
-                "got %s", bson_typename(type));
+                "got %s", (type) ? bson_typename(type) : "nothing");
     endptr = NULL;
-    while ((type = bson_parse(subdoc, &ename, &data, &datasize, &endptr))) {
+    size_t nprops = 0;
+    while ((type = bson_parse(subdoc, &ename, &data, &datasize, &endptr)) > 0) {
       if ((idx = dlite_meta_get_property_index(inst->meta, ename)) < 0)
         goto fail;
+      nprops++;
       if (type == bsonNull) continue;
       DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
-      int btype = bsontype(p->type, p->size);
       if (p->ndims) {
-        if (set_array_property(inst, idx, data, byteswap)) goto fail;
+        if (set_array_property(inst, idx, data, type, datasize, byteswap))
+          goto fail;
       } else {
+        int btype = bsontype(p->type, p->size);
         if (type != btype)
           FAILCODE3(dliteInconsistentDataError, "expected bson type '%s', "
                     "got '%s' for property: %s", bson_typename(btype),
                     bson_typename(type), ename);
-        if (set_scalar_property(inst, idx, data)) goto fail;
+        if (set_scalar_property(inst, idx, data, datasize)) goto fail;
       }
     }
+    if (type < 0) goto fail;
+    if (nprops != inst->meta->_nproperties)
+      FAILCODE2(dliteInconsistentDataError, "expected %d properties, got %d",
+                (int)inst->meta->_nproperties, (int)nprops);
   }
 
-  if (dims) free(dims);
-  return inst;
+  ok = 1;
  fail:
-  if (inst) dlite_instance_decref(inst);
+  if (name) free(name);
+  if (version) free(version);
+  if (namespace) free(namespace);
   if (dims) free(dims);
-  return NULL;
+  if (!ok && inst) {
+    /* Metadata has an extra refcount, so loop until refcount is zero */
+    while (dlite_instance_decref(inst) > 0);
+    inst = NULL;
+  }
+  if (meta) dlite_meta_decref(meta);
+  return inst;
 }
diff --git a/src/utils/bson.c b/src/utils/bson.c
index 886d5fd..9048e06 100644
--- a/src/utils/bson.c
+++ b/src/utils/bson.c
@@ -113,37 +113,11 @@ int bson_docsize(const unsigned char *doc)
  */
 int bson_nelements(const unsigned char *doc)
 {
-  int type, docsize=bson_docsize(doc), n=4, nelements=0;
-  while ((type = doc[n++])) {
-    n += strlen((char *)doc+n) + 1;
-    switch (type) {
-    case bsonDouble:     n += 8;  break;
-    case bsonBool:       n++;     break;
-    case bsonNull:                break;
-    case bsonInt32:      n += 4;  break;
-#ifdef HAVE_INT64
-    case bsonUInt64:     n += 8;  break;
-    case bsonInt64:      n += 8;  break;
-#endif
-#ifdef HAVE_FLOAT128
-    case bsonDecimal128: n += 16; break;
-#endif
-    case bsonDocument:
-    case bsonArray:
-      n += le32toh(*((int32_t *)(doc+n)));
-      break;
-    case bsonString:
-      n += le32toh(*((int32_t *)(doc+n))) + 4;
-      break;
-    case bsonBinary:
-      n += le32toh(*((int32_t *)(doc+n))) + 5;
-      break;
-    }
+  int type, nelements=0;
+  unsigned char *endptr=NULL;
+  while ((type = bson_parse(doc, NULL, NULL, NULL, &endptr)) > 0)
     nelements++;
-    if (n > docsize)
-      return errx(bsonInconsistentDataError, "inconsistent bson document");
-  }
-  return nelements;
+  return (type < 0) ? type : nelements;
 }
 
 
@@ -249,7 +223,7 @@ int bson_append(unsigned char *doc, int bufsize, BsonType type,
   case bsonString:
     *((int32_t *)(doc+n)) = htole32(size+1);
     n += 4;
-    memcpy(doc+n, data, size);
+    if (size) memcpy(doc+n, data, size);
     n += size;
     doc[n++] = '\x00';
     break;
@@ -257,7 +231,7 @@ int bson_append(unsigned char *doc, int bufsize, BsonType type,
     *((int32_t *)(doc+n)) = htole32(size);
     n += 4;
     doc[n++] = '\x00';
-    memcpy(doc+n, data, size);
+    if (size) memcpy(doc+n, data, size);
     n += size;
     break;
   case bsonBool:
@@ -499,19 +473,39 @@ int bson_end_binary(unsigned char *doc, int bufsize)
     the memory that `*data` is assigned to is little endian.  Use `le32toh()`
     family of functions to convert to host byte order or one of the convinient
     `bson_scan_<type>()` functions.
+
+    The size of the document stored in its header is trusted.  No memory
+    outside the document is accessed.
  */
 int bson_parse(const unsigned char *doc, char **ename, void **data,
                int *datasize, unsigned char **endptr)
 {
   const unsigned char *p = (endptr && *endptr) ? *endptr : doc + 4;
-  BsonType type = *(p++);
+  const unsigned char *end;  // pointer to the NUL terminating the document
+  int type, docsize;
   char *_ename;
   void *_data;
   int _datasize;
-  if (!type) return 0;
+
+  if ((docsize = bson_docsize(doc)) < 0) return docsize;
+  end = doc + docsize - 1;
+  if (!doc || p > end || *end)
+    return errx(bsonInconsistentDataError, "inconsistent bson document");
+
+  if (!(type = *(p++))) return 0;
 
   _ename = (char *)p;
-  p += strlen(_ename) + 1;
+  if (p > end || !(p = memchr(p, 0, end - p)))
+    return errx(bsonInconsistentDataError,
+                "unterminated element name in bson document");
+  p++;
+
+#define REQUIRE(n)                                                      \
+  do {                                                                  \
+    if ((n) < 0 || (n) > end - p)                                       \
+      return errx(bsonInconsistentDataError,                            \
+                  "invalid size of bson element '%s'", _ename);         \
+  } while (0)
 
   switch (type) {
   case bsonDouble:
@@ -527,32 +521,50 @@ int bson_parse(const unsigned char *doc, char **ename, void **data,
 #endif
     _datasize = bson_datasize(type);
     assert(_datasize >= 0);
+    REQUIRE(_datasize);
     _data = (void *)p;
     p += _datasize;
     break;
   case bsonString:
-    _datasize = le32toh(*((int32_t *)p)) - 1;
+    REQUIRE(5);
+    _datasize = le32toh(*((int32_t *)p));
     p += 4;
+    REQUIRE(_datasize);
+    if (_datasize < 1 || p[_datasize-1])
+      return errx(bsonInconsistentDataError,
+                  "bson string '%s' is not NUL-terminated", _ename);
     _data = (void *)p;
-    p += _datasize + 1;
+    p += _datasize;
+    _datasize--;
     break;
   case bsonDocument:
   case bsonArray:
+    REQUIRE(5);
     _datasize = le32toh(*((int32_t *)p));
+    REQUIRE(_datasize);
+    if (_datasize < 5 || p[_datasize-1])
+      return errx(bsonInconsistentDataError,
+                  "invalid bson sub-document '%s'", _ename);
     _data = (void *)p;
     p += _datasize;
     break;
   case bsonBinary:
+    REQUIRE(5);
     _datasize = le32toh(*((int32_t *)p));
     p += 4;
     if (*p != '\x00')
       return errx(bsonParseError,
                   "unsupported binary bson subtype: %02x", *p);
     p++;
+    REQUIRE(_datasize);
     _data = (void *)p;
     p += _datasize;
     break;
+  default:
+    return errx(bsonParseError, "unsupported type of bson element '%s': %02x",
+                _ename, type);
   }
+#undef REQUIRE
 
   if (endptr) *endptr = (unsigned char *)p;
   if (ename) *ename = _ename;
@@ -738,7 +750,7 @@ bool bson_scan_bool(const unsigned char *doc, const char *ename,
       *errcode = bsonKeyError;
     }
     return 0;
-  } else if (type != bsonString) {
+  } else if (type != bsonBool) {
     errx(bsonTypeError,
          "expected element '%s' to be boolean, got %s",
          ename, bson_typename(type));
-- 
2.43.0


From 9680c0ff61c3ff561bbfadfc4e119d612a3a6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 012/161] fix: HDF5 shape check, error reporting when saving,
 and id clash and buffer overflow when loading instances

---
 src/dlite-entity.c      | 27 +++++++++++++++++----------
 storages/hdf5/dh5lite.c | 20 ++++++++++----------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 3c0e7e5..e655030 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -424,17 +424,23 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
   /* Check if we are trying to create an instance with an already
      existing id. */
   if (lookup && id && *id && (inst = _instance_store_get(id))) {
-    dlite_instance_incref(inst);
-    warn("trying to create new instance with id '%s' - creates a new "
-        "reference instead (refcount=%d)", id, inst->_refcount);
+    if (strcmp(inst->meta->uuid, meta->uuid) != 0)
+      return err(dliteInconsistentDataError, "trying to create an instance of "
+                 "'%s' with id '%s', but there already exists an instance of "
+                 "'%s' with this id", meta->uri, id, inst->meta->uri), NULL;
 
     /* Check that `dims` corresponds to the dims of the existing instance. */
     for (i=0; i < meta->_ndimensions; i++) {
       if (dims[i] != dlite_instance_get_dimension_size_by_index(inst, i))
-        FAILCODE3(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
-              "but existing instance has size %d", (int)i, (int)dims[i],
-              (int)dlite_instance_get_dimension_size_by_index(inst, i));
+        return err(dliteIndexError, "mismatch of dimension %d. Trying to "
+                   "create with size %d but existing instance has size %d",
+                   (int)i, (int)dims[i],
+                   (int)dlite_instance_get_dimension_size_by_index(inst, i)),
+          NULL;
     }
+    dlite_instance_incref(inst);
+    warn("trying to create new instance with id '%s' - creates a new "
+        "reference instead (refcount=%d)", id, inst->_refcount);
     return inst;
   }
 
@@ -944,8 +950,8 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
 
   /* ...otherwise try to load it from storage */
   if (!meta) {
-    char uuid[DLITE_UUID_LENGTH];
-    dlite_get_uuid(uuid, uri);
+    char uuid[DLITE_UUID_LENGTH+1];
+    if (dlite_get_uuid(uuid, uri) < 0) goto fail;
     meta = (DLiteMeta *)dlite_instance_load(s, uuid);
   }
 
@@ -987,7 +993,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
     size_t *pdims = DLITE_PROP_DIMS(inst, i);
     if (dlite_datamodel_get_property(d, p->name, ptr, p->type, p->size,
 				     p->ndims, pdims)) {
-      dlite_type_clear(ptr, p->type, p->size);
+      if (!p->ndims) dlite_type_clear(ptr, p->type, p->size);
       goto fail;
     }
   }
@@ -1102,7 +1108,8 @@ int dlite_instance_save_loc(const char *driver, const char *location,
   if (!(s = dlite_storage_open(driver, location, options))) goto fail;
   retval = dlite_instance_save(s, inst);
  fail:
-  if (s) dlite_storage_close(s);
+  /* Data may not be written to the storage before it is closed */
+  if (s && dlite_storage_close(s) && !retval) retval = 1;
   return retval;
 }
 
diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index b656221..c32f081 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -202,14 +202,14 @@ static int get_data(const DLiteDataModel *d, hid_t group,
   /* Check that dimensions matches */
   if (dndims == 0 && ndims == 1)
     dndims++;
-  else if (dndims != (int)ndims) {
+  else if (dndims != (int)ndims)
     DFAIL3(dliteIndexError, d, "trying to read '%s' with ndims=%d, but ndims=%d",
            name, (int)ndims, dndims);
+  else
     for (i=0; i<ndims; i++)
       if (ddims[i] != (hsize_t)((shape) ? shape[i] : 1))
         DFAIL4(dliteIndexError, d, "dimension %d of '%s': expected %d, got %d",
                (int)i, name, (shape) ? (int)shape[i] : 1, (int)ddims[i]);
-  }
   for (i=0; i<ndims; i++) nmemb *= (shape) ? shape[i] : 1;
 
   /* Get type of data saved in the hdf5 file */
@@ -455,7 +455,7 @@ dh5_open(const DLiteStoragePlugin *api, const char *uri, const char *options)
   } else if (strcmp(*mode, "rw") == 0) {
     s->root = H5Fopen(uri, H5F_ACC_RDWR, H5P_DEFAULT);
     s->flags |= dliteReadable;
-    s->flags &= ~dliteWritable;
+    s->flags |= dliteWritable;
   } else if (strcmp(*mode, "w") == 0) {
     s->root = H5Fcreate(uri, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     s->flags &= ~dliteReadable;
@@ -639,17 +639,17 @@ int dh5_set_meta_uri(DLiteDataModel *d, const char *uri)
   if (dlite_split_meta_uri(uri, &name, &version, &namespace))
     return 1;
 
-  set_data(d, dh5->meta, "name", name, dliteFixString,
-           strlen(name), 1, shape);
-  set_data(d, dh5->meta, "version", version, dliteFixString,
-           strlen(version), 1, shape);
-  set_data(d, dh5->meta, "namespace", namespace, dliteFixString,
-           strlen(namespace), 1, shape);
+  int stat = (set_data(d, dh5->meta, "name", name, dliteFixString,
+                       strlen(name), 1, shape) ||
+              set_data(d, dh5->meta, "version", version, dliteFixString,
+                       strlen(version), 1, shape) ||
+              set_data(d, dh5->meta, "namespace", namespace, dliteFixString,
+                       strlen(namespace), 1, shape));
 
   free(name);
   free(version);
   free(namespace);
-  return 0;
+  return stat;
 }
 
 
-- 
2.43.0


From b6acf6a7cc4a8780fd21d45815e14e3152208344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 013/161] fix: JSON output lost the uuid of instances without
 uri in single-entity format and did not escape keys

---
 src/dlite-json.c   | 32 +++++++++++++++++++-------------
 src/utils/jstore.c | 22 ++++++++++++++++------
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 1d0f0df..690dbe3 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -96,7 +96,9 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     PRINTQ(inst->uri);
     PRINT(",\n");
   }
-  if (flags & dliteJsonWithUuid)
+  /* In single-entity format, the uuid is the only identity of an
+     instance without uri */
+  if (flags & dliteJsonWithUuid || (flags & dliteJsonSingle && !inst->uri))
     PRINT2("%s  \"uuid\": \"%s\",\n", in, inst->uuid);
   if (flags & dliteJsonWithMeta ||
       dlite_instance_is_data(inst) ||
@@ -336,8 +338,9 @@ int dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     memset(in, ' ', indent);
     in[indent] = '\0';
     PRINT1("%s{\n", in);
-    PRINT2("%s  \"%s\":", in,
-           (flags & dliteJsonUriKey && inst->uri) ? inst->uri : inst->uuid);
+    PRINT1("%s  ", in);
+    PRINTQ((flags & dliteJsonUriKey && inst->uri) ? inst->uri : inst->uuid);
+    PRINT(":");
     if ((m = _dlite_json_sprint(dest+n, PDIFF(size, n), inst, indent+2, flags)) < 0)
       goto fail;
     n += m;
@@ -513,7 +516,8 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
   if ((n = asnpprintf(s, size, pos, "\n  \"%s\": ", inst->uuid)) < 0)
     goto fail;
   pos += n;
-  if ((n = dlite_json_asprint(s, size, pos, inst, 2, flags)) < 0) goto fail;
+  if ((n = dlite_json_asprint(s, size, pos, inst, 2,
+                              flags | dliteJsonSingle)) < 0) goto fail;
   pos += n;
   if ((n = asnpprintf(s, size, pos, "\n}\n")) < 0) goto fail;
   pos += n;
@@ -855,7 +859,8 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
     if (t2) FAIL("`id` (or `metaid`) is required when scanning json input "
                  "with multiple instances");
     jsmntok_t *val = (jsmntok_t *)t1 + 1;
-    buf = strndup(src + t1->start, t1->end - t1->start);
+    if (val->type != JSMN_OBJECT) FAIL("expect json values to be objects");
+    if (!(buf = jsmn_strdup(src, t1))) goto fail;
     inst = parse_instance(src, val, buf);
   } else {
     int n=1;
@@ -865,9 +870,8 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
       char uuid2[DLITE_UUID_LENGTH+1];
       jsmntok_t *key = root + n;
       jsmntok_t *val = root + n+1;
-      int len = key->end - key->start;
       if (key->type != JSMN_STRING) FAIL("expect json keys to be strings");
-      buf = strndup(src+key->start, len);
+      if (!(buf = jsmn_strdup(src, key))) goto fail;
       if (dlite_get_uuid(uuid2, buf) < 0) goto fail;
       free(buf);
       buf = NULL;
@@ -1269,7 +1273,7 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
                   uri, uuid);
       if (!uuid[0]) strncpy(uuid, uuid2, sizeof(uuid));
     }
-    jstore_addn(js, uuid, DLITE_UUID_LENGTH, src, len);
+    if (jstore_addn(js, uuid, DLITE_UUID_LENGTH, src, len)) goto fail;
   } else {
     jsmntok_t *t = tokens + 1;
     int i;
@@ -1278,12 +1282,14 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
 
       /* if `id` is not an uuid, add it as a label associated with
          uuid to the jstore */
-      const char *id = src + t->start;
-      int len = t->end - t->start;
-      if (dlite_get_uuidn(uuid, id, len) < 0)
+      char *id = jsmn_strdup(src, t);
+      if (!id) goto fail;
+      if (dlite_get_uuid(uuid, id) < 0) {
+        free(id);
         goto fail;
-      else if (len != DLITE_UUID_LENGTH || !dlite_isuuid(id))
-        jstore_set_labeln(js, uuid, id, len);
+      } else if (!dlite_isuuid(id))
+        jstore_set_label(js, uuid, id);
+      free(id);
 
       if (jstore_addn(js, uuid, DLITE_UUID_LENGTH,
                       src + v->start, v->end - v->start)) goto fail;
diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index 8f0aa97..c5d5dc7 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -6,6 +6,7 @@
  */
 #include "err.h"
 #include "compat.h"
+#include "strutils.h"
 #include "jstore.h"
 
 
@@ -218,9 +219,13 @@ int jstore_update_from_jsmn(JStore *js, const char *src, jsmntok_t *tok)
   if (tok->type != JSMN_OBJECT) return err(1, "jsmn token must be an object");
   for (i=0; i < tok->size; i++) {
     jsmntok_t *tv = tk+1;
-    if (jstore_addn(js,
-                    src + tk->start, tk->end - tk->start,
-                    src + tv->start, tv->end - tv->start)) return 1;
+    int stat, quote = (tv->type == JSMN_STRING) ? 1 : 0;  // include quotes
+    char *key = jsmn_strdup(src, tk);
+    if (!key) return err(1, "allocation failure");
+    stat = jstore_addn(js, key, 0, src + tv->start - quote,
+                       tv->end - tv->start + 2*quote);
+    free(key);
+    if (stat) return 1;
     tk += jsmn_count(tv) + 2;
   }
   return 0;
@@ -287,16 +292,21 @@ char *jstore_to_string(JStore *js)
   if ((m = asnpprintf(&buf, &size, n, "{")) < 0) goto fail;
   n += m;
   while ((key = map_next(&js->store, &iter))) {
-    char **q, *sep = (count++ > 0) ? "," : "";
+    char **q, *quoted, *sep = (count++ > 0) ? "," : "";
     if (!(q = map_get(&js->store, key))) goto fail;
-    if ((m = asnpprintf(&buf, &size, n, "%s\n  \"%s\": %s",
-                        sep, key, *q)) < 0) goto fail;
+    if ((m = strquote(NULL, 0, key)) < 0) goto fail;
+    if (!(quoted = malloc(m + 1))) goto fail;
+    strquote(quoted, m + 1, key);
+    m = asnpprintf(&buf, &size, n, "%s\n  %s: %s", sep, quoted, *q);
+    free(quoted);
+    if (m < 0) goto fail;
     n += m;
   }
   if ((m = asnpprintf(&buf, &size, n, "\n}\n")) < 0) goto fail;
   n += m;
   return buf;
  fail:
+  if (buf) free(buf);
   return err(1, "error creating json string"), NULL;
 }
 
-- 
2.43.0


From 6538b1dd6e591454b8929e471739e4073bcff2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 014/161] fix: JSON storage could not create files in append
 mode and lost metadata or data saved in mixed formats

---
 storages/json/dlite-json-storage.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 035aabb..9ac8171 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -10,6 +10,7 @@
 #include "utils/err.h"
 #include "utils/strtob.h"
 #include "utils/jstore.h"
+#include "utils/fileutils.h"
 #include "utils/map.h"
 #include "dlite.h"
 #include "dlite-storage-plugins.h"
@@ -156,7 +157,9 @@ DLiteStorage *json_loader(const DLiteStoragePlugin *api, const char *uri,
   if (load) {
     DLiteJsonFormat fmt;
     if (!(s->jstore = jstore_open())) goto fail;
-    if (uri)
+    if (uri && mode == 'a' && fu_exists(uri))
+      fmt = dliteJsonDataFormat;  // new file
+    else if (uri)
       fmt = dlite_jstore_loadf(s->jstore, uri);
     else
       fmt = dlite_jstore_loads(s->jstore, (const char *)buf, size);
@@ -289,7 +292,7 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
               "storage \"%s\" is not writable", s->location);
 
   /* If single/multi format is not given, infer it from `inst` */
-  if (!js->fmt_given && dlite_instance_is_meta(inst))
+  if (!js->fmt_given && !js->jstore && dlite_instance_is_meta(inst))
     jflags |= dliteJsonSingle;
 
   if (jflags & dliteJsonSingle) {
@@ -300,10 +303,14 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
     int n = dlite_json_printfile(s->location, inst, jflags);
     stat = (n > 0) ? 0 : 1;
   } else {
+    if (!js->jstore && js->changed)
+      FAILCODE1(dliteStorageSaveError,
+                "Trying to save after a save in single-entity format: %s",
+                s->location);
     if (!js->jstore && !(js->jstore = jstore_open())) goto fail;
     stat = dlite_jstore_add(js->jstore, inst, jflags);
   }
-  js->changed = 1;
+  if (!stat) js->changed = 1;
  fail:
   return stat;
 }
-- 
2.43.0


From 18435cecf0722a828ec7a6818064b97923cb312e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 015/161] fix: empty strings in relations were read as NULL

---
 src/dlite-type.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 9432e84..be1cfa8 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -976,8 +976,8 @@ int dlite_type_aprint(char **dest, size_t *n, size_t pos, const void *p,
 #define MAX_PROPERTY_TOKENS  64  // this supports at least 50 dimensions...
 #define MAX_RELATION_TOKENS  11
 
-/* Macro used by dlite_type_scan() to asign `target` when scanning a
-   relation. */
+/* Macro used by dlite_type_scan() to asign the optional field `target` when
+   scanning a relation. */
 #define SET_RELATION(target, t, src)                                    \
   target = (t->end > t->start) ? jsmn_strdup(src, t) : NULL;
 
@@ -1266,11 +1266,11 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       m = tokens->end - tokens->start;
       if (tokens->type == JSMN_ARRAY) {
         if (!(t = jsmn_element(src, tokens, 0))) return -1;
-        SET_RELATION(rel->s, t, src);
+        if (!(rel->s = jsmn_strdup(src, t))) return -1;
         if (!(t = jsmn_element(src, tokens, 1))) return -1;
-        SET_RELATION(rel->p, t, src);
+        if (!(rel->p = jsmn_strdup(src, t))) return -1;
         if (!(t = jsmn_element(src, tokens, 2))) return -1;
-        SET_RELATION(rel->o, t, src);
+        if (!(rel->o = jsmn_strdup(src, t))) return -1;
         if (tokens->size > 3 && (t = jsmn_element(src, tokens, 3))) {
           SET_RELATION(rel->d, t, src);
         }
@@ -1279,11 +1279,11 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         }
       } else if (tokens->type == JSMN_OBJECT) {
         if (!(t = jsmn_item(src, tokens, "s"))) return -1;
-        SET_RELATION(rel->s, t, src);
+        if (!(rel->s = jsmn_strdup(src, t))) return -1;
         if (!(t = jsmn_item(src, tokens, "p"))) return -1;
-        SET_RELATION(rel->p, t, src);
+        if (!(rel->p = jsmn_strdup(src, t))) return -1;
         if (!(t = jsmn_item(src, tokens, "o"))) return -1;
-        SET_RELATION(rel->o, t, src);
+        if (!(rel->o = jsmn_strdup(src, t))) return -1;
         if ((t = jsmn_item(src, tokens, "d"))) {
           SET_RELATION(rel->d, t, src);
         }
-- 
2.43.0


From 71d922ce48683f1e835c36d9be4aba93d7097aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 016/161] fix: NULL references in BSON arrays could not be read
 back

---
 src/dlite-bson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 334b987..48fac5c 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -185,7 +185,7 @@ static int append_property(unsigned char *buf, int bufsize,
           DLiteInstance *ref = ((DLiteInstance **)ptr)[i];
           char uuid[DLITE_UUID_LENGTH+1]="";
           if (ref) memcpy(uuid, ref->uuid, sizeof(uuid));
-          if ((m = bson_append_binary(subdoc, bufsize-n, DLITE_UUID_LENGTH+1,
+          if ((m = bson_append_binary(subdoc, bufsize-n, strlen(uuid)+1,
                                       uuid)) < 0) return m;
           n += m;
         }
-- 
2.43.0


From 68c8dc5381d3c7c39aa0a346701b13140a1b02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 017/161] fix: shape expressions: report division by zero,
 unbalanced parentheses and misplaced operands

---
 src/utils/infixcalc.c | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index a394f92..29b45f1 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -185,6 +185,10 @@ static int poll(Stack *stack)
 
 static int binary_eval(Operator op, int arg1, int arg2)
 {
+  /* the only quotient that cannot be represented (traps on some platforms) */
+  if ((op == '/' || op == '%') && arg2 == -1)
+    return (op == '/') ? (int)(0U - (unsigned)arg1) : 0;
+
   switch (op) {
   case '|':  return arg1 || arg2;
   case '&':  return arg1 && arg2;
@@ -254,6 +258,10 @@ static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
   if (opinfo->nargs == 2) {
     int arg2 = pop(vstack);
     int arg1 = pop(vstack);
+    if ((op == '/' || op == '%') && arg2 == 0) {
+      snprintf(err, errlen, "division by zero");
+      return -1;
+    }
     value = binary_eval(op, arg1, arg2);
   } else {
     snprintf(err, errlen, "%lu-ary operators are not implemented",
@@ -284,7 +292,9 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
   TokenValue token;
   Operator op;
   int result=INT_MIN;
+  int operand=0;  /* whether the previous token ends an operand */
 
+  if (!err) errlen = 0;
   if (err && errlen) err[0] = '\0';
   memset(&vstack, 0, sizeof(vstack));
   memset(&ostack, 0, sizeof(ostack));
@@ -298,6 +308,21 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
                (int)(p - expr), expr);
       goto fail;
     }
+
+    /* Values and start parentheses must not follow directly after an
+       operand, while all other tokens must. */
+    if (token.type == typeVal || token.u.op == '(') {
+      if (operand) {
+        snprintf(err, errlen, "missing operator in expression \"%s\"", expr);
+        goto fail;
+      }
+    } else if (!operand) {
+      snprintf(err, errlen, "missing operand before '%c' in expression \"%s\"",
+               token.u.op, expr);
+      goto fail;
+    }
+    operand = (token.type == typeVal || token.u.op == ')');
+
     switch (token.type) {
     case typeVal:
       push(&vstack, token.u.val);
@@ -309,14 +334,16 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
         push(&ostack, token.u.op);
         break;
       case ')':
-        while ((op = pop(&ostack)) != '(') {
-          if (!ostack.len) {
-            snprintf(err, errlen,
-                     "missing start parenthesis in expression \"%s\"", expr);
-            goto fail;
-          }
+        while (ostack.len && poll(&ostack) != '(') {
+          op = pop(&ostack);
           if (eval(op, &vstack, err, errlen)) goto fail;
         }
+        if (!ostack.len) {
+          snprintf(err, errlen,
+                   "missing start parenthesis in expression \"%s\"", expr);
+          goto fail;
+        }
+        pop(&ostack);
         break;
       default:
         opinfo = get_opinfo(token.u.op);
-- 
2.43.0


From 805de867d77e85da15ef896f6f32988e78e15803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 018/161] fix: report invalid or negative property dimension
 expressions

---
 src/dlite-entity.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index e655030..2f99613 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -394,10 +394,13 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
     DLiteProperty *p = meta->_properties + i;
     int j;
     char errmsg[256] = "";
-    for (j=0; j < p->ndims; j++)
-      propdims[n++] = infixcalc(p->shape[j], vars, meta->_ndimensions,
-                                errmsg, sizeof(errmsg));
-    if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+    for (j=0; j < p->ndims; j++) {
+      int size = infixcalc(p->shape[j], vars, meta->_ndimensions,
+                           errmsg, sizeof(errmsg));
+      if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+      if (size < 0) FAILCODE2(dliteValueError, "negative size (%d) of property dimension: %s", size, p->shape[j]);
+      propdims[n++] = size;
+    }
   }
   assert(n == meta->_npropdims);
 
-- 
2.43.0


From b325acf86789c04bbf000363a5b8da70279802ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 019/161] fix: globmatch: character classes with non-ASCII
 bytes and excluding the final bracket

---
 src/utils/globmatch.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/globmatch.c b/src/utils/globmatch.c
index 6197335..79480b7 100644
--- a/src/utils/globmatch.c
+++ b/src/utils/globmatch.c
@@ -36,7 +36,7 @@
 #include "globmatch.h"
 
 # define CHECK_BIT( tab, bit ) ( tab[ (bit)/8 ] & (1<<( (bit)%8 )) )
-# define BITLISTSIZE 16 /* bytes used for [chars] in compiled expr */
+# define BITLISTSIZE 32 /* bytes used for [chars] in compiled expr */
 
 static void globchars();
 
@@ -73,9 +73,9 @@ int globmatch(const char *pattern, const char *string)
                 while( here == c || *c != ']' );
                 c++;
 
-                /* build character class bitlist */
+                /* build character class bitlist (excluding the final ']') */
 
-                globchars( here, c, bitlist );
+                globchars( here, c - 1, bitlist );
 
                 if( !CHECK_BIT( bitlist, *(unsigned char *)s ) )
                         return 1;
@@ -143,11 +143,11 @@ char *s, *e, *b;
 
                 if( s+2 < e && s[1] == '-' )
                 {
-                        for( c = s[0]; c <= s[2]; c++ )
+                        for( c = (unsigned char)s[0]; c <= (unsigned char)s[2]; c++ )
                                 b[ c/8 ] |= (1<<(c%8));
                         s += 3;
                 } else {
-                        c = *s++;
+                        c = (unsigned char)*s++;
                         b[ c/8 ] |= (1<<(c%8));
                 }
         }
-- 
2.43.0


From 7aabd9c824a298514dc781db01ec3cfd2b4a9832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 020/161] fix: dlite_join_url(): do not interpret backslashes
 in the location

---
 src/dlite-misc.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 926a8a1..74ac9ef 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -449,13 +449,15 @@ int dlite_option_parse(char *options, DLiteOpt *opts, DLiteOptFlag flags)
 char *dlite_join_url(const char *driver, const char *location,
                      const char *options, const char *fragment)
 {
-  TGenBuf s;
-  tgen_buf_init(&s);
-  if (driver) tgen_buf_append_fmt(&s, "%s://", driver);
-  tgen_buf_append(&s, location, -1);
-  if (options) tgen_buf_append_fmt(&s, "?%s", options);
-  if (fragment) tgen_buf_append_fmt(&s, "#%s", fragment);
-  return tgen_buf_steal(&s);
+  char *url;
+  if (!location) location = "";
+  if (!(url = aprintf("%s%s%s%s%s%s%s",
+                      driver ? driver : "", driver ? "://" : "",
+                      location,
+                      options ? "?" : "", options ? options : "",
+                      fragment ? "#" : "", fragment ? fragment : "")))
+    err(dliteMemoryError, "allocation failure");
+  return url;
 }
 
 
-- 
2.43.0


From cebba0002529c01f748aa7262f612be65c437151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 021/161] fix: urlsplitn(): only consider the first len bytes

---
 src/utils/urlsplit.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index c3b8e68..2492a77 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -94,9 +94,35 @@ int urlsplit(const char *url, UrlComponents *components)
 int urlsplitn(const char *url, int len, UrlComponents *components)
 {
   int n=0;
-  if (len == 0) return 0;
-  if (len < 0) len = (int)strlen(url);
   if (components) memset(components, 0, sizeof(UrlComponents));
+  if (len == 0) return 0;
+  if (len > 0) {
+    /* Parse a NUL-terminated copy, such that nothing after the `len`
+       first bytes is considered. */
+    char *copy = malloc(len+1);
+    if (!copy) return 0;
+    memcpy(copy, url, len);
+    copy[len] = '\0';
+    if ((int)strlen(copy) < len ||
+        urlsplitn(copy, -1, components) != len) {
+      free(copy);
+      return 0;
+    }
+    if (components) {
+      /* let the components refer to `url` */
+      const char **ptrs[] = {
+        &components->scheme, &components->authority, &components->userinfo,
+        &components->host, &components->port, &components->path,
+        &components->query, &components->fragment
+      };
+      size_t i;
+      for (i=0; i < sizeof(ptrs)/sizeof(ptrs[0]); i++)
+        if (*ptrs[i]) *ptrs[i] = url + (*ptrs[i] - copy);
+    }
+    free(copy);
+    return len;
+  }
+  len = (int)strlen(url);
 
   /* check scheme */
   if (components) components->scheme = url;
-- 
2.43.0


From 2f03f5d257e22c430b0fc27d7a280ef1da264f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 022/161] fix: string list of 32 elements aborts

---
 src/utils/strutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 4fc8279..4db9a22 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -759,7 +759,7 @@ static char **_strlst_insert(char **strlst, size_t *n, const char *s, int i,
   if (!strlst || !*n) {
     m = CHUNK_SIZE;
     if (!(q = calloc(m, sizeof(char *)))) goto fail;
-  } else if (m < len+1) {
+  } else if (m < len+2) {
     m += CHUNK_SIZE;
     if (!(q = realloc(strlst, m*sizeof(char *)))) goto fail;
   }
-- 
2.43.0


From e868ce119a1f69268487384c6738343202311190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 023/161] fix: semantic versions: length limit, leading zeros
 and pre-release ordering

---
 src/utils/strutils.c | 48 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 4db9a22..8220b78 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -931,6 +931,17 @@ int strchk_semver(const char *v)
 int strnchk_semver(const char *v, size_t n)
 {
   size_t m=0;
+  if (strnlen(v, n) == n && n > 0) {
+    /* check a NUL-terminated copy, to only look at the first `n` bytes */
+    int stat;
+    char *copy = malloc(n+1);
+    if (!copy) return -1;
+    memcpy(copy, v, n);
+    copy[n] = '\0';
+    stat = strnchk_semver(copy, n+1);
+    free(copy);
+    return stat;
+  }
   /* Major number */
   if (n < 5) return -1;
   if (!isdigit(v[m])) return -1;
@@ -952,9 +963,13 @@ int strnchk_semver(const char *v, size_t n)
   if (m == n) return m;
   if (v[m] == '-') {
     do {
+      size_t start=m+1, ndigits;
       if (n <= ++m) return -1;
       if (!isalnum(v[m]) && v[m] != '-') return -1;
       while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
+      ndigits = strspn(v+start, "0123456789");
+      if (v[start] == '0' && ndigits > 1 && ndigits == m-start)
+        return -1;  // numeric identifiers must not have leading zeros
     } while (v[m] == '.');
   }
   /* Build */
@@ -1017,7 +1032,7 @@ int strncmp_semver(const char *v1, const char *v2, size_t n)
   if (d) return (d < 0) ? -1 : 1;
   while (isdigit(v1[n1]) && n1 < n) n1++;
   while (isdigit(v2[n2]) && n2 < n) n2++;
-  assert(n1 == n2);
+  if (n1 != n2) return 0;  // not valid version numbers
   m = n1;
   /* Compare pre-release */
   if (m > n) return 0;
@@ -1026,23 +1041,32 @@ int strncmp_semver(const char *v1, const char *v2, size_t n)
   if (!pr1 && pr2) return -1;
   if (pr1 && !pr2) return 1;
   if (pr1 && pr2) {
+    size_t m1=m, m2=m;
     do {
       size_t d1, d2;
-      if (m < n) m++;
-      for (n1=m; (isalnum(v1[n1]) || v1[n1] == '-') && n1 < n; n1++);
-      for (n2=m; (isalnum(v2[n2]) || v2[n2] == '-') && n2 < n; n2++);
-      for (d1=m; (isdigit(v1[d1])) && d1 < n; d1++);
-      for (d2=m; (isdigit(v2[d2])) && d2 < n; d2++);
+      if (m1 < n) m1++;
+      if (m2 < n) m2++;
+      for (n1=m1; (isalnum(v1[n1]) || v1[n1] == '-') && n1 < n; n1++);
+      for (n2=m2; (isalnum(v2[n2]) || v2[n2] == '-') && n2 < n; n2++);
+      for (d1=m1; (isdigit(v1[d1])) && d1 < n; d1++);
+      for (d2=m2; (isdigit(v2[d2])) && d2 < n; d2++);
       if (d1 == n1 && d2 == n2) {
-        d = natoi(v1+m, n-m) - natoi(v2+m, n-m);
+        d = natoi(v1+m1, n-m1) - natoi(v2+m2, n-m2);
+      } else if (d1 == n1) {
+        d = -1;  // numeric identifiers are lower than alphanumeric
+      } else if (d2 == n2) {
+        d = 1;
       } else {
-        d = strncmp(v1+m, v2+m, MIN(n1, n2)-m);
-        if (d == 0) d = n1 - n2;
+        d = strncmp(v1+m1, v2+m2, MIN(n1-m1, n2-m2));
+        if (d == 0) d = (int)(n1-m1) - (int)(n2-m2);
       }
       if (d) return (d < 0) ? -1 : 1;
-      assert(n1 == n2);
-      m = n1;
-    } while (v1[n1] == '.' && v2[n2] == '.');
+      m1 = n1;
+      m2 = n2;
+    } while (m1 < n && m2 < n && v1[m1] == '.' && v2[m2] == '.');
+    /* A larger set of identifiers is higher than a smaller set */
+    if (m1 < n && v1[m1] == '.') return 1;
+    if (m2 < n && v2[m2] == '.') return -1;
   }
   return 0;
 }
-- 
2.43.0


From 436460b68bbc734a43e5cad0eda04304103c84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 024/161] fix: fu_nextpath() no longer reads past the end of
 lists ending with repeated separators

---
 src/utils/fileutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 467feae..b3ab344 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -447,7 +447,7 @@ const char *fu_nextpath(const char *paths, char **endptr, const char *pathsep)
 
   /* ignore repeated path separators */
   if (*p) {
-    while (strchr((pathsep) ? pathsep : ";:", *p)) p++;
+    while (*p && strchr((pathsep) ? pathsep : ";:", *p)) p++;
   }
 
   if (pathsep) {
-- 
2.43.0


From e863a15a23f08095b9cb350dc7b2c5f9c237a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 025/161] fix: path conversions respect the buffer size and
 terminate collapsed separators

---
 src/utils/fileutils.c | 52 ++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index b3ab344..44ba24d 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -484,6 +484,14 @@ const char *fu_nextpath(const char *paths, char **endptr, const char *pathsep)
 }
 
 
+/* Copies `src` to `dest`, but writes no more than `size` bytes. */
+static void copy_truncated(char *dest, const char *src, size_t size)
+{
+  if (!size) return;
+  strncpy(dest, src, size-1);
+  dest[size-1] = '\0';
+}
+
 /*
   Converts `path` to a valid Windows path and return a pointer to the result.
 
@@ -504,31 +512,37 @@ char *fu_winpath(const char *path, char *dest, size_t size, const char *pathsep)
   char *q, *d, *endptr=NULL;
   const char *p;
   int n=0;
-  if (!dest) {
-    size = strlen(path) + 3;
-    for (p=path; *p; p++) if (strchr(";:", *p)) size += 2;
-    if (!(dest = malloc(size))) return err(1, "allocation failure"), NULL;
+  if (dest) {
+    if (!(q = fu_winpath(path, NULL, 0, pathsep))) return NULL;
+    copy_truncated(dest, q, size);
+    free(q);
+    return dest;
   }
+  size = strlen(path) + 3;
+  for (p=path; *p; p++) if (strchr(";:", *p)) size += 2;
+  if (!(dest = malloc(size))) return err(1, "allocation failure"), NULL;
+  *dest = '\0';
   while ((p = fu_nextpath(path, &endptr, pathsep))) {
     int len = endptr - p;
     if (!fu_iswinpath(p, len) && isurln(p, len)) {
       n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
     } else {
+      char *start = dest + n;
       if (globmatch("/[a-zA-Z]/*", p) == 0) {
         n += snprintf(dest+n, POS(size-n), "%c:\\%.*s", toupper(p[1]),
                       len-3, p+3);
       } else {
         n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
       }
-      if (*endptr) n += snprintf(dest+n, POS(size-n), ";");
-      for (q=dest; *q; q++) if (*q == '/') *q = '\\';
+      /* Convert forward to backward slashes and remove repeated dirsep's */
+      for (q=start; *q; q++) if (*q == '/') *q = '\\';
+      for (d=q=start; *q; d++, q++) {
+        while (*q == '\\' && *(q+1) == '\\') q++, n--;
+        *d = *q;
+      }
+      *d = '\0';
     }
-  }
-
-  /* Remove repeated dirsep's */
-  for (d=q=dest; *q; d++, q++) {
-    while (*q == '\\' && *(q+1) == '\\') q++;
-    *d = *q;
+    if (*endptr) n += snprintf(dest+n, POS(size-n), ";");
   }
   return dest;
 }
@@ -557,10 +571,16 @@ char *fu_unixpath(const char *path, char *dest, size_t size,
   char sep = (pathsep) ? (strchr(pathsep, ':')) ? ':' : pathsep[0] : ':';
 
   int n=0;
-  if (!dest) {
-    size = strlen(path) + 1;
-    if (!(dest = malloc(size))) return err(1, "allocation failure"), NULL;
+  if (dest) {
+    char *buf = fu_unixpath(path, NULL, 0, pathsep);
+    if (!buf) return NULL;
+    copy_truncated(dest, buf, size);
+    free(buf);
+    return dest;
   }
+  size = strlen(path) + 1;
+  if (!(dest = malloc(size))) return err(1, "allocation failure"), NULL;
+  *dest = '\0';
   while ((p = fu_nextpath(path, &endptr, pathsep))) {
     int len = endptr - p;
 
@@ -581,7 +601,7 @@ char *fu_unixpath(const char *path, char *dest, size_t size,
       }
       /* Convert backward to forward slashes and remove repeated dirsep's */
       for (q=start; *q; q++) if (*q == '\\') *q = '/';
-      for (d=q=dest; *q; d++, q++) {
+      for (d=q=start; *q; d++, q++) {
         while (*q == '/' && *(q+1) == '/') q++, n--;
         *d = *q;
       }
-- 
2.43.0


From c55b4f82b8281bf99f6b0f456f4c35a83d2725dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 026/161] fix: dirname of files in the root directory and stem
 of paths without directory

---
 src/utils/fileutils.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 44ba24d..ca837f4 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -313,8 +313,13 @@ char *fu_dirname(const char *path)
   char *p, *q;
   assert(path);
   if (!(p = strdup(path))) return err(1, "allocation failure"), NULL;
-  if ((q = fu_lastsep(p)) && q > p) *q = '\0';
-  if (!q) *p = '\0';
+  q = fu_lastsep(p);
+  if (!q)
+    *p = '\0';
+  else if (q > p)
+    *q = '\0';
+  else
+    q[1] = '\0';  // keep the root directory
   return p;
 }
 
@@ -334,14 +339,11 @@ char *fu_basename(const char *path)
 */
 char *fu_stem(const char *path)
 {
-  char *p;
-  if ((p = fu_lastsep(path)) && *p) {
-    p++;
-    const char *ext = fu_fileext(p);
-    if (ext && *ext) return strndup(p, ext - p - 1);
-    return strdup(p);
-  }
-  return strdup(path);
+  const char *p = fu_lastsep(path);
+  p = (p && *p) ? p+1 : path;
+  const char *ext = fu_fileext(p);
+  if (ext && *ext) return strndup(p, ext - p - 1);
+  return strdup(p);
 }
 
 /*
-- 
2.43.0


From 38d441e40b21babeb2b67a90f60bada7039bfe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 027/161] fix: fu_paths_remove_index() out of range by one

---
 src/utils/fileutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index ca837f4..ffaf4b7 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -1124,7 +1124,7 @@ int fu_paths_extend_prefix(FUPaths *paths, const char *prefix,
  */
 int fu_paths_remove_index(FUPaths *paths, int index)
 {
-  if (index < -(int)(paths->n) || index >= (int)paths->n+1)
+  if (index < -(int)(paths->n) || index >= (int)paths->n)
     return err(-1, "path index out of range: %d", index);
   if (index < 0) index += paths->n;
   assert(paths->paths[index]);
-- 
2.43.0


From 5027efa592f5aa38c8c61276ce34570802ae9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 028/161] fix: fu_nextmatch() leaked the directory of file urls

---
 src/utils/fileutils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index ffaf4b7..e543cfa 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -1292,6 +1292,7 @@ const char *fu_nextmatch(FUIter *iter)
         strcpy(iter->path, path);
         strcat(iter->path, dirsep);
         strcat(iter->path, filename);
+        if (tmppath) free(tmppath);
         fu_friendly_dirsep(iter->path);
         if (iter->path[0] == '.' && iter->path[1] == iter->dirsep)
           return iter->path+2;
-- 
2.43.0


From c7eda669e8fd175362d4f923bf9a23f34cba836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 029/161] fix: fu_paths_set_platform() returns the previous
 platform when nothing changes

---
 src/utils/fileutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index e543cfa..185748c 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -867,7 +867,7 @@ FUPlatform fu_paths_set_platform(FUPaths *paths, FUPlatform platform)
   if (platform == fuNative)
     platform = fu_native_platform();
   if (platform == paths->platform)
-    return 0;
+    return prev;
   paths->platform = platform;
   if (paths->pathsep) free((void *)paths->pathsep);
   paths->pathsep = strdup(fu_pathsep(platform));
-- 
2.43.0


From fcd678f80b0e1384547a980b0e7ca2066165fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 030/161] fix: fu_paths_extend_prefix() looked past the current
 path when checking if it is absolute

---
 src/utils/fileutils.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 185748c..0bb62a4 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -607,6 +607,7 @@ char *fu_unixpath(const char *path, char *dest, size_t size,
         while (*q == '/' && *(q+1) == '/') q++, n--;
         *d = *q;
       }
+      *d = '\0';
     }
     /* add separator */
     if (*endptr) n += snprintf(dest+n, POS(size-n), "%c", sep);
@@ -1102,10 +1103,15 @@ int fu_paths_extend_prefix(FUPaths *paths, const char *prefix,
   int stat=0;
   while ((p = fu_nextpath(s, &endptr, pathsep))) {
     int len = endptr - p;
-    if (fu_isabs(p)) {
+    int isabs;
+    char buf[1024];
+    if (len >= (int)sizeof(buf))
+      return err(-1, "path exeeds buffer size: %.*s", len, p);
+    snprintf(buf, sizeof(buf), "%.*s", len, p);
+    isabs = fu_isabs(buf);  // check only the current path, not the rest of `s`
+    if (isabs) {
       if ((stat = fu_paths_appendn(paths, p, len)) < 0) return stat;
     } else {
-      char buf[1024];
       int n = snprintf(buf, sizeof(buf), "%s/%.*s", prefix, len, p);
       if (n < 0) return err(-1, "unexpected error in snprintf()");
       if (n >= (int)sizeof(buf) - 1)
-- 
2.43.0


From 9840525f9e9b2409435a7549dde6c2b10d013a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 031/161] fix: jsmn_parse_alloc() leaked the tokens when
 parsing fails

---
 src/utils/jsmnx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index bb8e097..9d761ed 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -66,6 +66,12 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
 
   ntokens = jsmn_parse(parser, js, len, tokens, ntokens);
   assert(ntokens != JSMN_ERROR_NOMEM);
+  if (ntokens < 0) {
+    /* nothing to return, so release the tokens */
+    free(tokens);
+    *tokens_ptr = NULL;
+    *num_tokens_ptr = 0;
+  }
   return ntokens;
 }
 
-- 
2.43.0


From a4489cff7deaed7384ecbc0cca17d3eb7cd9e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 032/161] fix: jstore_update_from_string() printed unterminated
 buffers in error messages

---
 src/utils/jstore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index c5d5dc7..f46a54c 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -242,8 +242,8 @@ int jstore_update_from_string(JStore *js, const char *buf, int len)
   jsmn_init(&parser);
   r = jsmn_parse_alloc(&parser, buf, len, &tokens, &ntokens);
   if (r < 0) {
-    return err(1, "error parsing JSON buffer \"%.70s\": %s",
-               buf, jsmn_strerror(r));
+    return err(1, "error parsing JSON buffer \"%.*s\": %s",
+               (len < 70) ? len : 70, buf, jsmn_strerror(r));
   }
   stat = jstore_update_from_jsmn(js, buf, tokens);
   free(tokens);
-- 
2.43.0


From 391c7e26db4b561b902f41a34da59ee459269448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:36 +0000
Subject: [PATCH 033/161] fix: a session set as default is shared, not copied

---
 src/utils/session.c | 82 +++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 36 deletions(-)

diff --git a/src/utils/session.c b/src/utils/session.c
index b32af67..20f038a 100644
--- a/src/utils/session.c
+++ b/src/utils/session.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <stdlib.h>
 #include "map.h"
 #include "err.h"
 #include "session.h"
@@ -28,23 +29,27 @@ struct _Session {
   map_state_t states;      // map state names to states
 };
 
-typedef map_t(Session) map_session_t;
+typedef map_t(Session *) map_session_t;
 
 
 /* Global session store */
 static map_session_t _sessions;
 
-/* Number of sessions */
-static int _sessions_count=0;
-
-/* Returns pointer to `_sessions`.  Initialise it if needed. */
+/* Returns pointer to `_sessions`, which is initialised at start and when
+   the last session is freed. */
 static map_session_t *get_sessions(void)
 {
-  if (!_sessions_count)
-    map_init(&_sessions);
   return &_sessions;
 }
 
+/* Returns pointer to session stored under key `id` or NULL if no such
+   session exists. */
+static Session *lookup(const char *id)
+{
+  Session **sp = map_get(get_sessions(), id);
+  return (sp) ? *sp : NULL;
+}
+
 
 /*
   Create a new session with given `session_id`.
@@ -53,24 +58,22 @@ static map_session_t *get_sessions(void)
 */
 Session *session_create(const char *session_id)
 {
-  map_session_t *sessions = get_sessions();
-  Session s, *sp;
-  memset(&s, 0, sizeof(s));
-  if (map_get(sessions, session_id))
+  Session *s;
+  if (lookup(session_id))
     return errx(-15, "cannot create new session with existing session id: %s",
                 session_id), NULL;
-  if (!(s.session_id = strdup(session_id)))
+  if (!(s = calloc(1, sizeof(Session))) ||
+      !(s->session_id = strdup(session_id))) {
+    free(s);
     return err(-12, "allocation failure"), NULL;
-  if (map_set(sessions, session_id, s))
+  }
+  map_init(&s->states);
+  if (map_set(get_sessions(), session_id, s)) {
+    free((char *)s->session_id);
+    free(s);
     return errx(-15, "failed to create new session with id: %s", session_id), NULL;
-  map_init(&s.states);
-
-  sp = map_get(sessions, session_id);
-  assert(sp);
-  map_init(&sp->states);
-
-  _sessions_count++;
-  return sp;
+  }
+  return s;
 }
 
 /*
@@ -80,7 +83,7 @@ void session_free(Session *s)
 {
   map_session_t *sessions = get_sessions();
   map_iter_t iter = map_iter(&s->states);
-  const char *name, *id=s->session_id;
+  const char *name, *id;
 
   /* Indicate that we are freeing this session. This will avoid crashes in
      case that free_fun() calls session_add_state().  */
@@ -93,14 +96,23 @@ void session_free(Session *s)
   s->freeing = 0;
   map_deinit(&s->states);
 
-  if (id) {
-    map_remove(sessions, id);
-    free((char *)id);
+  /* Remove `s` from the session store.  It is stored under its own id and
+     possible also as the default session. */
+  iter = map_iter(sessions);
+  while ((id = map_next(sessions, &iter))) {
+    if (lookup(id) == s) {
+      map_remove(sessions, id);
+      iter = map_iter(sessions);
+    }
   }
+  free((char *)s->session_id);
+  free(s);
 
-  _sessions_count--;
-  if (!_sessions_count)
+  iter = map_iter(sessions);
+  if (!map_next(sessions, &iter)) {
     map_deinit(sessions);
+    map_init(sessions);
+  }
 }
 
 
@@ -111,8 +123,7 @@ void session_free(Session *s)
 */
 Session *session_get(const char *session_id)
 {
-  map_session_t *sessions = get_sessions();
-  Session *s = map_get(sessions, session_id);
+  Session *s = lookup(session_id);
   if (!s) return errx(-15, "no session with id: %s", session_id), NULL;
   return s;
 }
@@ -140,8 +151,7 @@ const char *session_get_id(Session *s)
 */
 Session *session_get_default(void)
 {
-  map_session_t *sessions = get_sessions();
-  Session *s = map_get(sessions, DEFAULT_SESSION_ID);
+  Session *s = lookup(DEFAULT_SESSION_ID);
   if (!s) s = session_create(DEFAULT_SESSION_ID);
   return s;
 }
@@ -156,11 +166,11 @@ Session *session_get_default(void)
 */
 int session_set_default(Session *s)
 {
-  map_session_t *sessions = get_sessions();
-  Session *s2 = map_get(sessions, DEFAULT_SESSION_ID);
+  Session *s2 = lookup(DEFAULT_SESSION_ID);
   if (s2 && s2 != s)
     return errx(-3, "a default session has already been set");
-  map_set(sessions, DEFAULT_SESSION_ID, *s);
+  if (!s2 && map_set(get_sessions(), DEFAULT_SESSION_ID, s))
+    return errx(-3, "failed to set default session");
   return 0;
 }
 
@@ -230,11 +240,11 @@ void session_dump(void)
   map_iter_t iter = map_iter(&_sessions);
   const char *session_id, *key;
   while ((session_id = map_next(&_sessions, &iter))) {
-    Session *s = map_get(&_sessions, session_id);
+    Session *s = lookup(session_id);
     map_iter_t stiter = map_iter(&s->states);
     printf("SESSION %s: (%p)\n", session_id, (void *)s);
     if (strcmp(s->session_id, session_id))
-      printf("  WARNING session id mismatch: %s\n", s->session_id);
+      printf("  session id: %s\n", s->session_id);
     while ((key = map_next(&s->states, &stiter))) {
       State *st = map_get(&s->states, key);
       printf("  - %s: %p\n", key, st->ptr);
-- 
2.43.0


From 88df5886a586caeae54f18d0fce0d3daa4c309ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 034/161] fix: ErrTry: errors raised in a handler were handled
 by the same block (or looped forever)

---
 src/utils/err.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/err.h b/src/utils/err.h
index d1a9eff..5ef9d48 100644
--- a/src/utils/err.h
+++ b/src/utils/err.h
@@ -730,7 +730,8 @@ ErrRecord *_err_get_record();
     }                                                \
     _ft = _fallthrough;                              \
     _fallthrough = 0;                                \
-    _last = (_record.eval == errval) || _ft;         \
+    _last = (_record.eval == (errval) &&             \
+             !_record.reraise) || _ft;               \
     _record.handled |= _last;                        \
     if (_last) _record.state = errTryCatch;          \
     switch (_last ? 1 : 0) {                         \
@@ -741,7 +742,8 @@ ErrRecord *_err_get_record();
  */
 #define ErrOther                                     \
     }                                                \
-    _last = _record.eval && !_record.handled;        \
+    _last = _record.eval && !_record.handled &&      \
+      !_record.reraise;                              \
     _record.handled |= _last;                        \
     if (_last) _record.state = errTryCatch;          \
     switch (_last ? 1 : 0) {                         \
@@ -761,9 +763,10 @@ ErrRecord *_err_get_record();
  */
 #define ErrFinally                                   \
     }                                                \
+    _last = (_record.state != errTryFinally);        \
     _record.state = errTryFinally;                   \
-    switch (0) {                                     \
-    case 0
+    switch (_last ? 1 : 0) {                         \
+    case 1
 
 /**
  * @brief Ends an ErrTry block.
-- 
2.43.0


From 2809e7d9bc8ec457fc9d52eebdc538f426d7b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 035/161] fix: error handling: buffer overflow for long error
 messages, stale print position, error lost when a nested ErrTry block fails
 in a handler

---
 src/utils/err.c | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index b815d03..91ec0e2 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -172,6 +172,11 @@ void err_set_state(void *state)
 /* Separator between appended errors */
 static char *err_append_sep = "\n - ";
 
+/* Pointer to and size of the remaining part of message buffer `msg` of size
+   `size` after that `n` bytes has been (or would have been) written to it. */
+#define MSGPTR(msg, size, n)  ((msg) + (((size_t)(n) < (size)) ? (size_t)(n) : (size)))
+#define MSGLEFT(size, n)  (((size_t)(n) < (size)) ? (size) - (size_t)(n) : 0)
+
 /* Error names */
 static char *errlevel_names[] = {
   "Success",
@@ -231,12 +236,13 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
   }
 
   /* Handle overridden errors */
+  tls->err_record->pos = 0;
   if (tls->err_record->eval) {
     switch (override) {
     case errOverrideAppend:
       n = strlen(errmsg);
       tls->err_record->pos = n;
-      n += snprintf(errmsg + n, errsize - n, "%s", err_append_sep);
+      n += snprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), "%s", err_append_sep);
       break;
     case errOverrideWarnOld:
       if (stream) fprintf(stream, "Warning: Overriding old error: '%s'\n",
@@ -267,29 +273,30 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     Globals *g = tls->globals;
 
     if (g->err_prefix && *g->err_prefix)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", g->err_prefix);
+      n += snprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), "%s: ", g->err_prefix);
 
     if (debug_mode >= 1)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", file);
+      n += snprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), "%s: ", file);
     if (debug_mode >= 2)
-      n += snprintf(errmsg + n, errsize - n, "in %s(): ", func);
+      n += snprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), "in %s(): ", func);
 
     if (eval) {
-      if (nameconv)
-        n += snprintf(errmsg + n, errsize - n, "%s%s: ", nameconv(eval),
+      const char *name = (nameconv) ? nameconv(eval) : NULL;
+      if (name)
+        n += snprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), "%s%s: ", name,
                       (errlevel_name && *errlevel_name) ?
                       errlevel_name : "");
       else
-        n += snprintf(errmsg + n, errsize - n, "%s %d: ",
+        n += snprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), "%s %d: ",
                       (errlevel_name && *errlevel_name) ?
                       errlevel_name : "Errval", eval);
     } else if (errlevel_name && *errlevel_name) {
-      n += snprintf(errmsg + n, errsize - n, "%s: ", errlevel_name);
+      n += snprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), "%s: ", errlevel_name);
     }
     if (msg && *msg)
-      n += vsnprintf(errmsg + n, errsize - n, msg, ap);
+      n += vsnprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), msg, ap);
     if (errnum)
-      n += snprintf(errmsg + n, errsize - n, ": %s", strerror(errnum));
+      n += snprintf(MSGPTR(errmsg, errsize, n), MSGLEFT(errsize, n), ": %s", strerror(errnum));
     if (n >= (int)errsize && stream)
       fprintf(stream,
               "Warning: error %d truncated due to full message buffer: %s",
@@ -760,6 +767,7 @@ void err_default_handler(const ErrRecord *record)
   if (record->pos) {
     int m = strspn(msg, "\n");
     int n = strlen(err_append_sep) - m;
+    if (n > (int)strlen(msg+m)) n = strlen(msg+m);
     fprintf(stream, "%.*s", n, msg+m);
     msg += m+n;
   }
@@ -874,13 +882,15 @@ void _err_unlink_record(ErrRecord *record)
     int ignore_new = 0;
     int n = 0;
 
+    tls->err_record->pos = 0;
     if (tls->err_record->eval) {
       switch (err_get_override_mode()) {
       case errOverrideEnv:
       case errOverrideAppend:
         n = strlen(tls->err_record->msg);
-        strncat(tls->err_record->msg+n, err_append_sep, ERR_MSGSIZE-n);
-        n += strlen(err_append_sep);
+        tls->err_record->pos = n;
+        n += snprintf(tls->err_record->msg+n, ERR_MSGSIZE-n, "%s",
+                      err_append_sep);
         break;
       case errOverrideWarnOld:
         fprintf(stderr, "** Warning: overwriting old error: %s\n",
@@ -900,7 +910,14 @@ void _err_unlink_record(ErrRecord *record)
     tls->err_record->level = record->level;
     tls->err_record->eval = eval;
     tls->err_record->errnum = record->errnum;
-    if (!ignore_new) strncpy(tls->err_record->msg+n, record->msg, ERR_MSGSIZE-n);
+    if (!ignore_new)
+      snprintf(MSGPTR(tls->err_record->msg, (size_t)ERR_MSGSIZE, n),
+               MSGLEFT((size_t)ERR_MSGSIZE, n), "%s", record->msg);
+
+    /* If the error leaves an ErrTry block inside an error handler, we mark
+       it to be reraised after leaving the handler. */
+    if (record->level >= errLevelError && tls->err_record->state)
+      tls->err_record->reraise = eval;
 
     if (record->level == errLevelException && tls->err_record->prev)
       longjmp(tls->err_record->env, eval);
-- 
2.43.0


From b93374a46adc452f9c6a9f6a10077f3a17e53536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 036/161] fix: with ERR_ABORT set, an error that an outer
 ErrTry block catches ended the program

---
 src/utils/err.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index 91ec0e2..1262dc3 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -925,12 +925,12 @@ void _err_unlink_record(ErrRecord *record)
     if (!tls->err_record->prev) {
       ErrHandler handler = err_get_handler();
       if (handler) handler(tls->err_record);
-    }
 
-    if ((abort_mode && record->level >= errLevelError) ||
-        record->level >= errLevelException) {
-      if (abort_mode == errAbortAbort) abort();
-      exit(eval);
+      if ((abort_mode && record->level >= errLevelError) ||
+          record->level >= errLevelException) {
+        if (abort_mode == errAbortAbort) abort();
+        exit(eval);
+      }
     }
   }
 }
-- 
2.43.0


From e5c6976cdd4ade6c62ea0aeda05f0527b2056695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 037/161] fix: hiding of error codes beyond 31 and DLITE_NOERR
 macros

---
 src/dlite-misc.c | 4 ++--
 src/dlite-misc.h | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 74ac9ef..838399d 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1010,7 +1010,7 @@ void _dlite_err_mask_set(DLiteErrMask mask)
 void dlite_err_ignored_set(DLiteErrCode code, int value)
 {
   DLiteErrMask *mask = _dlite_err_mask_get();
-  int bit = DLITE_ERRBIT(code);
+  DLiteErrMask bit = DLITE_ERRBIT(code);
   if (mask) {
     if (value)
       *mask |= bit;
@@ -1025,7 +1025,7 @@ int dlite_err_ignored_get(DLiteErrCode code)
   DLiteErrMask *mask = _dlite_err_mask_get();
   if (!mask) return 0;
   if (code > 0 && (*mask & DLITE_ERRBIT(dliteUnknownError))) return 1;
-  return (int)(*mask) & DLITE_ERRBIT(code);
+  return (*mask & DLITE_ERRBIT(code)) ? 1 : 0;
 }
 
 
diff --git a/src/dlite-misc.h b/src/dlite-misc.h
index 714109a..2b9313f 100644
--- a/src/dlite-misc.h
+++ b/src/dlite-misc.h
@@ -471,16 +471,16 @@ DLiteErrMask *_dlite_err_mask_get(void);
 void _dlite_err_mask_set(DLiteErrMask mask);
 
 #define DLITE_ERRBIT(code)                                              \
-  ((int)1<<(int)((code >= 0) ? 0 : (code <= dliteLastError) ? -dliteLastError : -code))
+  ((DLiteErrMask)1<<(int)((code >= 0) ? 0 : (code <= dliteLastError) ? -dliteLastError : -code))
 
 #define DLITE_NOERR(mask)                                       \
   do {                                                          \
     DLiteErrMask *_errmaskptr = _dlite_err_mask_get();          \
     DLiteErrMask _errmask = (_errmaskptr) ? *_errmaskptr : 0;   \
-    dlite_err_mask_set(mask)
+    _dlite_err_mask_set(mask)
 
 #define DLITE_NOERR_END                                         \
-    dlite_err_mask_set(_errmask);                               \
+    _dlite_err_mask_set(_errmask);                              \
   } while (0)
 
 
-- 
2.43.0


From 1983d294169650f63cdabe20ab2b49190b8e8d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:00 +0000
Subject: [PATCH 038/161] fix: dlite_err_set_file() swapped stdout and stderr
 and never opened a file

---
 src/dlite-misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 838399d..1fe7b07 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1123,9 +1123,9 @@ void dlite_err_set_file(const char *filename)
   FILE *fp;
   if (!filename || !*filename)
     err_set_stream(NULL);
-  else if (strcmp(filename, "<stdout>"))
+  else if (strcmp(filename, "<stdout>") == 0)
     err_set_stream(stdout);
-  else if (strcmp(filename, "<stderr>"))
+  else if (strcmp(filename, "<stderr>") == 0)
     err_set_stream(stderr);
   else if ((fp = fopen(filename, "a")))
     err_set_stream(fp);
-- 
2.43.0


From 38c074b9697bf4e0404cd5885192099170573caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 039/161] fix: formatted text longer than the stack buffer was
 truncated or read out of bounds in the template engine, and empty formatted
 text was an error

---
 src/utils/tgen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index fecfa11..68dd340 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -589,9 +589,9 @@ int tgen_buf_append_vfmt(TGenBuf *s, const char *fmt, va_list ap)
 
   /* First try to write to a stack-allocated buffer instead of allocating
      with malloc().  Resort to malloc if this fails... */
-  if ((n = vsnprintf(buf, sizeof(buf), fmt, ap)) < 1)
+  if ((n = vsnprintf(buf, sizeof(buf), fmt, ap)) < 0)
     FAIL1(TGenFormatError, "invalid format string \"%s\"", fmt);
-  if (n <= (int)sizeof(buf)) {
+  if (n >= (int)sizeof(buf)) {
     src = malloc(n + 1);
     if ((vsnprintf(src, n+1, fmt, ap2)) != n)
       FAIL1(TGenFormatError, "invalid format string \"%s\"", fmt);
@@ -927,10 +927,10 @@ int tgen_subs_setn_vfmt(TGenSubs *subs, const char *var, int len,
 
   /* First try to write to a stack-allocated buffer instead of allocating
      with malloc().  Resort to malloc if this fails... */
-  if ((n = vsnprintf(buf, sizeof(buf), repl_fmt, ap)) < 1)
+  if ((n = vsnprintf(buf, sizeof(buf), repl_fmt, ap)) < 0)
     FAIL1(TGenFormatError, "error formatting replacement string \"%s\"",
           repl_fmt);
-  if (n <= (int)sizeof(buf)) {
+  if (n >= (int)sizeof(buf)) {
     repl = malloc(n + 1);
     if ((vsnprintf(repl, n+1, repl_fmt, ap2)) != n)
       FAIL1(TGenFormatError, "error formatting replacement string \"%s\"",
-- 
2.43.0


From 9be9e8002ccbbca8a2a68f598dca7272f2ed55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 040/161] fix: replacing a template variable by a function, or
 by its own value, left a dangling pointer

---
 src/utils/tgen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 68dd340..64e3489 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -851,10 +851,12 @@ int tgen_subs_setn(TGenSubs *subs, const char *var, int len,
   assert(name);
 
   if ((ip = map_get((map_int_t *)&subs->map, name))) {
+    char *old;
     s = subs->subs + *ip;
-    if (s->repl) free(s->repl);
-    if (repl) s->repl = strdup(repl);
+    old = s->repl;
+    s->repl = (repl) ? strdup(repl) : NULL;  /* `repl` may be the old value */
     s->func = func;
+    if (old) free(old);
     free(name);
   } else {
     if (map_set((map_int_t *)&subs->map, name, subs->nsubs)) {
-- 
2.43.0


From 67c872de943263dc9b19ad54cb4473a565734a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 041/161] fix: string conditions in templates with a
 single-quoted second string aborted and with three strings wrote out of
 bounds

---
 src/utils/tgen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 64e3489..a9ddc7d 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -137,12 +137,13 @@ static int eval_string_expression(const char *s, int len)
     if (s[i] == '\\') {
       i++;
     } else if (!instring && strchr("\"'", s[i])) {
+      if (nstrings >= 2) return -1;
       instring = s[i];
       start[nstrings] = i;
     } else if (instring && s[i] == instring) {
         instring = 0;
         length[nstrings] = i - start[nstrings] - 1;
-        if (++nstrings > 2) return -1;
+        nstrings++;
     }
   }
   if (instring) return -1;
@@ -157,7 +158,6 @@ static int eval_string_expression(const char *s, int len)
     op = p++;
     p += strspn(p, " ");
     if (p != s + start[1]) return -1;
-    assert(*p == '"');
     if (*op == '=') {
       if (length[0] != length[1]) return 0;
       return (strncmp(s + start[0] + 1, s + start[1] + 1, length[0])) ? 0 : 1;
-- 
2.43.0


From eb62acb33aee1e6166ba3808c61e66cbfd575f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 042/161] fix: comment tags, empty tags and abbreviated names
 were taken for @error, @if, @elif, @else and @endif in templates

---
 src/utils/tgen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index a9ddc7d..dcde83f 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -113,7 +113,7 @@ static int length_to_var(const char *p, const char *var, int maxlen)
     } else {
       int len;
       size_t m = strcspn(q, "%:}");
-      if (strncmp(q, var, m) == 0)
+      if (m == strlen(var) && strncmp(q, var, m) == 0)
         return q - p - 1;
       else if ((len = length_to_endbrace(q)) >= 0)
         q += len;
@@ -1052,13 +1052,13 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
                      "substitution", tgen_lineno(template, t));
 
         /* parse special constructs */
-        if (strncmp(t, "@error", len) == 0) {  /* error */
+        if (len == 6 && strncmp(t, "@error", len) == 0) {  /* error */
           err_clear();
           return err(TGenUserError, "line %d: %.*s",
                      tgen_lineno(template, t), length_to_endbrace(t+len)-1,
                      t+len+1);
 
-        } else if (strncmp(t, "@if", len) == 0) {  /* conditional */
+        } else if (len == 3 && strncmp(t, "@if", len) == 0) {  /* conditional */
           if ((len = builtin_if(s, t, subs, context)) < 0)
             return err(TGenSyntaxError,
                        "line %d: invalid conditional: \"%.*s\"",
-- 
2.43.0


From edc61b5419a3eca9ba55f6fcecfaeaa8bb83ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 043/161] fix: a conditional inside another conditional in a
 template ended the outer one

---
 src/utils/tgen.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index dcde83f..363d7d4 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -102,6 +102,7 @@ static int length_to_endbrace(const char *p)
 static int length_to_var(const char *p, const char *var, int maxlen)
 {
   const char *q = p;
+  int depth = 0;  /* number of nested conditionals that are not yet ended */
   while (1) {
     size_t n = strcspn(q, "{");
     if (!q[n]) return -1;
@@ -113,9 +114,13 @@ static int length_to_var(const char *p, const char *var, int maxlen)
     } else {
       int len;
       size_t m = strcspn(q, "%:}");
-      if (m == strlen(var) && strncmp(q, var, m) == 0)
+      if (!depth && m == strlen(var) && strncmp(q, var, m) == 0)
         return q - p - 1;
-      else if ((len = length_to_endbrace(q)) >= 0)
+      if (m == 3 && strncmp(q, "@if", m) == 0)
+        depth++;
+      else if (m == 6 && strncmp(q, "@endif", m) == 0)
+        depth--;
+      if ((len = length_to_endbrace(q)) >= 0)
         q += len;
       else
         return -1;  /* missing end brace */
-- 
2.43.0


From be103bb9a53a25e17ab3a35d13ea6250d034cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 044/161] fix: aligning or shortening an empty template buffer
 dereferenced NULL and alignment added a space after the column was reached

---
 src/utils/tgen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 363d7d4..5c333fe 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -674,7 +674,7 @@ int tgen_buf_unappend(TGenBuf *s, size_t n)
 {
   int removed = (n < s->pos) ? n : s->pos;
   s->pos -= removed;
-  s->buf[s->pos] = '\0';
+  if (s->buf) s->buf[s->pos] = '\0';
   return removed;
 }
 
@@ -689,9 +689,9 @@ int tgen_buf_calign(TGenBuf *s, int c, int n)
 {
   char str[] = {c, '\0'};
   int retval, i = 0;
-  while (i<n && i <= (int)s->pos && s->buf[s->pos-i] != '\n') i++;
-  retval = n - i + 1;
-  while (i++ <= n) tgen_buf_append(s, str, 1);
+  while (i < n && i < (int)s->pos && s->buf[s->pos-i-1] != '\n') i++;
+  retval = (i < n) ? n - i : 0;
+  while (i++ < n) tgen_buf_append(s, str, 1);
   return retval;
 }
 
-- 
2.43.0


From 05afc9748e72ec1dbbef89a554bff74d9cf1cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 045/161] fix: case conversion of empty and blank text read
 before the text or gave no result

---
 src/utils/tgen.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 5c333fe..06aa7d9 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -354,7 +354,7 @@ int tgen_setcase(char *s, int len, int casemode)
     for (i=0; i<len; i++) s[i] = toupper(s[i]);
     return 0;
   case 'T':
-    s[0] = toupper(s[0]);
+    if (len > 0) s[0] = toupper(s[0]);
     for (i=1; i<len; i++) s[i] = tolower(s[i]);
     return 0;
   }
@@ -375,10 +375,11 @@ static int append_identifier(TGenBuf *buf, const char *s, int n, int strict)
 {
   size_t startpos = buf->pos;
   char *space = " \f\n\r\t\v";
-  int i = strspn(s, space);
+  int i = 0;
   if (n < 0) n = strlen(s);
-  while (strchr(space, s[n-1])) n--;
-  if (s[i] == '_' || isalpha(s[i]))
+  while (n > 0 && strchr(space, s[n-1])) n--;
+  while (i < n && strchr(space, s[i])) i++;
+  if (i < n && (s[i] == '_' || isalpha(s[i])))
     tgen_buf_append(buf, s+i, 1);
   else if (!strict)
     tgen_buf_append(buf, "_", 1);
@@ -413,8 +414,9 @@ static int append_underscore(TGenBuf *buf, const char *s, int n, int upper)
   char *space = " \f\n\r\t\v";
   char *sep = " _-\f\n\r\t\v";
   if (n < 0) n = strlen(s);
-  while (strchr(space, s[n-1])) n--;
-  for (i=strspn(s, space); i<n; i++) {
+  while (n > 0 && strchr(space, s[n-1])) n--;
+  for (i=0; i<n && strchr(space, s[i]); i++);
+  for (; i<n; i++) {
     mode = strchr(sep, s[i]) ? 0 : isupper(s[i]) ? 2 : 1;
     if ((prevmode && !mode) || (prevmode && mode == 2))
       tgen_buf_append(buf, "_", -1);
@@ -445,9 +447,10 @@ static int append_mixedcase(TGenBuf *buf, const char *s, int n, int upper)
   char *space = " \f\n\r\t\v";
   char *sep = " _-\f\n\r\t\v";
   if (n < 0) n = strlen(s);
-  for (i=strspn(s, space); i<n; i++) {
+  for (i=0; i<n && strchr(space, s[i]); i++);
+  for (; i<n; i++) {
     mode = strchr(sep, s[i]) ? 0 : islower(s[i]) ? 1 : isupper(s[i]) ? 2 : 3;
-    if (buf->pos == 0) {
+    if (buf->pos == startpos) {
       tgen_buf_append_fmt(buf, "%c", (upper) ? toupper(s[i]) : tolower(s[i]));
     } else if (prevmode == 0 || prevmode == 3) {
       if (mode) tgen_buf_append_fmt(buf, "%c", toupper(s[i]));
@@ -631,6 +634,7 @@ int tgen_buf_append_case(TGenBuf *s, const char *src, int n, int casemode)
   char *p;
   int stat, startpos = s->pos;
   if (n < 0) n = strlen(src);
+  if (tgen_buf_append(s, "", 0) < 0) return -1;  /* ensure that buffer exists */
 
   switch (casemode) {
   case 's':
@@ -657,6 +661,7 @@ int tgen_buf_append_case(TGenBuf *s, const char *src, int n, int casemode)
     return append_identifier(s, src, n, 1);
   case 'T':
     if ((stat = tgen_buf_append(s, src, n)) < 0) return -1;
+    if (!s->buf[startpos]) return stat;
     s->buf[startpos] = toupper(s->buf[startpos]);
     for (p=s->buf+startpos+1; *p; p++) *p = tolower(*p);
     return stat;
-- 
2.43.0


From 920233ae15874ee9aaaf059297ba8a60eb872b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:41 +0000
Subject: [PATCH 046/161] fix: tgen_escaped_copy() read past the end of its
 input after an escaped carriage return

---
 src/utils/tgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 06aa7d9..96e49b3 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -310,7 +310,7 @@ int tgen_escaped_copy(char *dest, const char *src, int n)
         case '.':  break;                 /* escaped ".", just consume */
         case '\n': break;                 /* escaped newline, just consume */
         case '\r':
-	  if (p[1] == '\n') p++;          /* escaped newline, Windows or Mac */
+	  if (p+1 < pend && p[1] == '\n') p++;          /* escaped newline, Windows or Mac */
 	  break;
         default:   *(q++) = *p;   break;
         }
-- 
2.43.0


From 0c5f4d5a672675e679c8f5efe1f67ee3bcb6d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 047/161] fix: code generation leaked all substitutions when it
 failed

---
 src/dlite-codegen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index 7350387..fba68dc 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -537,7 +537,7 @@ char *dlite_codegen(const char *template, const DLiteInstance *inst,
                     const char *options)
 {
   TGenSubs subs;
-  char *text;
+  char *text=NULL;
   Context context;
 
   context.inst = inst;
@@ -545,9 +545,9 @@ char *dlite_codegen(const char *template, const DLiteInstance *inst,
   context.metameta = 0;
 
   tgen_subs_init(&subs);
-  if (dlite_instance_subs(&subs, inst)) return NULL;
-  if (dlite_option_subs(&subs, options)) return NULL;
-  text = tgen(template, &subs, &context);
+  if (!dlite_instance_subs(&subs, inst) &&
+      !dlite_option_subs(&subs, options))
+    text = tgen(template, &subs, &context);
   tgen_subs_deinit(&subs);
   return text;
 }
-- 
2.43.0


From d8ff5dda0ac200178973c4932d73c224f3c1587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:33 +0000
Subject: [PATCH 048/161] fix: template paths were used after
 dlite_codegen_path_free()

---
 src/dlite-codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index fba68dc..2536f1c 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -506,7 +506,7 @@ void dlite_codegen_path_free(void)
   Globals *g = get_globals();
   if (g->template_paths_initialised) {
     fu_paths_deinit(&g->template_paths);
-    g->template_paths_initialised = 1;
+    g->template_paths_initialised = 0;
   }
 }
 
-- 
2.43.0


From 6861c39078919f0c09eaf2e3e4da50fead936201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:25 +0000
Subject: [PATCH 049/161] fix: generated C declarations of properties with long
 names were cut

---
 src/dlite-codegen.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index 2536f1c..8940b4a 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -209,10 +209,16 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
     char *descr = (p->description) ? p->description : "";
     size_t nref = (p->ndims > 0) ? 1 : 0;
     int isallocated = dlite_type_is_allocated(p->type);
-    char typename[32], pcdecl[64], ftype[25], isoctype[64];
+    char typename[32], ftype[25], isoctype[64];
+    size_t ncdecl = strlen(p->name) + 64;
+    char *pcdecl = malloc(ncdecl);
+    if (!pcdecl) {
+      retval = err(dliteMemoryError, "allocation failure");
+      goto fail;
+    }
     dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
     dlite_type_set_cdecl(p->type, p->size, p->name, nref, pcdecl,
-			 sizeof(pcdecl), g->use_native_typenames);
+			 ncdecl, g->use_native_typenames);
     dlite_type_set_ftype(p->type, p->size, ftype, sizeof(ftype));
     dlite_type_set_isoctype(p->type, p->size, isoctype, sizeof(isoctype));
 
@@ -225,6 +231,7 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
     tgen_subs_set(&psubs, "prop.ftype",    ftype,    NULL);
     tgen_subs_set(&psubs, "prop.isoctype", isoctype, NULL);
     tgen_subs_set(&psubs, "prop.cdecl",    pcdecl,   NULL);
+    free(pcdecl);
     tgen_subs_set(&psubs, "prop.ref",      ref,      NULL);
     tgen_subs_set(&psubs, "prop.unit",     unit,     NULL);
     tgen_subs_set(&psubs, "prop.descr",    descr,    NULL);
-- 
2.43.0


From 7ab201cbe9ede3239f6856c7a96594d4fce2c20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:25 +0000
Subject: [PATCH 050/161] fix: floats.h did not define the type of long
 doubles, so generated headers using it did not compile

---
 src/utils/floats.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/floats.h.in b/src/utils/floats.h.in
index ee2a8ed..ea3e63c 100644
--- a/src/utils/floats.h.in
+++ b/src/utils/floats.h.in
@@ -40,7 +40,7 @@ typedef double double128_t;
 # error "Non-standard size of double" # SIZEOF_DOUBLE
 #endif
 
-#ifdef HAVE_LONG_DOUBLE
+#if defined(HAVE_LONG_DOUBLE) || defined(HAVE_SIZEOF_LONG_DOUBLE)
 # if SIZEOF_LONG_DOUBLE == 8
 #  ifndef HAVE_FLOAT64_T
 #   define HAVE_FLOAT64_T
-- 
2.43.0


From 9eac002f2cac1e5ca63bb76bd94d8c92716325fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:25 +0000
Subject: [PATCH 051/161] fix: tgen() returned NULL, meaning failure, for an
 empty template

---
 src/utils/tgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 96e49b3..db155db 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1003,7 +1003,8 @@ char *tgen(const char *template, TGenSubs *subs, void *context)
 {
   TGenBuf s;
   tgen_buf_init(&s);
-  if (tgen_append(&s, template, -1, subs, context)) {
+  if (tgen_buf_append(&s, "", 0) < 0 ||
+      tgen_append(&s, template, -1, subs, context)) {
     if (s.buf) free(s.buf);
     return NULL;
   }
-- 
2.43.0


From ac1e32ef02a9c13ea256b8a2e75767d0e1b164ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 052/161] fix: the generated C declaration of an array of blobs
 or fixed-size strings declared an array of pointers

---
 src/dlite-type.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index be1cfa8..fc45b24 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -382,8 +382,8 @@ int dlite_type_set_cdecl(DLiteType dtype, size_t size, const char *name,
 
   switch (dtype) {
   case dliteBlob:
-    m = snprintf(pcdecl, n, "uint8_t %s%s[%lu]", ref, name,
-                 (unsigned long)size);
+    m = snprintf(pcdecl, n, (nref) ? "uint8_t (%s%s)[%lu]" :
+                 "uint8_t %s%s[%lu]", ref, name, (unsigned long)size);
     break;
   case dliteBool:
     if (size != sizeof(bool))
@@ -413,7 +413,8 @@ int dlite_type_set_cdecl(DLiteType dtype, size_t size, const char *name,
                    (unsigned long)size*8, ref, name);
     break;
   case dliteFixString:
-    m = snprintf(pcdecl, n, "char %s%s[%lu]", ref, name, (unsigned long)size);
+    m = snprintf(pcdecl, n, (nref) ? "char (%s%s)[%lu]" : "char %s%s[%lu]",
+                 ref, name, (unsigned long)size);
     break;
   case dliteStringPtr:
     if (size != sizeof(char *))
-- 
2.43.0


From bc9c81480b86bac3ddc6c67d4a2b1b4bc20c3515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 053/161] fix: an unterminated subtemplate ending with an
 escaped brace aborted the program

---
 src/utils/tgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index db155db..bbeb6fa 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1187,6 +1187,10 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
               abort();
             }
           }
+          if (!*tt)
+            return err(TGenSyntaxError, "line %d: unterminated "
+                       "subtemplate in substitution for '%s'",
+                       tgen_lineno(template, t), sub->var);
           t = tt;
           templ_len = tt - templ;
         }
-- 
2.43.0


From 6cf9b25981725f901e96895cbabae632499e1065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 054/161] fix: template variables without a value, e.g. missing
 descriptions, dereferenced NULL

---
 src/utils/tgen.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index bbeb6fa..ce88d74 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1203,14 +1203,17 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
           if ((stat = sub->func(s, templ, templ_len, subs, context)))
             return stat;
         } else if (fmt) {
-          char *p = tgen_convert_case(sub->repl, -1, casemode);
-          if (!p) return -1;
+          char *p = tgen_convert_case((sub->repl) ? sub->repl : "", -1,
+                                      casemode);
+          if (!p) return err(TGenFormatError, "line %d: cannot convert value "
+                             "of var '%s'", tgen_lineno(template, t),
+                             sub->var);
           nchars = tgen_buf_append_fmt(s, fmt, p);
           free(p);
           if (nchars < 0) return nchars;
         } else {
           assert(casemode == 's');
-          if ((nchars = tgen_buf_append(s, sub->repl, -1)) < 0)
+          if (sub->repl && (nchars = tgen_buf_append(s, sub->repl, -1)) < 0)
             return -1;
         }
         len = strcspn(t, "}");
-- 
2.43.0


From 97cc6588ad300a15ad8182f66196244405a47c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 055/161] fix: an unterminated assignment or comment tag read
 past the end of the template

---
 src/utils/tgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index ce88d74..191a556 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -90,7 +90,7 @@ static int length_to_endbrace(const char *p)
       abort();  /* should never be reached */
     }
   }
-  return q - p;
+  return (*q) ? q - p : -1;
 }
 
 /* Returns the number of bytes from the position in a template that is
-- 
2.43.0


From c7b8e5cecfb7fdd23d9801601e1dc3fb76734c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 056/161] fix: slicing with negative limits, limits at zero,
 steps larger than two, or of a view gave wrong elements

---
 src/dlite-arrays.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 3a9f105..ee7a2d5 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -253,21 +253,26 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
   for (n = arr->ndims-1; n >= 0; n--) {
-    int s1, s2;
+    int len = arr->shape[n];
     int d = (step) ? step[n] : 1;
-    if (d == 0) return err(1, "dim %d: slice step cannot be zero", n), NULL;
-    if (d > 0) {
-      s1 = (start) ? start[n] % arr->shape[n] : 0;
-      s2 = (stop) ? stop[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
-    } else {
-      s1 = (start) ? start[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
-      s2 = (stop) ? stop[n] % arr->shape[n] : 0;
+    int s1 = (start) ? start[n] : (d > 0) ? 0 : len;
+    int s2 = (stop) ? stop[n] : (d > 0) ? len : 0;
+    int count;  /* number of elements from first to last */
+    if (d == 0) {
+      dlite_array_free(new);
+      return err(1, "dim %d: slice step cannot be zero", n), NULL;
     }
-    if (s1 < 0) s1 += arr->shape[n];
-    if (s2 < 0) s2 += arr->shape[n];
-    offset += s1 * arr->strides[n];
-    new->shape[n] = (abs(s2 - s1) + 1 + d/2) / abs(d);
-    new->strides[n] *= d;
+    /* count from the back and clamp like Python */
+    if (s1 < 0) s1 += len;
+    if (s2 < 0) s2 += len;
+    s1 = (s1 < 0) ? 0 : (s1 > len) ? len : s1;
+    s2 = (s2 < 0) ? 0 : (s2 > len) ? len : s2;
+    count = (d > 0) ? s2 - s1 : s1 - s2;
+    if (count < 0) count = 0;
+    if (count > 0)
+      offset += ((d > 0) ? s1 : s1 - 1) * arr->strides[n];
+    new->shape[n] = (count + abs(d) - 1) / abs(d);
+    new->strides[n] = arr->strides[n] * d;
   }
   new->data = ((char *)arr->data) + offset;
   return new;
-- 
2.43.0


From 6cc97b44e04f662c24adb23254c6b9ed1d4d84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 057/161] fix: comparing array views compared elements outside
 the views and read out of bounds

---
 src/dlite-arrays.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index ee7a2d5..751d63d 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -190,7 +190,9 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
  */
 int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
 {
-  int i;
+  int i, equal=1;
+  void *p, *q;
+  DLiteArrayIter ia, ib;
   /* check whether the array structures are equal */
   if (a->type != b->type) return 0;
   if (a->size != b->size) return 0;
@@ -200,8 +202,17 @@ int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
     if (a->strides[i] != b->strides[i]) return 0;
   }
   /* check whether the array data are equal */
-  if (memcmp(a->data, b->data, dlite_array_size(a))) return 0;
-  return 1;
+  if (dlite_array_iter_init(&ia, a)) return 0;
+  if (dlite_array_iter_init(&ib, b)) {
+    dlite_array_iter_deinit(&ia);
+    return 0;
+  }
+  while (equal && (p = dlite_array_iter_next(&ia)) &&
+         (q = dlite_array_iter_next(&ib)))
+    if (memcmp(p, q, a->size)) equal = 0;
+  dlite_array_iter_deinit(&ia);
+  dlite_array_iter_deinit(&ib);
+  return equal;
 }
 
 
-- 
2.43.0


From 86fcb8890b9480057a36ab74ef9ff6ad94676d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 058/161] fix: iterating over and printing arrays without
 dimensions accessed memory out of bounds and one-dimensional arrays were
 never visited

---
 src/dlite-arrays.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 751d63d..f975911 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -147,9 +147,10 @@ int dlite_array_iter_init(DLiteArrayIter *iter, const DLiteArray *arr)
 {
   memset(iter, 0, sizeof(DLiteArrayIter));
   iter->arr = arr;
-  if (!(iter->ind = calloc(arr->ndims, sizeof(int))))
+  /* allocate an extra element, used for arrays without dimensions */
+  if (!(iter->ind = calloc(arr->ndims + 1, sizeof(int))))
     return err(dliteMemoryError, "allocation failure");
-  iter->ind[arr->ndims-1]--;
+  if (arr->ndims) iter->ind[arr->ndims-1]--;
   return 0;
 }
 
@@ -169,7 +170,10 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
 {
   int n;
   DLiteArray *arr = (DLiteArray *)iter->arr;
-  if (iter->ind[0] < 0) return NULL;  /* check stop indicator */
+  if (arr->ndims == 0)  /* the single element is visited once */
+    return (iter->ind[0]++) ? NULL : arr->data;
+  if (iter->ind[0] < 0 && (arr->ndims > 1 || iter->ind[0] < -1))
+    return NULL;  /* check stop indicator */
   for (n=arr->ndims-1; n>=0; n--)
     if (arr->shape[n] <= 0) return NULL;  /* check that all dimensions has
 					    positive length */
@@ -178,7 +182,7 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
     iter->ind[n] = 0;
   }
   if (n < 0) {
-    iter->ind[0] = -1;  /* stop indicator */
+    iter->ind[0] = -2;  /* stop indicator */
     return NULL;
   }
   return dlite_array_index(arr, iter->ind);
@@ -380,9 +384,15 @@ void *dlite_array_make_continuous(DLiteArray *arr)
 int dlite_array_printf(FILE *fp, const DLiteArray *arr, int width, int prec)
 {
   void *p;
-  int i, N=arr->ndims-1, NN=arr->shape[N]-1;
+  int i, N=arr->ndims-1, NN=(arr->ndims) ? (int)arr->shape[N]-1 : 0;
   DLiteArrayIter iter;
   char buf[80];
+  if (arr->ndims == 0) {
+    dlite_type_print(buf, sizeof(buf), arr->data, arr->type, arr->size,
+                     width, prec, 0);
+    fprintf(fp, "%s\n", buf);
+    return 0;
+  }
   dlite_array_iter_init(&iter, arr);
   while ((p = dlite_array_iter_next(&iter))) {
     char *sep = (iter.ind[N] < NN) ? " " : "";
-- 
2.43.0


From 9178ad006e4eefd4630812e13343d2a2a797fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 059/161] fix: dlite_array_make_continuous() did not update
 already continuous arrays

---
 src/dlite-arrays.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index f975911..95c26a3 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -350,7 +350,10 @@ void *dlite_array_make_continuous(DLiteArray *arr)
   DLiteArrayIter iter;
   for (n=0; n < arr->ndims; n++) size *= arr->shape[n];
   if (!(data = malloc(size))) return err(dliteMemoryError, "allocation failure"), NULL;
-  if (dlite_array_is_continuous(arr)) return memcpy(data, arr->data, size);
+  if (dlite_array_is_continuous(arr)) {
+    arr->data = memcpy(data, arr->data, size);
+    return data;
+  }
 
   q = data;
   dlite_array_iter_init(&iter, arr);
-- 
2.43.0


From adb1d86309014b9386cc0abdc2126be4a7188a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:53 +0000
Subject: [PATCH 060/161] fix: dlite_array_create_order() leaked the array on
 invalid order

---
 src/dlite-arrays.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 95c26a3..14b5fe9 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -70,6 +70,7 @@ DLiteArray *dlite_array_create_order(void *data, DLiteType type, size_t size,
     dlite_array_free(arr);
     return arr2;
   default:
+    dlite_array_free(arr);
     return err(1, "invalid order '%c', should be either 'C' or 'F'",
                order), NULL;
   }
-- 
2.43.0


From c79e95c8ed8fcb0bf63ed9118560bdb7fb09b7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 061/161] fix: copying empty dimensions and properties
 dereferenced NULL, and overwriting dimensions, properties and relations
 leaked the old value

---
 src/dlite-type.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index fc45b24..9b841a7 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -597,7 +597,9 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteDimension *d=dest;
       const DLiteDimension *s=src;
-      d->name = strdup(s->name);
+      if (s == d) break;
+      dlite_type_clear(dest, dtype, size);
+      d->name = (s->name) ? strdup(s->name) : NULL;
       d->description = (s->description) ? strdup(s->description) : NULL;
     }
     break;
@@ -605,7 +607,9 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteProperty *d=dest;
       const DLiteProperty *s=src;
-      d->name = strdup(s->name);
+      if (s == d) break;
+      dlite_type_clear(dest, dtype, size);
+      d->name = (s->name) ? strdup(s->name) : NULL;
       d->type = s->type;
       d->size = s->size;
       d->ref = (s->ref) ? strdup(s->ref) : NULL;
@@ -627,6 +631,8 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteRelation *d=dest;
       const DLiteRelation *s=src;
+      if (s == d) break;
+      dlite_type_clear(dest, dtype, size);
       d->s = (s->s) ? strdup(s->s) : NULL;
       d->p = (s->p) ? strdup(s->p) : NULL;
       d->o = (s->o) ? strdup(s->o) : NULL;
-- 
2.43.0


From d2a8ea5b0283de5468aa4cc59da542f7f7da82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 062/161] fix: getting a dimension by name aborted when the
 instance has fewer properties than dimensions

---
 src/dlite-entity.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 2f99613..30be1e9 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1446,7 +1446,6 @@ int dlite_instance_get_dimension_size(const DLiteInstance *inst,
   if (!inst->meta)
     return errx(dliteMissingMetadataError, "no metadata available");
   if ((i = dlite_meta_get_dimension_index(inst->meta, name)) < 0) return -1;
-  assert(i < (int)inst->meta->_nproperties);
   return dlite_instance_get_dimension_size_by_index(inst, i);
 }
 
-- 
2.43.0


From ad3d44b7ec5a59bba41a59bba7643b63add610d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 063/161] fix: property and dimension indices out of range were
 not refused

---
 src/dlite-entity.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 30be1e9..e5b76a8 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <stddef.h>
 #include <string.h>
@@ -1332,6 +1333,10 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
   size_t nmemb=1;
   int j;
 
+  if (i >= meta->_nproperties)
+    return err(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
+               (int)i, (int)meta->_nproperties, meta->uri);
+
   if (inst->_flags & dliteImmutable)
     return err(1, "cannot set property on immutable instance: %s",
                (inst->uri) ? inst->uri : inst->uuid);
@@ -1879,7 +1884,14 @@ int dlite_instance_set_dimension_size_by_index(DLiteInstance *inst,
 {
   size_t j;
   int retval;
-  int *dims = malloc(inst->meta->_ndimensions * sizeof(int));
+  int *dims;
+  if (i >= inst->meta->_ndimensions)
+    return errx(dliteIndexError, "no dimension with index %d in %s",
+                (int)i, inst->meta->uri);
+  if (size > INT_MAX)
+    return errx(dliteValueError, "invalid size of dimension %d in %s",
+                (int)i, inst->meta->uri);
+  dims = malloc(inst->meta->_ndimensions * sizeof(int));
   if (!dims) return err(dliteMemoryError, "allocation failure");
   for (j=0; j < inst->meta->_ndimensions; j++) dims[j] = -1;
   dims[i] = size;
@@ -2877,6 +2889,8 @@ const DLiteDimension *dlite_meta_get_dimension(const DLiteMeta *meta,
 const DLiteProperty *
 dlite_meta_get_property_by_index(const DLiteMeta *meta, size_t i)
 {
+  if (i >= meta->_nproperties)
+    return err(dliteIndexError, "invalid property index %d", (int)i), NULL;
   return meta->_properties + i;
 }
 
-- 
2.43.0


From 0b653ac7f0bd80cba079778c42b52fc7b367cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 064/161] fix: assigning or copying empty references
 dereferenced NULL

---
 src/dlite-entity.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index e5b76a8..26d3b60 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1351,14 +1351,15 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
       size_t n;
       DLiteInstance **q = (DLiteInstance **)ptr;
       for (n=0; n<nmemb; n++, q++) {
-        const char *ref = (*q)->meta->uri;
-        if (strcmp(ref, p->ref))
+        const char *ref = (*q) ? (*q)->meta->uri : NULL;
+        if (ref && strcmp(ref, p->ref))
           return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                      p->ref, ref);
       }
     } else {
-      const char *ref = (*(DLiteInstance **)ptr)->meta->uri;
-      if (strcmp(ref, p->ref))
+      DLiteInstance *q = *(DLiteInstance **)ptr;
+      const char *ref = (q) ? q->meta->uri : NULL;
+      if (ref && strcmp(ref, p->ref))
         return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                    p->ref, ref);
     }
-- 
2.43.0


From 5332761cffb13fe9505d3947cbbeee7f397f705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 065/161] fix: copying an instance with an array without
 elements aborted and getting such an array failed

---
 src/dlite-entity.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 26d3b60..fe28496 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1941,7 +1941,7 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
   }
   for (i=0; i < inst->meta->_nproperties; i++) {
     void *src = dlite_instance_get_property_by_index(inst, i);
-    assert(src);
+    if (!src) continue;  /* array with no elements */
     if (dlite_instance_set_property_by_index(new, i, src)) goto fail;
   }
   return new;
@@ -1973,7 +1973,8 @@ dlite_instance_get_property_array_by_index(const DLiteInstance *inst,
   size_t dim=1, *shape=&dim;
   DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
   DLiteArray *arr = NULL;
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) goto fail;
+  ptr = dlite_instance_get_property_by_index(inst, i);
+  if (!ptr && p->ndims == 0) goto fail;  /* empty arrays have no data */
   if (p->ndims > 0) {
     int j;
     if (!(shape = malloc(p->ndims*sizeof(size_t)))) goto fail;
-- 
2.43.0


From 5f6a1962c75337e35548df4d939458fc10a358d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:32 +0000
Subject: [PATCH 066/161] fix: long doubles could be declared but not named,
 copied, cast, printed or read back

---
 src/dlite-type-cast.c | 118 +++++++++++++++++++++---------------------
 src/dlite-type.c      |  20 +++----
 2 files changed, 69 insertions(+), 69 deletions(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index f1d3c83..e843afe 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -49,13 +49,13 @@ static int isnegative(const void *src, DLiteType type, size_t size)
     switch (size) {
     case 4: return (*((float32_t *)src) < 0) ? 1 : 0;
     case 8: return (*((float64_t *)src) < 0) ? 1 : 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
     case 10: return (*((float80_t *)src) < 0) ? 1 : 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
     case 12: return (*((float96_t *)src) < 0) ? 1 : 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
     case 16: return (*((float128_t *)src) < 0) ? 1 : 0;
 #endif
     default: return -1;
@@ -116,13 +116,13 @@ static int istrue(const void *src, DLiteType type, size_t size)
     switch (size) {
     case 4: return (*((float32_t *)src))   ? 1 : 0;
     case 8: return (*((float64_t *)src))   ? 1 : 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
     case 10: return (*((float80_t *)src))  ? 1 : 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
     case 12: return (*((float96_t *)src))  ? 1 : 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
     case 16: return (*((float128_t *)src)) ? 1 : 0;
 #endif
     default: return -1;
@@ -247,13 +247,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       switch (dest_size) {
       case 4: *((float32_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
       case 8: *((float64_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
       case 10: *((float80_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
       case 12: *((float96_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
       case 16: *((float128_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #endif
       default: goto fail;
@@ -332,7 +332,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         case 8: *((float64_t *)dest) = *((uint64_t *)src); return 0;
         default: goto fail;
         }
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
       case 10:
         switch (src_size) {
         case 1: *((float80_t *)dest) = *((uint8_t *)src);  return 0;
@@ -342,7 +342,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         default: goto fail;
         }
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
       case 12:
         switch (src_size) {
         case 1: *((float96_t *)dest) = *((uint8_t *)src);  return 0;
@@ -352,7 +352,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         default: goto fail;
         }
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
       case 16:
         switch (src_size) {
         case 1: *((float128_t *)dest) = *((uint8_t *)src);  return 0;
@@ -482,7 +482,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         case 8: *((float64_t *)dest) = *((int64_t *)src); return 0;
         default: goto fail;
         }
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
       case 10:
         switch (src_size) {
         case 1: *((float80_t *)dest) = *((int8_t *)src);  return 0;
@@ -492,7 +492,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         default: goto fail;
         }
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
       case 12:
         switch (src_size) {
         case 1: *((float96_t *)dest) = *((int8_t *)src);  return 0;
@@ -502,7 +502,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         default: goto fail;
         }
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
       case 16:
         switch (src_size) {
         case 1: *((float128_t *)dest) = *((int8_t *)src);  return 0;
@@ -543,13 +543,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((uint8_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((uint8_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((uint8_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((uint8_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((uint8_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -558,13 +558,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((uint16_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((uint16_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((uint16_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((uint16_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((uint16_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -573,13 +573,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((uint32_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((uint32_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((uint32_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((uint32_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((uint32_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -588,13 +588,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((uint64_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((uint64_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((uint64_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((uint64_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((uint64_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -609,13 +609,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((int8_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((int8_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((int8_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((int8_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((int8_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -624,13 +624,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((int16_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((int16_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((int16_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((int16_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((int16_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -639,13 +639,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((int32_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((int32_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((int32_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((int32_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((int32_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -654,13 +654,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((int64_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((int64_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((int64_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((int64_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((int64_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -675,13 +675,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((float32_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((float32_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((float32_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((float32_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((float32_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
@@ -690,56 +690,56 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
         switch (src_size) {
         case 4: *((float64_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((float64_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((float64_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((float64_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((float64_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
         }
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
       case 10:
         switch (src_size) {
         case 4: *((float80_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((float80_t *)dest) = *((float64_t *)src);   return 0;
         case 10: *((float80_t *)dest) = *((float80_t *)src);  return 0;
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((float80_t *)dest) = *((float96_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((float80_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
         }
-#endif  /* HAVE_FLOAT80 */
-#ifdef HAVE_FLOAT96
+#endif  /* HAVE_FLOAT80_T */
+#ifdef HAVE_FLOAT96_T
       case 10:
         switch (src_size) {
         case 4: *((float96_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((float96_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((float96_t *)dest) = *((float80_t *)src);  return 0;
 #endif
         case 12: *((float96_t *)dest) = *((float96_t *)src);  return 0;
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16: *((float96_t *)dest) = *((float128_t *)src); return 0;
 #endif
         default: goto fail;
         }
-#endif  /* HAVE_FLOAT96 */
-#ifdef HAVE_FLOAT128
+#endif  /* HAVE_FLOAT96_T */
+#ifdef HAVE_FLOAT128_T
       case 16:
         switch (src_size) {
         case 4: *((float128_t *)dest) = *((float32_t *)src);   return 0;
         case 8: *((float128_t *)dest) = *((float64_t *)src);   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
         case 10: *((float128_t *)dest) = *((float80_t *)src);  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
         case 12: *((float128_t *)dest) = *((float96_t *)src);  return 0;
 #endif
         case 16: *((float128_t *)dest) = *((float128_t *)src); return 0;
@@ -803,13 +803,13 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       switch (dest_size) {
       case 4: *((float32_t *)dest) = vf;   return 0;
       case 8: *((float64_t *)dest) = vf;   return 0;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
       case 10: *((float80_t *)dest) = vf;  return 0;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
       case 12: *((float96_t *)dest) = vf;  return 0;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
       case 16: *((float128_t *)dest) = vf; return 0;
 #endif
       default: goto fail;
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 9b841a7..3ae145b 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -78,13 +78,13 @@ static struct _TypeDescr {
   {"longdouble",dliteFloat,    sizeof(long double),   alignof(long double)},
   {"float32",  dliteFloat,     4,                     alignof(float32_t)},
   {"float64",  dliteFloat,     8,                     alignof(float64_t)},
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
   {"float80",  dliteFloat,     10,                    alignof(float80_t)},
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
   {"float96",  dliteFloat,     12,                    alignof(float96_t)},
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
   {"float128", dliteFloat,     16,                    alignof(float128_t)},
 #endif
   {"string",   dliteStringPtr, sizeof(char *),        alignof(char *)},
@@ -816,7 +816,7 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
         case 8:
           snprintf(buf, sizeof(buf), "%.*g", r, *((float64_t *)p));
           same = (strtod(buf, NULL) == *((float64_t *)p)); break;
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
         case 16:
           snprintf(buf, sizeof(buf), "%.*Lg", r, *((float128_t *)p));
           same = (strtold(buf, NULL) == *((float128_t *)p)); break;
@@ -828,13 +828,13 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     switch (size) {
     case 4:  m = snprintf(dest, n, "%*.*g",  w, r, *((float32_t *)p)); break;
     case 8:  m = snprintf(dest, n, "%*.*g",  w, r, *((float64_t *)p)); break;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
     case 10: m = snprintf(dest, n, "%*.*Lg", w, r, *((float80_t *)p)); break;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
     case 12: m = snprintf(dest, n, "%*.*Lg", w, r, *((float96_t *)p)); break;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
     case 16: m = snprintf(dest, n, "%*.*Lg", w, r, *((float128_t *)p)); break;
 #endif
     default: return err(dliteValueError, "invalid int size: %lu", (unsigned long)size);
@@ -1094,13 +1094,13 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
     switch (size) {
     case 4:  v = sscanf(src, "%f%n",  ((float32_t *)p), &m); break;
     case 8:  v = sscanf(src, "%lf%n", ((float64_t *)p), &m); break;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
     case 10: v = sscanf(src, "%Lf%n", ((float80_t *)p), &m); break;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
     case 12: v = sscanf(src, "%Lf%n", ((float96_t *)p), &m); break;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
     case 16: v = sscanf(src, "%Lf%n", ((float128_t *)p), &m); break;
 #endif
     default: return err(dliteValueError, "invalid int size: %lu", (unsigned long)size);
-- 
2.43.0


From aaa219c9c7e7c8b92cf5a623d249ac6a9570659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:17 +0000
Subject: [PATCH 067/161] fix: testing for existence of a template variable
 without name is an error

---
 src/utils/tgen.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 191a556..b01b15a 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1122,6 +1122,10 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
             return err(TGenVariableError,
                        "line %d: expect '}' after '?' in var '%.*s'",
                        tgen_lineno(template, t), len, t);
+          if (len == 0)
+            return err(TGenVariableError,
+                       "line %d: expect variable name before '?'",
+                       tgen_lineno(template, t));
           tgen_buf_append_fmt(s, "%d",
                               (tgen_subs_getn(subs, t, len)) ? 1 : 0);
           t += len + 2;
-- 
2.43.0


From ba557871b8111ad60025fff8a73192ff77238339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:54 +0000
Subject: [PATCH 068/161] fix: refusing to create existing metadata with other
 content released a reference it did not own

---
 src/dlite-entity.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index fe28496..036dee5 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2580,15 +2580,16 @@ dlite_meta_create(const char *uri, const char *description,
 
   if ((e = dlite_instance_has(uri, 0))) {
     DLiteMeta *meta = (DLiteMeta *)e;
+    /* `e` is a borrowed reference, so don't go to fail... */
     if (!dlite_instance_is_meta(e))
-      FAILCODE1(dliteMetadataExistError,
-                "cannot create metadata \"%s\" since it already exists as a "
-                "non-metadata instance", uri);
+      return err(dliteMetadataExistError,
+                 "cannot create metadata \"%s\" since it already exists as a "
+                 "non-metadata instance", uri), NULL;
     if (meta->_ndimensions != ndimensions ||
         meta->_nproperties != nproperties)
-      FAILCODE1(dliteMetadataExistError,
-                "cannot create metadata \"%s\" since it already exists with "
-                "different number of dimensions and/or properties", uri);
+      return err(dliteMetadataExistError,
+                 "cannot create metadata \"%s\" since it already exists with "
+                 "different number of dimensions and/or properties", uri), NULL;
     // TODO: check that dimensions and properties matches
     dlite_meta_incref(meta);
     return meta;
-- 
2.43.0


From 73bded0ed10807c23599617fafd4b9fe2d414356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:09 +0000
Subject: [PATCH 069/161] fix: instances added more than once to a store were
 never released by dlite_store_free() and dlite_store_pop_all()

---
 src/dlite-store.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dlite-store.c b/src/dlite-store.c
index 234dacc..26f6950 100644
--- a/src/dlite-store.c
+++ b/src/dlite-store.c
@@ -51,7 +51,7 @@ void dlite_store_free(DLiteStore *store)
   while ((uuid = map_next(&store->map, &iter))) {
     item_t *item = (item_t *)map_get(&store->map, uuid);
     assert(item);
-    dlite_instance_decref(item->inst);
+    while (item->refcount-- > 0) dlite_instance_decref(item->inst);
   }
   map_deinit(&store->map);
   free(store);
@@ -168,6 +168,9 @@ DLiteInstance *dlite_store_pop_all(DLiteStore *store, const char *id)
   if (!(item = (item_t *)map_get(&store->map, uuid)))
     FAIL1("id '%s' is not in store", id);
   inst = item->inst;
+
+  /* the store owns one reference per occurence - hand over one of them */
+  while (--item->refcount > 0) dlite_instance_decref(inst);
   map_remove(&store->map, uuid);
   return inst;
  fail:
-- 
2.43.0


From 71209903f17ee3ab531758ec9b456fe1d68f5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 070/161] fix: failing to parse JSON of an instance that
 already exists freed it although others hold references

---
 src/dlite-json.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 690dbe3..69fcf72 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -618,7 +618,7 @@ static int get_meta_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
 static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
                                      const char *id)
 {
-  int ok=0;
+  int ok=0, existed=0;
   const jsmntok_t *item, *t;
   char *buf=NULL, *uri=NULL, *metauri=NULL, uuid[DLITE_UUID_LENGTH+1];
   size_t i, *dims=NULL;
@@ -717,6 +717,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   }
 
   /* Create instance */
+  existed = (id && *id && dlite_instance_has(id, 0));
   if (!(inst = dlite_instance_create(meta, dims, id))) goto fail;
 
   /* Parse properties */
@@ -803,8 +804,12 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   if (uri) free(uri);
   if (metauri) free(metauri);
   if (!ok && inst) {
-    /* Metadata has an extra refcount, so loop until refcount is zero */
-    while (dlite_instance_decref(inst) > 0);
+    if (existed)
+      /* Others may hold references, so only release our own reference */
+      dlite_instance_decref(inst);
+    else
+      /* Metadata has an extra refcount, so loop until refcount is zero */
+      while (dlite_instance_decref(inst) > 0);
     inst = NULL;
   }
   if (meta) dlite_meta_decref((DLiteMeta *)meta);
-- 
2.43.0


From 3e7ed93e02b8372f9c01b192c2497ea52f7a5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:48 +0000
Subject: [PATCH 071/161] fix: loading an instance from an open storage a
 second time returned a released instance

---
 src/dlite-storage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index f08a21c..17f4ab4 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -253,7 +253,10 @@ DLiteInstance *dlite_storage_load(const DLiteStorage *s, const char *id)
        break recursive calls */
     map_set(&(((DLiteStorage *)s)->cache), uuid, NULL);
     inst = s->api->loadInstance(s, id);
-    map_set(&(((DLiteStorage *)s)->cache), uuid, inst);
+
+    /* Do not keep `inst` in the cache, since the storage owns no reference
+       to it. */
+    map_remove(&(((DLiteStorage *)s)->cache), uuid);
   }
   return inst;
 }
-- 
2.43.0


From a1d760bbba13a4b2e73e5adbfe76801adbe5f199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 072/161] fix: hashing metadata whose dimensions or properties
 are not yet assigned dereferenced NULL

---
 src/dlite-type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 3ae145b..e5a1f47 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1334,7 +1334,7 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
   case dliteDimension:
     {
       const DLiteDimension *d = ptr;
-      sha3_Update(c, d->name, strlen(d->name));
+      if (d->name) sha3_Update(c, d->name, strlen(d->name));
       if (d->description)
         sha3_Update(c, d->description, strlen(d->description));
     }
@@ -1352,7 +1352,7 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
     {
       int i;
       const DLiteProperty *p = ptr;
-      sha3_Update(c, p->name, strlen(p->name));
+      if (p->name) sha3_Update(c, p->name, strlen(p->name));
       sha3_Update(c, &p->type, sizeof(DLiteType));
       if (!dlite_type_is_allocated(p->type)) {
         uint64_t size = p->size;  /* For consistency between x86_64 and i686 */
-- 
2.43.0


From 9dee65e70b1e85674e1e33bd8bcac0b3f4a65894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 073/161] fix: the hash did not depend on the datatype of
 relations and the reference type of properties

---
 src/dlite-type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index e5a1f47..eb74d6f 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1358,6 +1358,7 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
         uint64_t size = p->size;  /* For consistency between x86_64 and i686 */
         sha3_Update(c, &size, sizeof(uint64_t));
       }
+      if (p->ref) sha3_Update(c, p->ref, strlen(p->ref));
       sha3_Update(c, &p->ndims, sizeof(int));
       for (i=0; i<p->ndims; i++)
         sha3_Update(c, p->shape[i], strlen(p->shape[i]));
@@ -1373,6 +1374,7 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
       if (rel->s) sha3_Update(c, rel->s, strlen(rel->s));
       if (rel->p) sha3_Update(c, rel->p, strlen(rel->p));
       if (rel->o) sha3_Update(c, rel->o, strlen(rel->o));
+      if (rel->d) sha3_Update(c, rel->d, strlen(rel->d));
     }
     break;
 
-- 
2.43.0


From 4fa59258afb3286b3821101d4f443ec1854fee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:45 +0000
Subject: [PATCH 074/161] fix: calculating a hash of unsupported size used an
 uninitialised hash context

---
 src/dlite-collection.c | 4 +++-
 src/dlite-entity.c     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 1d78f8e..0cfd896 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -95,7 +95,9 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   int retval=1;
 
   /* Initiate calculation of hash */
-  sha3_Init(&c, bitsize);
+  if (sha3_Init(&c, bitsize))
+    return err(dliteValueError, "hash size must be 32, 48 or 64 bytes, got %d",
+               hashsize);
   sha3_SetFlags(&c, SHA3_FLAGS_KECCAK);
 
   if (coll->_parent) {
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 036dee5..90526e8 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2172,7 +2172,9 @@ int dlite_instance_get_hash(const DLiteInstance *inst,
   if (inst->meta->_gethash)
     return inst->meta->_gethash(inst, hash, hashsize);
 
-  sha3_Init(&c, bitsize);
+  if (sha3_Init(&c, bitsize))
+    return err(dliteValueError, "hash size must be 32, 48 or 64 bytes, got %d",
+               hashsize);
   sha3_SetFlags(&c, SHA3_FLAGS_KECCAK);
 
   if (inst->_parent) {
-- 
2.43.0


From aac76567d18a4ffd7ec8322e1def815338c1fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 075/161] fix: the transaction parent of an instance was not
 restored when loaded from JSON

---
 src/dlite-json.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 69fcf72..05914c2 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -607,6 +607,34 @@ static int get_meta_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
 }
 
 
+/*
+  Assign reference to the parent of transaction `inst` from json object `obj`.
+  Returns non-zero on error.
+*/
+static int parse_parent(const char *src, const jsmntok_t *obj,
+                        DLiteInstance *inst)
+{
+  const jsmntok_t *u = jsmn_item(src, obj, "uuid");
+  const jsmntok_t *h = jsmn_item(src, obj, "hash");
+  DLiteParent *parent;
+  if (inst->_parent) return 0;
+  if (!u || u->end - u->start != DLITE_UUID_LENGTH ||
+      !h || h->end - h->start != 2*DLITE_HASH_SIZE)
+    return err(dliteParseError, "invalid uuid or hash of parent of: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
+  if (!(parent = calloc(1, sizeof(DLiteParent))))
+    return err(dliteMemoryError, "allocation failure");
+  memcpy(parent->uuid, src + u->start, DLITE_UUID_LENGTH);
+  if (strhex_decode(parent->hash, DLITE_HASH_SIZE, src + h->start,
+                    2*DLITE_HASH_SIZE) < 0) {
+    free(parent);
+    return err(dliteParseError, "invalid hash of parent of: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
+  }
+  inst->_parent = parent;
+  return 0;
+}
+
 /*
   Help function for parsing an instance.
   - src: json source
@@ -794,6 +822,11 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   }
   if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
     goto fail;
+
+  /* Parse transaction parent */
+  if ((item = jsmn_item(src, obj, "parent")) && item->type == JSMN_OBJECT &&
+      parse_parent(src, item, inst)) goto fail;
+
   ok = 1;
  fail:
   if (name) free(name);
-- 
2.43.0


From 30874a4b12b11be383ae83326d5a0fbc3070681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 076/161] fix: the transaction parent of an instance was not
 restored when loaded from BSON

---
 src/dlite-bson.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 48fac5c..66efb33 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -1011,6 +1011,21 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
                 (int)inst->meta->_nproperties, (int)nprops);
   }
 
+  /* Transaction parent */
+  if ((type = bson_scan(doc, "parent", (void **)&subdoc, NULL)) < 0) goto fail;
+  if (type == bsonDocument && !inst->_parent) {
+    const char *puuid = bson_scan_string(subdoc, "uuid", NULL);
+    type = bson_scan(subdoc, "hash", &data, &datasize);
+    if (!puuid || strlen(puuid) != DLITE_UUID_LENGTH ||
+        type != bsonBinary || datasize != DLITE_HASH_SIZE)
+      FAILCODE1(dliteInconsistentDataError, "invalid uuid or hash of parent "
+                "of: %s", id);
+    if (!(inst->_parent = calloc(1, sizeof(DLiteParent))))
+      FAILCODE(dliteMemoryError, "allocation failure");
+    memcpy(inst->_parent->uuid, puuid, DLITE_UUID_LENGTH);
+    memcpy(inst->_parent->hash, data, DLITE_HASH_SIZE);
+  }
+
   ok = 1;
  fail:
   if (name) free(name);
-- 
2.43.0


From da3d96caca105ccd43269f1c24b05312d65aad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:02 +0000
Subject: [PATCH 077/161] fix: snapshots pulled back from storage were mutable
 and pulling a snapshot that is in memory gave an unowned reference

---
 src/dlite-entity.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 90526e8..5de0d8a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2317,8 +2317,10 @@ const DLiteInstance *dlite_instance_get_snapshot(const DLiteInstance *inst,
     if (p->parent) {
       cur = p->parent;
     } else {
-      if (!(p->parent = dlite_instance_get(p->uuid))) return NULL;
-      cur = p->parent;
+      DLiteInstance *parent;
+      if (!(parent = dlite_instance_get(p->uuid))) return NULL;
+      dlite_instance_freeze(parent);  /* snapshots are immutable */
+      cur = p->parent = parent;
     }
   }
   assert(cur);
@@ -2346,8 +2348,10 @@ const DLiteInstance *dlite_instance_pull_snapshot(const DLiteInstance *inst,
     if (p->parent) {
       cur = p->parent;
     } else {
-      if (!(p->parent = dlite_storage_load(s, p->uuid))) return NULL;
-      cur = p->parent;
+      DLiteInstance *parent;
+      if (!(parent = dlite_instance_load(s, p->uuid))) return NULL;
+      dlite_instance_freeze(parent);  /* snapshots are immutable */
+      cur = p->parent = parent;
     }
   }
   assert(cur);
-- 
2.43.0


From ec95e0c11581c073b531611c77f40c9a54a79e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:35 +0000
Subject: [PATCH 078/161] fix: properties of immutable instances could be
 changed with dlite_instance_assign_property()

---
 src/dlite-entity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 5de0d8a..deacb5e 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2125,6 +2125,9 @@ int dlite_instance_assign_casted_property_by_index(const DLiteInstance *inst,
   void *dest = dlite_instance_get_property_by_index(inst, i);
   DLiteProperty *p = inst->meta->_properties + i;
   size_t *dims = DLITE_PROP_DIMS(inst, i);
+  if (inst->_flags & dliteImmutable)
+    return err(1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
   return dlite_type_ndcast(p->ndims,
                            dest, p->type, p->size, dims, NULL,
                            src, type, size, shape, strides,
-- 
2.43.0


From 940ee7652ff306784b44d6a20586d489211c6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 079/161] fix: properties of immutable instances could be
 changed with dlite_instance_scan_property()

---
 src/dlite-entity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index deacb5e..503e542 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1683,6 +1683,9 @@ int dlite_instance_scan_property_by_index(const char *src,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
+  if (inst->_flags & dliteImmutable)
+    return err(-1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
   if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
-- 
2.43.0


From 890585ba51890db66e81f5ec7303e7754325f5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 080/161] fix: parsing JSON of an existing immutable instance
 changed it

---
 src/dlite-json.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 05914c2..99f1bde 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -748,6 +748,12 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   existed = (id && *id && dlite_instance_has(id, 0));
   if (!(inst = dlite_instance_create(meta, dims, id))) goto fail;
 
+  /* Immutable instances cannot be updated, just return the new reference */
+  if (existed && dlite_instance_is_frozen(inst)) {
+    ok = 1;
+    goto fail;
+  }
+
   /* Parse properties */
   if (meta->_nproperties > 0) {
     const jsmntok_t *base=obj;  // assigned to make cppcheck happy...
-- 
2.43.0


From 2aa4944854fa39a3465cb58947714a16a95dc4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 081/161] fix: hash of a collection covers all its relations

The triplestore reuses the triple it returns, so with Redland the hash
only depended on the last relation.  Also release the instances hashed.
---
 src/dlite-collection.c | 46 +++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 0cfd896..b678dd4 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -60,7 +60,7 @@ int dlite_collection_deinit(DLiteInstance *inst)
 /* Help function for dlite_collection_gethash().
    Returns 1 if a > b, 0 if a == b and -1 if a < b. */
 int _cmp_triple(const void *a, const void *b) {
-  const Triple *t1=*(Triple **)a, *t2=*(Triple **)b;
+  const Triple *t1=a, *t2=b;
   int v;
   if ((v = strcmp(t1->s, t2->s))) return v;
   if ((v = strcmp(t1->p, t2->p))) return v;
@@ -90,8 +90,9 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   const uint8_t *buf;
   unsigned bitsize = hashsize * 8;
   TripleState state;
-  const Triple *t, **triples=NULL;
-  size_t i=0, n=triplestore_length(coll->rstore);
+  const Triple *t;
+  Triple *triples=NULL;
+  size_t i, ntriples=0, n=triplestore_length(coll->rstore);
   int retval=1;
 
   /* Initiate calculation of hash */
@@ -106,39 +107,45 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   }
   sha3_Update(&c, coll->meta->uri, strlen(coll->meta->uri));
 
-  /* Calculate the hash of a sorted copy of the relations */
+  /* Calculate the hash of a sorted copy of the relations.  Note that
+     the triple returned by triplestore_next() is only valid until the
+     next call that accesses the triplestore. */
   triplestore_init_state(coll->rstore, &state);
-  if (!(triples = malloc(n * sizeof(Triple *))))
+  if (n && !(triples = calloc(n, sizeof(Triple))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  while ((t = triplestore_next(&state))) {
-    triples[i++] = t;
+  while (ntriples < n && (t = triplestore_next(&state))) {
+    if (!triple_copy(&triples[ntriples], t)) goto fail;
+    ntriples++;
   }
-  assert(i == n);
-  qsort((void *)triples, n, sizeof(Triple *), _cmp_triple);
+  assert(ntriples == n);
+  if (n) qsort(triples, n, sizeof(Triple), _cmp_triple);
   for (i=0; i<n; i++) {
-    if (strcmp(triples[i]->p, "_has-hash") == 0) continue;
-    if (strcmp(triples[i]->p, "_has-uuid") == 0) {
+    if (strcmp(triples[i].p, "_has-hash") == 0) continue;
+    if (strcmp(triples[i].p, "_has-uuid") == 0) {
       if ((t = triplestore_find_first(coll->rstore,
-                                      triples[i]->s, "_has-hash", NULL,
+                                      triples[i].s, "_has-hash", NULL,
                                       NULL))) {
         _sha3_update_triple(&c, t);
       } else {
         uint8_t hash[DLITE_HASH_SIZE];
         DLiteInstance * inst;
         char hex[2*DLITE_HASH_SIZE+1];
-        if (!(inst = dlite_instance_get(triples[i]->o))) goto fail;
-        if (dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE))
+        int stat;
+        if (!(inst = dlite_instance_get(triples[i].o))) goto fail;
+        stat = dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE);
+        dlite_instance_decref(inst);
+        if (stat)
           FAILCODE1(dliteValueError,
-                    "error calculating hash of instance '%s'", triples[i]->o);
+                    "error calculating hash of instance '%s'", triples[i].o);
         if (strhex_encode(hex, sizeof(hex), hash, DLITE_HASH_SIZE) < 0)
           FAILCODE1(dliteValueError,
-                    "failed hex-encoding hash of '%s'", triples[i]->o);
-        sha3_Update(&c, triples[i]->s, strlen(triples[i]->s));
+                    "failed hex-encoding hash of '%s'", triples[i].o);
+        sha3_Update(&c, triples[i].s, strlen(triples[i].s));
         sha3_Update(&c, "_has-hash", 9);
         sha3_Update(&c, hex, 2*DLITE_HASH_SIZE);
       }
     }
-    _sha3_update_triple(&c, triples[i]);
+    _sha3_update_triple(&c, &triples[i]);
   }
 
   buf = sha3_Finalize(&c);
@@ -146,7 +153,8 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   retval = 0;
  fail:
   triplestore_deinit_state(&state);
-  free((void *)triples);
+  for (i=0; i<ntriples; i++) triple_clean(&triples[i]);
+  free(triples);
   return retval;
 }
 
-- 
2.43.0


From e20ce9a92ed9b99c7f610bbaf3109db25cff68e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 082/161] fix: bytes after the end of a fixed string do not
 change the hash

---
 src/dlite-entity.c |  2 +-
 src/dlite-type.c   | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 503e542..1aaa87c 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2197,7 +2197,7 @@ int dlite_instance_get_hash(const DLiteInstance *inst,
     DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
     size_t j, len = 1;
     for (j=0; (int)j<p->ndims; j++) len *= DLITE_PROP_DIM(inst, i, j);
-    if (dlite_type_is_allocated(p->type)) {
+    if (dlite_type_is_allocated(p->type) || p->type == dliteFixString) {
       char *v = ptr;
       for (j=0; j<len; j++, v+=p->size)
         if ((retval = dlite_type_update_sha3(&c, v, p->type, p->size))) {
diff --git a/src/dlite-type.c b/src/dlite-type.c
index eb74d6f..67fac0e 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1378,6 +1378,20 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
     }
     break;
 
+  case dliteFixString:
+    /* Bytes after the terminating NUL are not part of the value. */
+    {
+      static const char zeros[64];
+      size_t n = strnlen(ptr, size);
+      sha3_Update(c, ptr, n);
+      while (n < size) {
+        size_t m = (size - n < sizeof(zeros)) ? size - n : sizeof(zeros);
+        sha3_Update(c, zeros, m);
+        n += m;
+      }
+    }
+    break;
+
   default:
     sha3_Update(c, ptr, size);
     break;
-- 
2.43.0


From ba7b49d060bded824fa924431673dab808883156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 083/161] fix: padding of long doubles does not change the hash

---
 src/dlite-entity.c |  3 ++-
 src/dlite-type.c   | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 1aaa87c..374ba4a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2197,7 +2197,8 @@ int dlite_instance_get_hash(const DLiteInstance *inst,
     DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
     size_t j, len = 1;
     for (j=0; (int)j<p->ndims; j++) len *= DLITE_PROP_DIM(inst, i, j);
-    if (dlite_type_is_allocated(p->type) || p->type == dliteFixString) {
+    if (dlite_type_is_allocated(p->type) || p->type == dliteFixString ||
+        (p->type == dliteFloat && p->size > sizeof(double))) {
       char *v = ptr;
       for (j=0; j<len; j++, v+=p->size)
         if ((retval = dlite_type_update_sha3(&c, v, p->type, p->size))) {
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 67fac0e..c48acb6 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1,6 +1,7 @@
 #include "config.h"
 
 #include <assert.h>
+#include <float.h>
 #include <string.h>
 #include <stddef.h>
 #include <ctype.h>
@@ -1392,6 +1393,19 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
     }
     break;
 
+#if LDBL_MANT_DIG == 64
+  case dliteFloat:
+    /* The padding of x87 extended precision floats has no value. */
+    if (size > 10 && size == sizeof(long double)) {
+      static const char zeros[sizeof(long double)];
+      sha3_Update(c, ptr, 10);
+      sha3_Update(c, zeros, size - 10);
+      break;
+    }
+    sha3_Update(c, ptr, size);
+    break;
+#endif
+
   default:
     sha3_Update(c, ptr, size);
     break;
-- 
2.43.0


From 21f56ab0a505d96256dbddee58336abee126af11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 084/161] fix: dlite_collection_from_instance() refused
 collections

---
 src/dlite-collection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index b678dd4..8348ebd 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -261,7 +261,7 @@ void dlite_collection_decref(DLiteCollection *coll)
  */
 DLiteCollection *dlite_collection_from_instance(DLiteInstance *inst)
 {
-  if (strcmp(inst->meta->uuid, DLITE_COLLECTION_ENTITY) != 0)
+  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0)
     return errx(dliteTypeError,
                 "cannot cast instance %s to a collection", inst->uuid), NULL;
   return (DLiteCollection *)inst;
-- 
2.43.0


From f2f7b3dd3135f918689c0b115504defe87a38003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 085/161] fix: loading a collection loaded the metadata of its
 instances instead of the instances and leaked them

---
 src/dlite-collection.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 8348ebd..17d18d6 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -289,6 +289,9 @@ DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
   DLiteCollection *coll;
   DLiteCollectionState state;
   const Triple *t, *t2;
+  DLiteInstance *inst;
+  char uuid[DLITE_UUID_LENGTH+1];
+  char *label=NULL;
 
   if (!(coll = (DLiteCollection *)dlite_instance_load(s, id)))
     return NULL;
@@ -301,20 +304,31 @@ DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
   dlite_collection_init_state(coll, &state);
   while ((t = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
                                     NULL))) {
-    if (!(t2 = dlite_collection_find_first(coll, t->s, "_has-meta", NULL,
+    /* The content of `t` is overwritten by the next search. */
+    if (dlite_get_uuid(uuid, t->o) < 0) goto fail;
+    free(label);
+    if (!(label = strdup(t->s)))
+      FAILCODE(dliteMemoryError, "allocation failure");
+
+    if (!(t2 = dlite_collection_find_first(coll, label, "_has-meta", NULL,
                                            NULL)))
       FAILCODE1(dliteInconsistentDataError,
                 "collection inconsistency - no \"_has-meta\" relation for "
-                "instance: %s", t->s);
-    if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0) {
-      if (!dlite_collection_load(s, t->o, 0)) goto fail;
-    } else {
-      if (!dlite_instance_load(s, t->o)) goto fail;
-    }
+                "instance: %s", label);
+    if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0)
+      inst = (DLiteInstance *)dlite_collection_load(s, uuid, 0);
+    else
+      inst = dlite_instance_load(s, uuid);
+    if (!inst) goto fail;
+
+    /* The collection already got its own reference when it was loaded. */
+    dlite_instance_decref(inst);
   }
   dlite_collection_deinit_state(&state);
+  free(label);
   return coll;
  fail:
+  free(label);
   dlite_collection_deinit_state(&state);
   if (coll) dlite_collection_decref(coll);
   return NULL;
-- 
2.43.0


From d517609fcab9c82605ea99ba8dd44d77ae591c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:11 +0000
Subject: [PATCH 086/161] fix: document that dlite_collection_get_id() returns
 a new reference

---
 bindings/python/dlite-collection.i | 2 --
 src/dlite-collection.c             | 2 +-
 src/dlite-collection.h             | 2 +-
 3 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 1d0527d..789a34d 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -58,8 +58,6 @@ struct _DLiteInstance *
 dlite_collection_get_new(const struct _DLiteCollection *coll,
                          const char *label, const char *metaid);
 
-// Although dlite_collection_get_id() returns a borrowed reference in C,
-// we create a new object in Python that must be properly deallocated.
 %newobject dlite_collection_get_id;
 const struct _DLiteInstance *
   dlite_collection_get_id(const struct _DLiteCollection *coll, const char *id);
diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 17d18d6..6fb5099 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -599,7 +599,7 @@ const DLiteInstance *dlite_collection_get(const DLiteCollection *coll,
 }
 
 /*
-  Returns borrowed reference to instance with given id or NULL on error.
+  Returns a new reference to instance with given id or NULL on error.
  */
 const DLiteInstance *dlite_collection_get_id(const DLiteCollection *coll,
                                              const char *id)
diff --git a/src/dlite-collection.h b/src/dlite-collection.h
index 49c802c..7254b56 100644
--- a/src/dlite-collection.h
+++ b/src/dlite-collection.h
@@ -263,7 +263,7 @@ const DLiteInstance *dlite_collection_get(const DLiteCollection *coll,
                                           const char *label);
 
 /**
-  Returns borrowed reference to instance with given id or NULL on error.
+  Returns a new reference to instance with given id or NULL on error.
  */
 const DLiteInstance *dlite_collection_get_id(const DLiteCollection *coll,
                                              const char *id);
-- 
2.43.0


From e05e929232c69bd3d490bba624b090de9003777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:53 +0000
Subject: [PATCH 087/161] fix: reading a collection from JSON ignored that its
 instances could not be found

---
 src/dlite-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 99f1bde..6a99121 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -823,7 +823,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         FAIL2("missing property \"%s\" in %s", p->name, id);
       }
 
-      if (meta->_loadprop) meta->_loadprop(inst, i);
+      if (meta->_loadprop && meta->_loadprop(inst, i)) goto fail;
     }
   }
   if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
-- 
2.43.0


From 42b7b0721e8ac7fc18218c76f456db2c9577f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 088/161] fix: a warning appended to the message of an error
 cleared the error

---
 src/utils/err.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index 1262dc3..63615f7 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -263,10 +263,13 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     }
   }
 
-  /* Update the current error record */
-  tls->err_record->level = errlevel;
-  tls->err_record->eval = eval;
-  tls->err_record->errnum = errnum;
+  /* Update the current error record.  A warning that is appended to an
+     error, does not clear the error. */
+  if (eval || !tls->err_record->pos) {
+    tls->err_record->level = errlevel;
+    tls->err_record->eval = eval;
+    tls->err_record->errnum = errnum;
+  }
 
   /* Write error message */
   if (!ignore_new_error) {
-- 
2.43.0


From e8c6231073822105bc366ad46f9769502ec734bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 089/161] fix: opening a JSON storage in write mode did not
 truncate it when nothing was saved

---
 storages/json/dlite-json-storage.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 9ac8171..42aa367 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -220,6 +220,14 @@ int json_close(DLiteStorage *s)
 {
   DLiteJsonStorage *js = (DLiteJsonStorage *)s;
   int stat=0;
+
+  /* Opening in write mode truncates the storage, also if nothing is saved */
+  if (js->location && !js->changed && !js->jstore &&
+      (js->flags & dliteWritable) && !(js->flags & dliteReadable)) {
+    if (!(js->jstore = jstore_open())) return 1;
+    js->changed = 1;
+  }
+
   if (js->jstore) {
     if (js->flags & dliteWritable && js->changed)
       stat = jstore_to_file(js->jstore, js->location);
-- 
2.43.0


From 9351a52af08bf59837dc9d2966ec19f052beb6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 090/161] fix: loading a non-existing instance from a writable
 HDF5 storage created it

---
 storages/hdf5/dh5lite.c | 101 +++++++++++++++++++++++++++++-----------
 1 file changed, 73 insertions(+), 28 deletions(-)

diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index c32f081..9c5da2c 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -35,6 +35,7 @@ typedef struct {
   hid_t meta;         /* h5 group identifier to metadata */
   hid_t dimensions;   /* h5 group identifier to dimensions */
   hid_t properties;   /* h5 group identifier to properties */
+  char *dataname;     /* name of an instance that is not yet created */
 } DH5DataModel;
 
 
@@ -491,6 +492,56 @@ int dh5_close(DLiteStorage *s)
 }
 
 
+/* Closes all open groups of data model `d`.  Returns non-zero on error. */
+static int close_groups(DH5DataModel *d)
+{
+  int stat=0;
+  if (d->properties >= 0 && H5Gclose(d->properties) < 0) stat = -1;
+  if (d->dimensions >= 0 && H5Gclose(d->dimensions) < 0) stat = -1;
+  if (d->meta       >= 0 && H5Gclose(d->meta)       < 0) stat = -1;
+  if (d->instance   >= 0 && H5Gclose(d->instance)   < 0) stat = -1;
+  d->instance = d->meta = d->dimensions = d->properties = -1;
+  return stat;
+}
+
+
+/* Creates the group structure of the instance represented by `d`, if
+   it doesn't already exists.  Returns non-zero on error. */
+static int create_groups(DH5DataModel *d)
+{
+  DH5Storage *sh5 = (DH5Storage *)d->s;
+  if (d->instance >= 0) return 0;
+
+  if ((d->instance = H5Gcreate(sh5->root, d->uuid, H5P_DEFAULT, H5P_DEFAULT,
+                               H5P_DEFAULT)) < 0)
+    FAILCODE2(dliteIOError, "cannot open/create group '/%s' in '%s'",
+              d->uuid, sh5->location);
+
+  if ((d->meta = H5Gcreate(d->instance, "meta", H5P_DEFAULT, H5P_DEFAULT,
+                           H5P_DEFAULT)) < 0)
+    FAILCODE2(dliteIOError, "cannot create group '/%s/meta' in '%s'",
+              d->uuid, sh5->location);
+
+  if ((d->dimensions = H5Gcreate(d->instance, "dimensions", H5P_DEFAULT,
+                                 H5P_DEFAULT, H5P_DEFAULT)) < 0)
+    FAILCODE2(dliteIOError, "cannot create group '/%s/dimensions' in '%s'",
+              d->uuid, sh5->location);
+
+  if ((d->properties = H5Gcreate(d->instance, "properties", H5P_DEFAULT,
+                                 H5P_DEFAULT, H5P_DEFAULT)) < 0)
+    FAILCODE2(dliteIOError, "cannot create group '/%s/properties' in '%s'",
+              d->uuid, sh5->location);
+
+  if (d->dataname)
+    return set_data((DLiteDataModel *)d, d->instance, "dataname", d->dataname,
+                    dliteFixString, strlen(d->dataname), 1, NULL);
+  return 0;
+ fail:
+  close_groups(d);
+  return -1;
+}
+
+
 DLiteDataModel *dh5_datamodel(const DLiteStorage *s, const char *uuid)
 {
   DH5DataModel *d;
@@ -500,6 +551,7 @@ DLiteDataModel *dh5_datamodel(const DLiteStorage *s, const char *uuid)
 
   if (!(d = calloc(1, sizeof(DH5DataModel))))
    FAILCODE(dliteMemoryError, "allocation failure");
+  d->instance = d->meta = d->dimensions = d->properties = -1;
 
   if ((exists = H5Lexists(sh5->root, uuid, H5P_DEFAULT)) < 0)
     FAILCODE2(dliteIOError, "cannot determine if '%s' exists in %s", uuid, sh5->location);
@@ -519,32 +571,19 @@ DLiteDataModel *dh5_datamodel(const DLiteStorage *s, const char *uuid)
       FAILCODE2(dliteIOError, "cannot open '/%s/properties' in '%s'", uuid, sh5->location);
 
   } else {
-    /* Instance `uuid` does not exists: create new group structure */
+    /* Instance `uuid` does not exists: the group structure is created
+       by create_groups() when something is written to the instance */
     if (!(s->flags & dliteWritable))
       FAILCODE2(dliteIOError, "cannot create new instance '%s' in read-only storage %s",
             uuid, sh5->location);
-    if ((d->instance = H5Gcreate(sh5->root, uuid, H5P_DEFAULT, H5P_DEFAULT,
-                                 H5P_DEFAULT)) < 0)
-      FAILCODE2(dliteIOError, "cannot open/create group '/%s' in '%s'", uuid, sh5->location);
-
-    if ((d->meta = H5Gcreate(d->instance, "meta", H5P_DEFAULT, H5P_DEFAULT,
-                             H5P_DEFAULT)) < 0)
-      FAILCODE2(dliteIOError, "cannot create group '/%s/meta' in '%s'", uuid, sh5->location);
-
-    if ((d->dimensions = H5Gcreate(d->instance, "dimensions", H5P_DEFAULT,
-                                   H5P_DEFAULT, H5P_DEFAULT)) < 0)
-      FAILCODE2(dliteIOError, "cannot create group '/%s/dimensions' in '%s'",
-            uuid, sh5->location);
-
-    if ((d->properties = H5Gcreate(d->instance, "properties", H5P_DEFAULT,
-                                   H5P_DEFAULT, H5P_DEFAULT)) < 0)
-      FAILCODE2(dliteIOError, "cannot create group '/%s/properties' in '%s'",
-            uuid, sh5->location);
   }
 
   retval = (DLiteDataModel *)d;
  fail:
-  if (!retval && d) free(d);
+  if (!retval && d) {
+    close_groups(d);
+    free(d);
+  }
   return retval;
 }
 
@@ -556,16 +595,9 @@ int dh5_datamodel_free(DLiteDataModel *d)
 {
   DH5DataModel *dh5=(DH5DataModel *)d;
   int nerr=0;
-  if (H5Gclose(dh5->properties) < 0)
-    nerr += err(dliteIOError, "cannot close /%s/properties in %s",
-                d->uuid, d->s->location);
-  if (H5Gclose(dh5->dimensions) < 0)
-    nerr += err(dliteIOError, "cannot close /%s/dimensions in %s",
-                d->uuid, d->s->location);
-  if (H5Gclose(dh5->meta) < 0)
-    nerr += err(dliteIOError, "cannot close /%s/meta in %s", d->uuid, d->s->location);
-  if (H5Gclose(dh5->instance) < 0)
+  if (close_groups(dh5))
     nerr += err(dliteIOError, "cannot close /%s in %s", d->uuid, d->s->location);
+  free(dh5->dataname);
   return nerr;
 }
 
@@ -636,6 +668,7 @@ int dh5_set_meta_uri(DLiteDataModel *d, const char *uri)
   size_t shape[1]={1};
   char *name, *version, *namespace;
 
+  if (create_groups(dh5)) return 1;
   if (dlite_split_meta_uri(uri, &name, &version, &namespace))
     return 1;
 
@@ -662,6 +695,7 @@ int dh5_set_dimension_size(DLiteDataModel *d, const char *name, size_t size)
   size_t shape[1]={1};
   int64_t dsize=size;
 
+  if (create_groups(dh5)) return -1;
   return set_data(d, dh5->dimensions, name, &dsize, dliteInt,
                   sizeof(int64_t), 1, shape);
 }
@@ -676,6 +710,7 @@ int dh5_set_property(DLiteDataModel *d, const char *name, const void *ptr,
                      size_t ndims, const size_t *shape)
 {
   DH5DataModel *dh5 = (DH5DataModel *)d;
+  if (create_groups(dh5)) return -1;
   return set_data(d, dh5->properties, name, ptr, type, size, ndims, shape);
 }
 
@@ -722,6 +757,7 @@ int dh5_has_dimension(const DLiteDataModel *d, const char *name)
 {
   DH5DataModel *dh5 = (DH5DataModel *)d;
   htri_t exists;
+  if (dh5->instance < 0) return 0;
   if ((exists = H5Lexists(dh5->dimensions, name, H5P_DEFAULT)) < 0)
     return err(dliteIndexError, "cannot determine if '%s' has dimension '%s' in %s",
                d->uuid, name, d->s->location);
@@ -736,6 +772,7 @@ int dh5_has_property(const DLiteDataModel *d, const char *name)
 {
   DH5DataModel *dh5 = (DH5DataModel *)d;
   htri_t exists;
+  if (dh5->instance < 0) return 0;
   if ((exists = H5Lexists(dh5->properties, name, H5P_DEFAULT)) < 0)
     return err(dliteAttributeError, "cannot determine if '%s' has property '%s' in %s",
                d->uuid, name, d->s->location);
@@ -751,6 +788,7 @@ char *dh5_get_dataname(const DLiteDataModel *d)
 {
   DH5DataModel *dh5 = (DH5DataModel *)d;
   char *s=NULL;
+  if (dh5->instance < 0) return (dh5->dataname) ? strdup(dh5->dataname) : NULL;
   if (get_data(d, dh5->instance, "dataname", &s,
                dliteStringPtr, sizeof(char *), 1, NULL)) return NULL;
   return s;
@@ -764,6 +802,13 @@ char *dh5_get_dataname(const DLiteDataModel *d)
 int dh5_set_dataname(DLiteDataModel *d, const char *name)
 {
   DH5DataModel *dh5 = (DH5DataModel *)d;
+  if (dh5->instance < 0) {  /* not created yet, see create_groups() */
+    char *p = strdup(name);
+    if (!p) return err(dliteMemoryError, "allocation failure");
+    free(dh5->dataname);
+    dh5->dataname = p;
+    return 0;
+  }
   return set_data(d, dh5->instance, "dataname", name,
                   dliteFixString, strlen(name), 1, NULL);
 }
-- 
2.43.0


From 4a920eb4e9a4e95d002595f4cb590b7c1105a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 091/161] Revert "fix: reading a collection from JSON ignored
 that its instances could not be found"

This reverts commit e05e929232c69bd3d490bba624b090de9003777b.
---
 src/dlite-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 6a99121..99f1bde 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -823,7 +823,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         FAIL2("missing property \"%s\" in %s", p->name, id);
       }
 
-      if (meta->_loadprop && meta->_loadprop(inst, i)) goto fail;
+      if (meta->_loadprop) meta->_loadprop(inst, i);
     }
   }
   if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
-- 
2.43.0


From 3a5a214e1ade46913c2e149764bf474a270c5aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:30 +0000
Subject: [PATCH 092/161] fix: keep creating data models at once in write-only
 HDF5 storages, and only discard existing content of JSON files

---
 storages/hdf5/dh5lite.c            |  8 ++++++--
 storages/json/dlite-json-storage.c | 11 ++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index 9c5da2c..1174a55 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -551,6 +551,8 @@ DLiteDataModel *dh5_datamodel(const DLiteStorage *s, const char *uuid)
 
   if (!(d = calloc(1, sizeof(DH5DataModel))))
    FAILCODE(dliteMemoryError, "allocation failure");
+  d->s = (DLiteStorage *)s;
+  strncpy(d->uuid, uuid, sizeof(d->uuid)-1);
   d->instance = d->meta = d->dimensions = d->properties = -1;
 
   if ((exists = H5Lexists(sh5->root, uuid, H5P_DEFAULT)) < 0)
@@ -571,11 +573,13 @@ DLiteDataModel *dh5_datamodel(const DLiteStorage *s, const char *uuid)
       FAILCODE2(dliteIOError, "cannot open '/%s/properties' in '%s'", uuid, sh5->location);
 
   } else {
-    /* Instance `uuid` does not exists: the group structure is created
-       by create_groups() when something is written to the instance */
+    /* Instance `uuid` does not exists: create new group structure.  If the
+       storage is readable, this may be an attempt to load an instance, so
+       wait with creating it until something is written to it. */
     if (!(s->flags & dliteWritable))
       FAILCODE2(dliteIOError, "cannot create new instance '%s' in read-only storage %s",
             uuid, sh5->location);
+    if (!(s->flags & dliteReadable) && create_groups(d)) goto fail;
   }
 
   retval = (DLiteDataModel *)d;
diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 42aa367..df8f63f 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -221,11 +221,16 @@ int json_close(DLiteStorage *s)
   DLiteJsonStorage *js = (DLiteJsonStorage *)s;
   int stat=0;
 
-  /* Opening in write mode truncates the storage, also if nothing is saved */
+  /* Opening in write mode discards old content, also if nothing is saved */
   if (js->location && !js->changed && !js->jstore &&
       (js->flags & dliteWritable) && !(js->flags & dliteReadable)) {
-    if (!(js->jstore = jstore_open())) return 1;
-    js->changed = 1;
+    FILE *fp = fopen(js->location, "r");
+    int has_content = (fp && fgetc(fp) != EOF);
+    if (fp) fclose(fp);
+    if (has_content) {
+      if (!(js->jstore = jstore_open())) return 1;
+      js->changed = 1;
+    }
   }
 
   if (js->jstore) {
-- 
2.43.0


From 16d5576d969c410dd5270640ee1c09a89c112107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 093/161] fix: errors when writing an instance to a JSON file
 were ignored

---
 src/dlite-json.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 99f1bde..af038c3 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -442,7 +442,8 @@ int dlite_json_fprint(FILE *fp, const DLiteInstance *inst, int indent,
   char *buf=NULL;
   size_t size=0;
   if ((m = dlite_json_asprint(&buf, &size, 0, inst, indent, flags)) >= 0) {
-    fprintf(fp, "%s\n", buf);
+    if (fprintf(fp, "%s\n", buf) < 0)
+      m = err(dliteIOError, "error writing json to stream");
     free(buf);
   }
   return m;
@@ -471,7 +472,8 @@ int dlite_json_printfile(const char *filename, const DLiteInstance *inst,
   if (!(fp = fopen(filename, "wt")))
     return err(1, "cannot write json to \"%s\"", filename);
   m = dlite_json_fprint(fp, inst, 0, flags);
-  fclose(fp);
+  if (fclose(fp) && m >= 0)
+    m = err(dliteIOError, "error writing json to \"%s\"", filename);
   return m;
 }
 
-- 
2.43.0


From 4e1001acbdbe42bed198e1a682d5e266d749a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 094/161] fix: errors when flushing and closing a JSON file
 were ignored

---
 src/utils/jstore.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index f46a54c..b4804a1 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -323,9 +323,10 @@ int jstore_to_file(JStore *js, const char *filename)
     return err(1, "cannot write JSON store to file \"%s\"", filename);
   }
   n = fwrite(buf, strlen(buf), 1, fp);
-  fclose(fp);
   free(buf);
-  return (n == 1) ? 0 : 1;
+  if (fclose(fp) || n != 1)
+    return err(1, "error writing JSON store to file \"%s\"", filename);
+  return 0;
 }
 
 /* Return number of elements in the store. */
-- 
2.43.0


From 92e10e2cd3cb997782a8a717043ff231ab8dc28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:19 +0000
Subject: [PATCH 095/161] fix: dlite_json_scanfile() used uninitialised
 variables when the file could not be read

---
 src/dlite-json.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index af038c3..44538f9 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -978,9 +978,9 @@ DLiteInstance *dlite_json_fscan(FILE *fp, const char *id, const char *metaid)
 DLiteInstance *dlite_json_scanfile(const char *filename, const char *id,
                                    const char *metaid)
 {
-  DLiteInstance *inst;
+  DLiteInstance *inst=NULL;
   FILE *fp;
-  char *buf;
+  char *buf=NULL;
   if (!(fp = fopen(filename, "r")))
     FAIL1("cannot open storage \"%s\"", filename);
   if (!(buf = fu_readfile(fp))) goto fail;
-- 
2.43.0


From 1c6e74c1fb4f232b02f9aef83c75a26af626dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 096/161] fix: dlite_json_printfile() returned a positive value
 when the file could not be opened

---
 src/dlite-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 44538f9..3e882b9 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -470,7 +470,7 @@ int dlite_json_printfile(const char *filename, const DLiteInstance *inst,
   FILE *fp;
   int m;
   if (!(fp = fopen(filename, "wt")))
-    return err(1, "cannot write json to \"%s\"", filename);
+    return err(-1, "cannot write json to \"%s\"", filename);
   m = dlite_json_fprint(fp, inst, 0, flags);
   if (fclose(fp) && m >= 0)
     m = err(dliteIOError, "error writing json to \"%s\"", filename);
-- 
2.43.0


From dfff9676da4b720332c098f905f903e8f357dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 097/161] fix: dlite_collection_save_url() ignored errors when
 the storage was closed

---
 src/dlite-collection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 6fb5099..89fb21a 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -397,7 +397,8 @@ int dlite_collection_save_url(DLiteCollection *coll, const char *url)
   if (!(s = dlite_storage_open(driver, path, options))) goto fail;
   retval = dlite_collection_save(coll, s);
  fail:
-  if (s) dlite_storage_close(s);
+  /* Data may not be written to the storage before it is closed */
+  if (s && dlite_storage_close(s) && !retval) retval = 1;
   if (str) free(str);
   return retval;
 }
-- 
2.43.0


From 72e72217743a0cc3f40756db8eda6aba67608491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:58 +0000
Subject: [PATCH 098/161] fix: a JSON file that could not be read was
 overwritten when opened without mode

---
 storages/json/dlite-json-storage.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index df8f63f..79d813c 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -34,23 +34,34 @@ typedef struct {
     - 'w': if we can't open `uri`
     - 'r': if `uri` is in single-entity format
     - 'a': otherwise
+  Returns a negative value on error, e.g. if `uri` exists, but cannot be read.
 */
 static int default_mode(const char *uri, const unsigned char *buf, size_t size)
 {
   int mode, stat;
-  JStore *js = jstore_open();
+  char *content=NULL;
+  JStore *js;
+
+  /* A file that exists, but cannot be read must not be overwritten */
+  if (uri) {
+    if (fu_exists(uri)) return 'w';
+    if (!(content = jstore_readfile(uri)))
+      return err(dliteStorageLoadError, "cannot load JSON file \"%s\"", uri);
+    buf = (const unsigned char *)content;
+    size = strlen(content);
+  }
+
+  js = jstore_open();
 
   ErrTry:
-    if (uri)
-      stat = jstore_update_from_file(js, uri);
-    else
-      stat = jstore_update_from_string(js, (const char *)buf, size);
+    stat = jstore_update_from_string(js, (const char *)buf, size);
   ErrCatch(1):
     break;
   ErrEnd;
 
   mode = (stat) ? 'w' : (jstore_get(js, "properties")) ? 'r' : 'a';
   jstore_close(js);
+  free(content);
   return mode;
 }
 
@@ -120,7 +131,7 @@ DLiteStorage *json_loader(const DLiteStoragePlugin *api, const char *uri,
   s->api = api;
 
   if (!mode)
-    mode = default_mode(uri, buf, size);
+    if ((mode = default_mode(uri, buf, size)) < 0) goto fail;
   s->flags |= dliteGeneric;
   switch (mode) {
   case 'r':
-- 
2.43.0


From cbfe8c62e9ecd5854be0316f2da1c91b1c504d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:58 +0000
Subject: [PATCH 099/161] fix: failing to see whether a JSON file has content
 to discard was ignored

---
 storages/json/dlite-json-storage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 79d813c..2591147 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -236,7 +236,8 @@ int json_close(DLiteStorage *s)
   if (js->location && !js->changed && !js->jstore &&
       (js->flags & dliteWritable) && !(js->flags & dliteReadable)) {
     FILE *fp = fopen(js->location, "r");
-    int has_content = (fp && fgetc(fp) != EOF);
+    int has_content = (fp) ? (fgetc(fp) != EOF || (ferror(fp) && errno != EISDIR))
+                           : (errno != ENOENT);
     if (fp) fclose(fp);
     if (has_content) {
       if (!(js->jstore = jstore_open())) return 1;
-- 
2.43.0


From 892a855f1f12e6d383b7ab618cbfe313cc0dc585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 100/161] fix: JSON with keys without values and other
 malformed objects was accepted and read outside the parsed tokens

---
 src/utils/jsmnx.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index 9d761ed..ce447ed 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -20,6 +20,28 @@
 #include "jsmn.h"
 #include "jsmnx.h"
 
+/* Returns `ntokens` if `tokens` form one well-formed JSON value, that
+   is: there is one root token, all object keys are strings with exactly
+   one value and nothing else than objects, arrays and object keys have
+   sub-tokens.  Otherwise JSMN_ERROR_INVAL is returned.
+
+   Negative values of `ntokens` are returned unchanged. */
+static int check_tokens(const jsmntok_t *tokens, int ntokens)
+{
+  int i;
+  for (i=0; i < ntokens; i++) {
+    const jsmntok_t *t = tokens + i;
+    int iskey = (t->parent >= 0 && tokens[t->parent].type == JSMN_OBJECT);
+    if ((t->parent < 0) != (i == 0)) return JSMN_ERROR_INVAL;
+    if (iskey && (t->type != JSMN_STRING || t->size != 1))
+      return JSMN_ERROR_INVAL;
+    if (!iskey && t->size && t->type != JSMN_OBJECT && t->type != JSMN_ARRAY)
+      return JSMN_ERROR_INVAL;
+  }
+  return ntokens;
+}
+
+
 /*
   Like jsmn_parse(), but realloc's the buffer pointed to by `tokens_ptr`
   if it is too small.  `num_tokens_ptr` should point to the number of
@@ -51,7 +73,7 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
     jsmn_parser saved_parser;
     memcpy(&saved_parser, parser, sizeof(saved_parser));
     ntokens = jsmn_parse(parser, js, len, *tokens_ptr, *num_tokens_ptr);
-    if (ntokens != JSMN_ERROR_NOMEM) return ntokens;
+    if (ntokens != JSMN_ERROR_NOMEM) return check_tokens(*tokens_ptr, ntokens);
 
     // Try to handle JSMN_ERROR_NOMEM by reallocating
     if ((ntokens = jsmn_required_tokens(js, len)) < 0) return ntokens;
@@ -66,6 +88,7 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
 
   ntokens = jsmn_parse(parser, js, len, tokens, ntokens);
   assert(ntokens != JSMN_ERROR_NOMEM);
+  ntokens = check_tokens(tokens, ntokens);
   if (ntokens < 0) {
     /* nothing to return, so release the tokens */
     free(tokens);
-- 
2.43.0


From f07d7b0cbb836d27ea07dc44ce843db18c5669d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 101/161] fix: JSON values of instances that are not objects
 caused an assertion failure

---
 src/dlite-json.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 3e882b9..0267f53 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -657,7 +657,9 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   jsmntype_t dimtype = 0;
   char *name=NULL, *version=NULL, *namespace=NULL;
 
-  assert(obj->type == JSMN_OBJECT);
+  if (obj->type != JSMN_OBJECT)
+    FAILCODE1(dliteParseError, "expected a json object for instance: %s",
+              (id) ? id : "");
 
   /* If instance already exists, return it immediately */
   if (id && dlite_instance_has(id, 0))
-- 
2.43.0


From 39fd41117aa6498a1d4f6cf45024875c8a5eccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 102/161] fix: no error when an instance was not found in a
 JSON string

---
 src/dlite-json.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 0267f53..eb747fb 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -929,6 +929,9 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
       }
       n += jsmn_count(val) + 2;
     }
+    if (!inst)
+      FAILCODE1(dliteStorageLoadError, "no instance with id '%s' in json source",
+                id);
   }
   if (!inst) goto fail;
 
-- 
2.43.0


From 20012a474903a59d4157e0ad620917489844d477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 103/161] fix: reading metadata without name and uri from JSON
 dereferenced NULL

---
 src/dlite-json.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index eb747fb..5c1a9d7 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -814,7 +814,12 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         }
       } else if (dlite_instance_is_meta(inst)) {
         /* -- if not given, use inferred name, version and namespace */
-        if (strcmp(p->name, "name") == 0) {
+        if (!name && (strcmp(p->name, "name") == 0 ||
+                      strcmp(p->name, "version") == 0 ||
+                      strcmp(p->name, "namespace") == 0)) {
+          FAIL2("cannot infer property \"%s\" of metadata %s", p->name,
+                (id) ? id : inst->uuid);
+        } else if (strcmp(p->name, "name") == 0) {
           if (dlite_property_scan(name, ptr, p, pdims, 0) < 0) goto fail;
         } else if (strcmp(p->name, "version") == 0) {
           if (dlite_property_scan(version, ptr, p, pdims, 0) < 0) goto fail;
-- 
2.43.0


From c7dbb76c50ef1a8464669439a9e44cd3c0b9c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 104/161] fix: error messages about JSON read past the end of
 the given data

---
 src/dlite-json.c  | 13 ++++++++-----
 src/utils/jsmnx.c |  3 ++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 5c1a9d7..6fdffca 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -1304,13 +1304,15 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
   DLiteJsonFormat retval=-1, format;
   DLiteJsonFlag flags=0;
   char *dots = (len > 30) ? "..." : "";
+  int nshow = (len > 30) ? 30 : len;
 
   jsmn_init(&parser);
   if ((r = jsmn_parse_alloc(&parser, src, len, &tokens, &ntokens)) < 0)
-    FAIL3("error parsing json string: \"%.30s%s\": %s",
-          src, dots, jsmn_strerror(r));
+    FAIL4("error parsing json string: \"%.*s%s\": %s",
+          nshow, src, dots, jsmn_strerror(r));
   if (tokens->type != JSMN_OBJECT)
-    FAIL2("root of json data must be an object: \"%.30s%s\"", src, dots);
+    FAIL3("root of json data must be an object: \"%.*s%s\"",
+          nshow, src, dots);
 
   if ((format = dlite_json_check(src, tokens, NULL, &flags)) < 0) goto fail;
 
@@ -1318,8 +1320,9 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
     uuid[0] = '\0';
     if (get_uuid(uuid, src, tokens) < 0) goto fail;
     if (!(uri = get_uri(src, tokens)) && !uuid[0])
-      FAILCODE2(dliteParseError,
-                "missing UUID and URI in json data: \"%.30s%s\"", src, dots);
+      FAILCODE3(dliteParseError,
+                "missing UUID and URI in json data: \"%.*s%s\"",
+                nshow, src, dots);
     if (uri) {
       char uuid2[DLITE_UUID_LENGTH+1];
       if (dlite_get_uuid(uuid2, uri) < 0) goto fail;
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index ce447ed..da8e994 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -156,7 +156,8 @@ const jsmntok_t *jsmn_item(const char *js, const jsmntok_t *t, const char *key)
   int i, n, nitems;
   int len, keylen=strlen(key);
   if (t->type != JSMN_OBJECT)
-    return errx(1, "expected JSON object in string starting with:\n%.200s\n",
+    return errx(1, "expected JSON object, got:\n%.*s\n",
+                (t->end - t->start < 200) ? t->end - t->start : 200,
                 js + t->start), NULL;
   nitems = t->size;
   for (i=0; i<nitems; i++) {
-- 
2.43.0


From 2897b79a599910d2e7744644421b180cffb9ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:04 +0000
Subject: [PATCH 105/161] fix: no error when an instance was not found in a
 JSON buffer

---
 storages/json/dlite-json-storage.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 2591147..50b868b 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -289,7 +289,8 @@ DLiteInstance *json_load(const DLiteStorage *s, const char *id)
     buf = jstore_get(js->jstore, uuid);
   }
   if (!buf && !(buf = jstore_get(js->jstore, id)))
-      goto fail;
+    FAILCODE2(dliteStorageLoadError, "no instance with id \"%s\" in \"%s\"",
+              id, (s->location) ? s->location : "json buffer");
   if (dlite_isuuid(id)) {
     /* the provided id is an uuid - check if a human readable id has been
        assoicated with `id` as a label */
-- 
2.43.0


From 2e728c29b6145cb89a609dfa5a5bba12f505f168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 106/161] fix: no error when an instance referred to by a
 scanned value was not found

---
 src/dlite-type.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index c48acb6..a2a8176 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1151,7 +1151,9 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         if (!(q = malloc(n+1))) return err(dliteMemoryError, "allocation failure");
         n2 = strnunquote(q, n+1, src, m, NULL, qflags);
         assert(n2 == n);
-        inst = dlite_instance_get(q);
+        if (!(inst = dlite_instance_get(q)))
+          err(dliteMissingInstanceError, "cannot find referred instance: '%s'",
+              q);
         free(q);
         if (!inst) return -1;
       }
-- 
2.43.0


From b4bca1a9ce289c9404ea87ea970dc037eca74d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 107/161] fix: scanning dimensions, properties and relations
 read outside the parsed tokens of malformed JSON

---
 src/dlite-type.c  |  8 +++++---
 src/utils/jsmnx.c | 10 ++++++----
 src/utils/jsmnx.h |  7 +++++++
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index a2a8176..7fceea9 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1175,7 +1175,8 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (len < 0) len = strlen(src);
       jsmn_init(&parser);
-      if ((r = jsmn_parse(&parser, src, len, tokens,MAX_DIMENSION_TOKENS)) < 0)
+      r = jsmn_parse(&parser, src, len, tokens, MAX_DIMENSION_TOKENS);
+      if ((r = jsmn_check_tokens(tokens, r)) < 0)
         return err(dliteParseError, "cannot parse dimension: %s: '%s'",
                    jsmn_strerror(r), src);
       if (tokens->type != JSMN_OBJECT)
@@ -1206,7 +1207,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       if (r == JSMN_ERROR_NOMEM)
         return err(dliteIndexError, "too many dimensions.  Increase MAX_PROPERTY_TOKENS "
                    "in dlite-type.c and recompile.");
-      else if (r < 0)
+      else if ((r = jsmn_check_tokens(tokens, r)) < 0)
         return err(dliteParseError, "cannot parse property: %s: '%s'",
                    jsmn_strerror(r), src);
       if (tokens->type != JSMN_OBJECT)
@@ -1268,7 +1269,8 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (len < 0) len = strlen(src);
       jsmn_init(&parser);
-      if ((r = jsmn_parse(&parser, src, len, tokens, MAX_RELATION_TOKENS)) < 0)
+      r = jsmn_parse(&parser, src, len, tokens, MAX_RELATION_TOKENS);
+      if ((r = jsmn_check_tokens(tokens, r)) < 0)
         return err(dliteParseError, "cannot parse relation: %s: '%s'",
                    jsmn_strerror(r), src);
       if (tokens->size < 3 || tokens->size > 5)
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index da8e994..e338caf 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -25,10 +25,12 @@
    one value and nothing else than objects, arrays and object keys have
    sub-tokens.  Otherwise JSMN_ERROR_INVAL is returned.
 
-   Negative values of `ntokens` are returned unchanged. */
-static int check_tokens(const jsmntok_t *tokens, int ntokens)
+   Negative values of `ntokens` are returned unchanged.  An error is
+   also returned if there are no tokens. */
+int jsmn_check_tokens(const jsmntok_t *tokens, int ntokens)
 {
   int i;
+  if (ntokens == 0) return JSMN_ERROR_PART;
   for (i=0; i < ntokens; i++) {
     const jsmntok_t *t = tokens + i;
     int iskey = (t->parent >= 0 && tokens[t->parent].type == JSMN_OBJECT);
@@ -73,7 +75,7 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
     jsmn_parser saved_parser;
     memcpy(&saved_parser, parser, sizeof(saved_parser));
     ntokens = jsmn_parse(parser, js, len, *tokens_ptr, *num_tokens_ptr);
-    if (ntokens != JSMN_ERROR_NOMEM) return check_tokens(*tokens_ptr, ntokens);
+    if (ntokens != JSMN_ERROR_NOMEM) return jsmn_check_tokens(*tokens_ptr, ntokens);
 
     // Try to handle JSMN_ERROR_NOMEM by reallocating
     if ((ntokens = jsmn_required_tokens(js, len)) < 0) return ntokens;
@@ -88,7 +90,7 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
 
   ntokens = jsmn_parse(parser, js, len, tokens, ntokens);
   assert(ntokens != JSMN_ERROR_NOMEM);
-  ntokens = check_tokens(tokens, ntokens);
+  ntokens = jsmn_check_tokens(tokens, ntokens);
   if (ntokens < 0) {
     /* nothing to return, so release the tokens */
     free(tokens);
diff --git a/src/utils/jsmnx.h b/src/utils/jsmnx.h
index 406b141..e458083 100644
--- a/src/utils/jsmnx.h
+++ b/src/utils/jsmnx.h
@@ -69,6 +69,13 @@ int jsmn_parse(jsmn_parser *parser, const char *js, const size_t len,
                jsmntok_t *tokens, const unsigned int num_tokens);
 
 
+/**
+ * Returns `ntokens`, as returned by jsmn_parse(), if `tokens` form one
+ * well-formed JSON value.  Otherwise a (negative) error code is returned.
+ */
+int jsmn_check_tokens(const jsmntok_t *tokens, int ntokens);
+
+
 /**
  * Like jsmn_parse(), but realloc's the buffer pointed to by `tokens_ptr`
  * if it is too small.  `num_tokens_ptr` should point to the number of
-- 
2.43.0


From bc03e54cbf2654704a9f938e52082a6e0e2719b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 108/161] fix: no error when scanning a relation without
 subject, predicate or object

---
 src/dlite-type.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 7fceea9..18a8a7a 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1277,12 +1277,12 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         return errx(dliteParseError, "relation should have 3 (optionally 5) elements");
       m = tokens->end - tokens->start;
       if (tokens->type == JSMN_ARRAY) {
-        if (!(t = jsmn_element(src, tokens, 0))) return -1;
-        if (!(rel->s = jsmn_strdup(src, t))) return -1;
-        if (!(t = jsmn_element(src, tokens, 1))) return -1;
-        if (!(rel->p = jsmn_strdup(src, t))) return -1;
-        if (!(t = jsmn_element(src, tokens, 2))) return -1;
-        if (!(rel->o = jsmn_strdup(src, t))) return -1;
+        if (!(t = jsmn_element(src, tokens, 0)) ||
+            !(rel->s = jsmn_strdup(src, t))) goto relfail;
+        if (!(t = jsmn_element(src, tokens, 1)) ||
+            !(rel->p = jsmn_strdup(src, t))) goto relfail;
+        if (!(t = jsmn_element(src, tokens, 2)) ||
+            !(rel->o = jsmn_strdup(src, t))) goto relfail;
         if (tokens->size > 3 && (t = jsmn_element(src, tokens, 3))) {
           SET_RELATION(rel->d, t, src);
         }
@@ -1290,12 +1290,12 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
           SET_RELATION(rel->id, t, src);
         }
       } else if (tokens->type == JSMN_OBJECT) {
-        if (!(t = jsmn_item(src, tokens, "s"))) return -1;
-        if (!(rel->s = jsmn_strdup(src, t))) return -1;
-        if (!(t = jsmn_item(src, tokens, "p"))) return -1;
-        if (!(rel->p = jsmn_strdup(src, t))) return -1;
-        if (!(t = jsmn_item(src, tokens, "o"))) return -1;
-        if (!(rel->o = jsmn_strdup(src, t))) return -1;
+        if (!(t = jsmn_item(src, tokens, "s")) ||
+            !(rel->s = jsmn_strdup(src, t))) goto relfail;
+        if (!(t = jsmn_item(src, tokens, "p")) ||
+            !(rel->p = jsmn_strdup(src, t))) goto relfail;
+        if (!(t = jsmn_item(src, tokens, "o")) ||
+            !(rel->o = jsmn_strdup(src, t))) goto relfail;
         if ((t = jsmn_item(src, tokens, "d"))) {
           SET_RELATION(rel->d, t, src);
         }
@@ -1304,6 +1304,10 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       } else {
         return errx(dliteValueError, "relation should be a JSON array");
       }
+      break;
+    relfail:
+      return err(dliteParseError, "missing or invalid subject, predicate or "
+                 "object in relation: '%.*s'", m, src + tokens->start);
     }
     break;
   }
-- 
2.43.0


From b35f27421a6f1ea27fa050e142e35c7c1b3f6624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 109/161] fix: data instances were returned as metadata by
 dlite_meta_get() and leaked by dlite_meta_load()

---
 src/dlite-entity.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 374ba4a..938834f 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2798,7 +2798,14 @@ int dlite_meta_decref(DLiteMeta *meta)
 */
 DLiteMeta *dlite_meta_get(const char *id)
 {
-  return (DLiteMeta *)dlite_instance_get(id);
+  DLiteInstance *inst = dlite_instance_get(id);
+  if (!inst) return NULL;
+  if (!dlite_instance_is_meta(inst)) {
+    err(dliteTypeError, "not metadata: %s", id);
+    dlite_instance_decref(inst);
+    return NULL;
+  }
+  return (DLiteMeta *)inst;
 }
 
 
@@ -2810,8 +2817,11 @@ DLiteMeta *dlite_meta_load(const DLiteStorage *s, const char *id)
 {
   DLiteInstance *inst = dlite_instance_load(s, id);
   if (!inst) return NULL;
-  if (!dlite_instance_is_meta(inst))
-    return err(dliteTypeError, "not metadata: %s (%s)", s->location, id), NULL;
+  if (!dlite_instance_is_meta(inst)) {
+    err(dliteTypeError, "not metadata: %s (%s)", s->location, id);
+    dlite_instance_decref(inst);
+    return NULL;
+  }
   return (DLiteMeta *)inst;
 }
 
@@ -2823,8 +2833,11 @@ DLiteMeta *dlite_meta_load_url(const char *url)
 {
   DLiteInstance *inst;
   if (!(inst = dlite_instance_load_url(url))) return NULL;
-  if (!dlite_instance_is_meta(inst))
-    return err(dliteTypeError, "not metadata: %s", url), NULL;
+  if (!dlite_instance_is_meta(inst)) {
+    err(dliteTypeError, "not metadata: %s", url);
+    dlite_instance_decref(inst);
+    return NULL;
+  }
   return (DLiteMeta *)inst;
 }
 
-- 
2.43.0


From f2728d32db7214599fc145609afdee49bf343c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:51 +0000
Subject: [PATCH 110/161] fix: JSON properties that are not an object caused an
 assertion failure

---
 src/dlite-json.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 6fdffca..8d6c23d 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -774,7 +774,9 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
     //  base = obj;
     //else
     //  FAIL1("\"properties\" must be object or array: %s", id);
-    assert(base->type == JSMN_OBJECT);
+    if (base->type != JSMN_OBJECT)
+      FAILCODE1(dliteParseError, "\"properties\" of data instances must be a "
+                "json object: %s", id);
 
     /* -- infer name, version and namespace */
     if (dlite_instance_is_meta(inst)) {
-- 
2.43.0


From b800ca445b9401b9d156b2dbb3aaac91fcd3fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 111/161] fix: metadata loaded from JSON stayed in memory if it
 was not an instance of the requested metadata

---
 src/dlite-json.c | 53 +++++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 8d6c23d..fa230ed 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -637,6 +637,25 @@ static int parse_parent(const char *src, const jsmntok_t *obj,
   return 0;
 }
 
+
+/*
+  Help function for parse_instance().
+  Returns non-zero if `metaid` is given, but does not identify the
+  metadata `meta` of instance `id`.
+ */
+static int check_metaid(const DLiteMeta *meta, const char *metaid,
+                        const char *id)
+{
+  char uuid[DLITE_UUID_LENGTH + 1];
+  if (!metaid) return 0;
+  if (dlite_get_uuid(uuid, metaid) < 0 ||
+      (strcmp(meta->uuid, uuid) != 0 && strcmp(metaid, meta->uri) != 0))
+    return err(1, "instance '%s' has meta id '%s' but '%s' is expected",
+               id, meta->uri, metaid);
+  return 0;
+}
+
+
 /*
   Help function for parsing an instance.
   - src: json source
@@ -646,7 +665,7 @@ static int parse_parent(const char *src, const jsmntok_t *obj,
   Returns new `instance` or NULL on error.
 */
 static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
-                                     const char *id)
+                                     const char *id, const char *metaid)
 {
   int ok=0, existed=0;
   const jsmntok_t *item, *t;
@@ -662,8 +681,14 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
               (id) ? id : "");
 
   /* If instance already exists, return it immediately */
-  if (id && dlite_instance_has(id, 0))
-      return dlite_instance_get(id);
+  if (id && dlite_instance_has(id, 0)) {
+    inst = dlite_instance_get(id);
+    if (inst && check_metaid(inst->meta, metaid, id)) {
+      dlite_instance_decref(inst);
+      inst = NULL;
+    }
+    return inst;
+  }
 
   /* Get uri and uuid */
   uri = get_uri(src, obj);
@@ -701,6 +726,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
     dlite_meta_incref((DLiteMeta *)meta);
   }
   assert(meta);
+  if (check_metaid(meta, metaid, (id) ? id : uuid)) goto fail;
 
   /* Allocate dimensions */
   if (!(dims = calloc(meta->_ndimensions, sizeof(size_t))))
@@ -899,7 +925,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
   if (root->type != JSMN_OBJECT) FAIL("json root should be an object");
 
   if (jsmn_item(src, root, "properties")) {
-    inst = parse_instance(src, root, id);
+    inst = parse_instance(src, root, id, metaid);
   } else if (!id || !*id) {
     int len;
     if (!(iter = dlite_json_iter_create(src, srclen, metaid))) goto fail;
@@ -916,7 +942,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
     jsmntok_t *val = (jsmntok_t *)t1 + 1;
     if (val->type != JSMN_OBJECT) FAIL("expect json values to be objects");
     if (!(buf = jsmn_strdup(src, t1))) goto fail;
-    inst = parse_instance(src, val, buf);
+    inst = parse_instance(src, val, buf, metaid);
   } else {
     int n=1;
     char uuid[DLITE_UUID_LENGTH+1];
@@ -931,7 +957,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
       free(buf);
       buf = NULL;
       if (strcmp(uuid2, uuid) == 0) {
-        if (!(inst = parse_instance(src, val, id))) goto fail;
+        if (!(inst = parse_instance(src, val, id, metaid))) goto fail;
         break;
       }
       n += jsmn_count(val) + 2;
@@ -940,21 +966,6 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
       FAILCODE1(dliteStorageLoadError, "no instance with id '%s' in json source",
                 id);
   }
-  if (!inst) goto fail;
-
-  if (metaid) {
-    char uuid[DLITE_UUID_LENGTH + 1];
-    if (dlite_get_uuid(uuid, metaid) < 0 ||
-        (strcmp(inst->meta->uuid, uuid) != 0 &&
-         strcmp(metaid, inst->meta->uri) != 0)) {
-      if (!id) id = inst->uuid;
-      err(1, "instance '%s' has meta id '%s' but '%s' is expected",
-          id, inst->meta->uri, metaid);
-      dlite_instance_decref(inst);
-      inst = NULL;
-    }
-  }
-
  fail:
   free(tokens);
   if (buf) free(buf);
-- 
2.43.0


From 5367cbd428cee849cd01335415c89de69d10c93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:04 +0000
Subject: [PATCH 112/161] fix: string values were stored without quotes when
 loading JSON into a JSON store

---
 src/dlite-json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index fa230ed..5dd0175 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -1351,6 +1351,7 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
     int i;
     for (i=0; i < tokens->size; i++) {
       jsmntok_t *v = t + 1;
+      int q = (v->type == JSMN_STRING);  // include quotes around strings
 
       /* if `id` is not an uuid, add it as a label associated with
          uuid to the jstore */
@@ -1364,7 +1365,7 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
       free(id);
 
       if (jstore_addn(js, uuid, DLITE_UUID_LENGTH,
-                      src + v->start, v->end - v->start)) goto fail;
+                      src + v->start - q, v->end - v->start + 2*q)) goto fail;
       t += jsmn_count(v) + 2;
     }
   }
-- 
2.43.0


From dd13b263d0cbc9c4cf9f8a2d543b54f6c22eab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:23 +0000
Subject: [PATCH 113/161] fix: crash when freeing a collection that could not
 be created

---
 src/dlite-collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 89fb21a..763161d 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -40,6 +40,8 @@ int dlite_collection_deinit(DLiteInstance *inst)
   DLiteInstance *inst2;
   const DLiteRelation *r;
 
+  if (!coll->rstore) return 0;  // not initialised
+
   /* Release references to all instances. */
   dlite_collection_init_state(coll, &state);
   while ((r=dlite_collection_find(coll,&state, NULL, "_has-uuid", NULL,
-- 
2.43.0


From dc8d81661e0d72027c2d83bffb4ace2f8f280e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 114/161] fix: a collection read from JSON with invalid
 relations released references it did not have

---
 src/dlite-collection.c | 7 ++++++-
 src/dlite-json.c       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 763161d..e7c7de9 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -179,8 +179,13 @@ int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
   if (i != 0) return errx(dliteIndexError,
                          "index out of range: %lu", (unsigned long)i);
   triplestore_clear(coll->rstore);
-  if (triplestore_add_triples(coll->rstore, coll->relations, coll->nrelations))
+  if (triplestore_add_triples(coll->rstore, coll->relations,
+                              coll->nrelations)) {
+    /* No references have been acquired to the instances, so make sure that
+       they are not released when the collection is freed. */
+    triplestore_clear(coll->rstore);
     return -1;
+  }
 
   /* Iterate over all newly added triples and load instances corresponding
      to "_has-uuid" relations. */
diff --git a/src/dlite-json.c b/src/dlite-json.c
index 5dd0175..d7175a2 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -860,7 +860,12 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         FAIL2("missing property \"%s\" in %s", p->name, id);
       }
 
-      if (meta->_loadprop) meta->_loadprop(inst, i);
+      /* Missing instances in a collection are reported, but does not stop us
+         from loading the collection */
+      if (meta->_loadprop) {
+        int stat = meta->_loadprop(inst, i);
+        if (stat && stat != dliteStorageLoadError) goto fail;
+      }
     }
   }
   if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
-- 
2.43.0


From 249924cc019aed1b42f8125b8ca0903c71ffa6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:08 +0000
Subject: [PATCH 115/161] fix: a JSON file with invalid content was discarded
 when opened without mode

---
 storages/json/dlite-json-storage.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 50b868b..588d622 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -31,10 +31,11 @@ typedef struct {
 
 
 /** Returns default mode:
-    - 'w': if we can't open `uri`
+    - 'w': if `uri` does not exist or has no content
     - 'r': if `uri` is in single-entity format
     - 'a': otherwise
-  Returns a negative value on error, e.g. if `uri` exists, but cannot be read.
+  Returns a negative value on error, e.g. if `uri` exists, but cannot be read
+  or is not valid JSON.
 */
 static int default_mode(const char *uri, const unsigned char *buf, size_t size)
 {
@@ -53,13 +54,21 @@ static int default_mode(const char *uri, const unsigned char *buf, size_t size)
 
   js = jstore_open();
 
-  ErrTry:
-    stat = jstore_update_from_string(js, (const char *)buf, size);
-  ErrCatch(1):
-    break;
-  ErrEnd;
-
-  mode = (stat) ? 'w' : (jstore_get(js, "properties")) ? 'r' : 'a';
+  if (uri && !content[strspn(content, " \t\r\n")]) {
+    mode = 'w';  // no content
+  } else {
+    ErrTry:
+      stat = jstore_update_from_string(js, (const char *)buf, size);
+    ErrCatch(1):
+      break;
+    ErrEnd;
+
+    /* A file with other content must not be overwritten */
+    if (stat && uri)
+      mode = err(dliteStorageOpenError, "invalid JSON file \"%s\"", uri);
+    else
+      mode = (stat) ? 'w' : (jstore_get(js, "properties")) ? 'r' : 'a';
+  }
   jstore_close(js);
   free(content);
   return mode;
-- 
2.43.0


From 49fa6753e5b4ed1f435e222257fe0ba88488855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:16 +0000
Subject: [PATCH 116/161] fix: endless recursion when loading data with empty
 or circular references to metadata and instances

---
 src/dlite-entity.c | 68 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 938834f..1c0b8c1 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -677,18 +677,19 @@ DLiteInstance *dlite_instance_has(const char *id, bool check_storages)
 }
 
 
-/*
-  Returns a new reference to instance with given `id` or NULL if no such
-  instance can be found.
-
-  If the instance exists in the in-memory store it is returned (with
-  its refcount increased by one).  Otherwise it is searched for in the
-  storage plugin path (initiated from the DLITE_STORAGES environment
-  variable).
+/* Ids of the instances that are currently being searched for in storages.
+   Used to detect data that refers to itself. */
+typedef struct _Search {
+  const char *uuid;
+  const struct _Search *parent;
+} Search;
+static const Search *_searches=NULL;
 
-  It is an error message if the instance cannot be found.
-*/
-DLiteInstance *dlite_instance_get(const char *id)
+/*
+  Help function for dlite_instance_get().  Search for instance `id` in
+  hotlisted storages and storage paths.
+ */
+static DLiteInstance *_instance_search(const char *id)
 {
   DLiteInstance *inst=NULL;
   DLiteStorageHotlistIter hiter;
@@ -696,13 +697,7 @@ DLiteInstance *dlite_instance_get(const char *id)
   DLiteStoragePathIter *iter;
   const char *url;
 
-  /* check if instance `id` is already instantiated... */
-  if ((inst = _instance_store_get(id))) {
-    dlite_instance_incref(inst);
-    return inst;
-  }
-
-  /* ...otherwise look it up in hotlisted storages */
+  /* look it up in hotlisted storages */
   dlite_storage_hotlist_iter_init(&hiter);
   while ((hs = dlite_storage_hotlist_iter_next(&hiter))) {
     DLiteInstance *inst;
@@ -815,6 +810,43 @@ DLiteInstance *dlite_instance_get(const char *id)
   return NULL;
 }
 
+
+/*
+  Returns a new reference to instance with given `id` or NULL if no such
+  instance can be found.
+
+  If the instance exists in the in-memory store it is returned (with
+  its refcount increased by one).  Otherwise it is searched for in the
+  storage plugin path (initiated from the DLITE_STORAGES environment
+  variable).
+
+  It is an error message if the instance cannot be found.
+*/
+DLiteInstance *dlite_instance_get(const char *id)
+{
+  DLiteInstance *inst=NULL;
+  char uuid[DLITE_UUID_LENGTH+1];
+  Search search = {uuid, _searches};
+  const Search *s;
+
+  /* check if instance `id` is already instantiated... */
+  if ((inst = _instance_store_get(id))) {
+    dlite_instance_incref(inst);
+    return inst;
+  }
+
+  /* ...otherwise look it up in storages, unless that is what we are doing */
+  if (!id || !*id || dlite_get_uuid(uuid, id) < 0) return NULL;
+  for (s=_searches; s; s=s->parent)
+    if (strcmp(s->uuid, uuid) == 0)
+      return errx(dliteInconsistentDataError,
+                  "circular reference when loading instance: %s", id), NULL;
+  _searches = &search;
+  inst = _instance_search(id);
+  _searches = search.parent;
+  return inst;
+}
+
 /*
   Like dlite_instance_get(), but maps the instance with the given id
   to an instance of `metaid`.  If `metaid` is NULL, it falls back to
-- 
2.43.0


From dd9fbfbdabe67762ef27aeb5789f98ae2e8cb26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 117/161] fix: a final hash or slash of an id was not stripped
 off when calculating its UUID or normalising it

---
 src/dlite-misc.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 1fe7b07..97edda7 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -73,6 +73,14 @@ int dlite_isuuid(const char *id)
   return isuuid(id);
 }
 
+/*
+  Returns the length of `id` without a final hash or slash.
+ */
+static int strip_id(const char *id, int len)
+{
+  return (len > 1 && id[len-1] && strchr("/#", id[len-1])) ? len - 1 : len;
+}
+
 /*
   Returns the ID type of `id`.
  */
@@ -89,7 +97,7 @@ DLiteIdType dlite_idtypen(const char *id, int len)
 {
   if (!len || !id || !*id) return dliteIdRandom;
 
-  if (id[len-1] && strchr("/#", id[len-1])) len--;
+  len = strip_id(id, len);
 
   if (len == DLITE_UUID_LENGTH && isuuid(id)) return dliteIdCopy;
 
@@ -145,12 +153,13 @@ int dlite_normalise_idn(char *buff, size_t n,
     if (n > 0) buff[0] = '\0';
     return 0;
   }
+  len = strip_id(id, len);
 
   // id: uri/uuid, uri
   if (isurln(id, len))
     return snprintf(buff, n, "%.*s", (int)len, id);
 
-  if (!uri) uri = DLITE_DATA_NS;
+  if (!uri || !*uri) uri = DLITE_DATA_NS;
   char *sep = (strchr("/#", uri[strlen(uri)-1])) ? "" : "/";
 
   // id: uuid, id
@@ -223,6 +232,8 @@ DLiteIdType _dlite_get_uuidn(char *buff, const char *id, size_t len,
 {
   DLiteIdType type;
 
+  if (len && id && *id) len = strip_id(id, len);
+
   if (!len || !id || !*id) {  // id: NULL
     if (uuid4_generate(buff))
       return err(dliteRuntimeError, "cannot generate version 4 UUID");
-- 
2.43.0


From 58b277e921e1bae74c15666051760d097b7edd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 118/161] fix: splitting a metadata uri with a slash at the
 beginning only read before the uri

---
 src/dlite-misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 97edda7..f0ad247 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -332,8 +332,8 @@ int dlite_split_meta_uri(const char *uri, char **name, char **version,
 
   if (!(p = strrchr(uri, '/')))
     FAIL1("invalid metadata uri: '%s'", uri);
-  q = p-1;
-  while (*q != '/' && q > uri) q--;
+  q = p;
+  while (q > uri && *(--q) != '/');
   if (q == uri)
     FAIL1("invalid metadata uri: '%s'", uri);
 
-- 
2.43.0


From aaf323aafe3e4a17587a73fc850134dbb4e28407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:34 +0000
Subject: [PATCH 119/161] fix: searching for mappings missed existing or
 cheaper mappings and freed shared sub-mappings twice

---
 src/dlite-mapping.c | 214 ++++++++++++++++----------------------------
 1 file changed, 76 insertions(+), 138 deletions(-)

diff --git a/src/dlite-mapping.c b/src/dlite-mapping.c
index 5b3c0ca..a372fcc 100644
--- a/src/dlite-mapping.c
+++ b/src/dlite-mapping.c
@@ -19,135 +19,52 @@
   Custom map types.  Are also used as sets (unused map value).
  */
 typedef map_t(DLiteInstance *) Instances;
-typedef map_t(DLiteMapping *) Mappings;
 
+/* The last step of a (nested) mapping and the total cost of it. */
+typedef struct {
+  const DLiteMappingPlugin *api;
+  int cost;
+} Step;
+typedef map_t(Step) Steps;
 
-/*
-  Recursive help function that removes all mappings found in `m` and its
-  submappings from `created`.
- */
-void mapping_remove_rec(DLiteMapping *m, Mappings *created)
-{
-  int i;
-  if (!m) return;
-  map_remove(created, m->output_uri);
-  for (i=0; i < m->ninput; i++)
-    if (m->input_maps[i])
-      mapping_remove_rec((DLiteMapping *)m->input_maps[i], created);
-}
 
 /*
-  Recursive help function returning a mapping.
+  Recursive help function returning a new mapping to `output_uri`.
 
   `inputs` set of input URIs (unused map value)
-  `visited` set of so far visited output URIs (unused map value)
-  `created` maps all created output URIs to corresponding mapping
-  `dead_ends` set of URIs that we cannot create a mapping to (unused map value)
+  `cheapest` maps all URIs that can be mapped to, to the last step of
+       the cheapest mapping to it
  */
-DLiteMapping *mapping_create_rec(const char *output_uri, Instances *inputs,
-                                 Mappings *visited, Mappings *created,
-                                 Mappings *dead_ends)
+static DLiteMapping *mapping_create_rec(const char *output_uri,
+                                        Instances *inputs, Steps *cheapest)
 {
-  int i, lowest_cost=-1;
-  DLiteMapping *m=NULL, *retval=NULL;
-  const DLiteMappingPlugin *api, *cheapest=NULL;
-  DLiteMappingPluginIter iter;
-
-  dlite_mapping_plugin_init_iter(&iter);
-
-  /* Ensure that no input URI equals output URI */
-  assert(!map_get(inputs, output_uri));
-
-  /* Ensure that this not an already known dead end */
-  assert(!map_get(dead_ends, output_uri));
-
-  /* Add output_uri to visited */
-  assert(!map_get(visited, output_uri));
-  map_set(visited, output_uri, NULL);
-
-  /* Find cheapest mapping to output_api */
-  while ((api = dlite_mapping_plugin_next(&iter))) {
-    int ignore = 0;
-    int cost = api->cost;
-    if (strcmp(output_uri, api->output_uri) != 0) continue;
-
-    /* avoid infinite cyclic loops and known dead ends */
-    for (i=0; i < api->ninput; i++) {
-      if (map_get(visited, api->input_uris[i]) ||
-          map_get(dead_ends, api->input_uris[i])) {
-        ignore = 1;
-        break;
-      }
-    }
-    if (ignore) continue;
-
-    /* avoid mappings that depends on input that cannot be realised and
-       calculate cost */
-    for (i=0; i < api->ninput; i++) {
-      if (!map_get(inputs, api->input_uris[i])) {
-        DLiteMapping *mapping=NULL, **mappingp=NULL;
-        if (!(mappingp = map_get(created, api->input_uris[i])) &&
-            !(mapping = mapping_create_rec(api->input_uris[i], inputs,
-                                           visited, created, dead_ends))) {
-          ignore = 1;
-          break;
-        } else {
-          if (!mapping) mapping = *mappingp;
-          assert(mapping->cost >= 0);
-          cost += mapping->cost;
-        }
-      }
-    }
-    if (ignore) continue;
-
-    /*
-      FIXME: avoid memory leak
-      Implement dlite_mapping_plugin_free() and call it here.
-
-      Even better, implement caching in dlite_mapping_plugin_next()
-      such that it returns borrowed references to the api. Add a function
-      to clear the cache.
-    */
-    if (!cheapest || cost < lowest_cost) {
-      //dlite_mapping_plugin_free(cheapest);
-      cheapest = api;
-      lowest_cost = cost;
-    } else {
-      //dlite_mapping_plugin_free(api);
-    }
-  }
-  if (!(api = cheapest)) goto fail;
+  int i;
+  DLiteMapping *m=NULL;
+  Step *step = map_get(cheapest, output_uri);
+  const DLiteMappingPlugin *api = step->api;
 
-  /* create mapping */
-  assert(strcmp(output_uri, api->output_uri) == 0);
   if (!(m = calloc(1, sizeof(DLiteMapping))))
-   FAILCODE(dliteMemoryError, "allocation failure");
+    FAILCODE(dliteMemoryError, "allocation failure");
   m->name = api->name;
   m->output_uri = api->output_uri;
-  m->ninput = api->ninput;
-  if (!(m->input_maps = calloc(m->ninput, sizeof(DLiteMapping *))))
+  m->api = (DLiteMappingPlugin *)api;
+  m->cost = step->cost;
+  if (!(m->input_maps = calloc(api->ninput + 1, sizeof(DLiteMapping *))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  if (!(m->input_uris = calloc(m->ninput, sizeof(char *))))
+  if (!(m->input_uris = calloc(api->ninput + 1, sizeof(char *))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < api->ninput; i++) {
-    if (!map_get(inputs, api->input_uris[i])) {
-      DLiteMapping **p = map_get(created, api->input_uris[i]);
-      assert(p);
-      m->input_maps[i] = *p;
-      assert(m->input_maps[i]);
-    } else
+    if (map_get(inputs, api->input_uris[i]))
       m->input_uris[i] = api->input_uris[i];
+    else if (!(m->input_maps[i] = mapping_create_rec(api->input_uris[i],
+                                                     inputs, cheapest)))
+      goto fail;
+    m->ninput++;
   }
-  m->api = (DLiteMappingPlugin *)api;
-  m->cost = lowest_cost;
-
-  map_set(created, output_uri, m);
-
-  retval = m;
+  return m;
  fail:
-  map_remove(visited, output_uri);
-  if (!retval) map_set(dead_ends, output_uri, NULL);
-  return retval;
+  if (m) dlite_mapping_free(m);
+  return NULL;
 }
 
 
@@ -157,14 +74,13 @@ DLiteMapping *mapping_create_rec(const char *output_uri, Instances *inputs,
  */
 DLiteMapping *mapping_create_base(const char *output_uri, Instances *inputs)
 {
-  Mappings visited, created, dead_ends;
-  DLiteMapping *m=NULL, *retval=NULL;
-  map_iter_t iter;
-  const char *key;
+  Steps cheapest;
+  DLiteMapping *m=NULL;
+  DLiteMappingPluginIter iter;
+  const DLiteMappingPlugin *api, **apis=NULL;
+  int i, j, napis=0, changed=1;
 
-  map_init(&visited);
-  map_init(&created);
-  map_init(&dead_ends);
+  map_init(&cheapest);
 
   if ((map_get(inputs, output_uri))) {
     /* The trivial case - one of the input URIs equals output URI. */
@@ -172,36 +88,58 @@ DLiteMapping *mapping_create_base(const char *output_uri, Instances *inputs)
       FAILCODE(dliteMemoryError, "allocation failure");
     m->name = NULL;
     m->output_uri = output_uri;
-    m->ninput = 1;
+    m->api = NULL;
+    m->cost = 0;
     if (!(m->input_maps = calloc(1, sizeof(DLiteMapping *))))
       FAILCODE(dliteMemoryError, "allocation failure");
     if (!(m->input_uris = calloc(1, sizeof(char *))))
       FAILCODE(dliteMemoryError, "allocation failure");
     m->input_uris[0] = output_uri;
-    m->api = NULL;
-    m->cost = 0;
-
-  } else {
-    m = mapping_create_rec(output_uri, inputs, &visited, &created, &dead_ends);
+    m->ninput = 1;
+    map_deinit(&cheapest);
+    return m;
   }
 
-  retval = m;
- fail:
+  /* Collect all mappings */
+  dlite_mapping_plugin_init_iter(&iter);
+  while ((api = dlite_mapping_plugin_next(&iter))) {
+    void *ptr = realloc((void *)apis, (napis + 1)*sizeof(*apis));
+    if (!ptr) FAILCODE(dliteMemoryError, "allocation failure");
+    apis = ptr;
+    apis[napis++] = api;
+  }
 
-  /* Free all created mappings not in retval */
-  mapping_remove_rec(retval, &created);
-  iter = map_iter(&created);
-  while ((key = map_next(&created, &iter))) {
-    DLiteMapping **mp = map_get(&created, key);
-    assert(mp && *mp);
-    free(*mp);
+  /* Find the cheapest way to each URI that can be mapped to.  Repeat until
+     no mapping gives a URI that is new or cheaper than already found. */
+  while (changed) {
+    changed = 0;
+    for (i=0; i<napis; i++) {
+      Step *step, new = {apis[i], apis[i]->cost};
+      if (map_get(inputs, apis[i]->output_uri)) continue;
+      for (j=0; j < apis[i]->ninput; j++) {
+        if (map_get(inputs, apis[i]->input_uris[j])) continue;
+        if (!(step = map_get(&cheapest, apis[i]->input_uris[j]))) break;
+        new.cost += step->cost;
+      }
+      if (j < apis[i]->ninput) continue;
+      if ((step = map_get(&cheapest, apis[i]->output_uri)) &&
+          step->cost <= new.cost) continue;
+      map_set(&cheapest, apis[i]->output_uri, new);
+      changed = 1;
+    }
   }
 
-  map_deinit(&visited);
-  map_deinit(&created);
-  map_deinit(&dead_ends);
-  if (!retval && m) dlite_mapping_free(m);
-  return retval;
+  if (!map_get(&cheapest, output_uri))
+    FAILCODE1(dliteMappingError, "cannot map input to: %s", output_uri);
+  m = mapping_create_rec(output_uri, inputs, &cheapest);
+  free((void *)apis);
+  map_deinit(&cheapest);
+  return m;
+ fail:
+  free((void *)apis);
+  map_deinit(&cheapest);
+  if (m) dlite_mapping_free(m);
+  return NULL;
 }
 
 
-- 
2.43.0


From 1fd4bcdfadc4d2e75e1abc2652299c277ee4efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:34 +0000
Subject: [PATCH 120/161] fix: mappings released unused inputs twice, never
 released intermediate instances and crashed if a step failed

---
 bindings/python/dlite-mapping.i    |  5 --
 src/dlite-mapping.c                | 76 +++++++++++-------------------
 src/pyembed/dlite-python-mapping.c |  1 -
 3 files changed, 27 insertions(+), 55 deletions(-)

diff --git a/bindings/python/dlite-mapping.i b/bindings/python/dlite-mapping.i
index b3dd2ad..37f8186 100644
--- a/bindings/python/dlite-mapping.i
+++ b/bindings/python/dlite-mapping.i
@@ -15,11 +15,6 @@ struct _DLiteInstance *swig_mapping(const char *output_uri,
                                     int ninstances)
 {
  DLiteInstance *inst=NULL;
- int i;
-
- /* Increate refcount to instances.
-    They are decreased again by mapper() */
- for (i=0; i<ninstances; i++) dlite_instance_incref(instances[i]);
 
  if (!(inst = dlite_mapping(output_uri, (const DLiteInstance **)instances,
                             ninstances)))
diff --git a/src/dlite-mapping.c b/src/dlite-mapping.c
index a372fcc..b5fb09f 100644
--- a/src/dlite-mapping.c
+++ b/src/dlite-mapping.c
@@ -194,7 +194,7 @@ void dlite_mapping_free(DLiteMapping *m)
 
 /*
   Recursive help function that performs the actual mapping and returns
-  a new instance (with metadata `m->output_uri`).
+  a borrowed reference to an instance (with metadata `m->output_uri`).
 
   `m`: mapping tree that descripes how the instance can be created.
   `instances`: maps metadata URI to an instance with this metadata.  The
@@ -212,25 +212,37 @@ DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *instances)
     return *instp;
 
   /* Create `insts` array */
-  if (!(insts = calloc(m->ninput, sizeof(DLiteInstance))))
+  if (!m->api) FAILCODE1(dliteMappingError, "no input instance of metadata: %s",
+                         m->output_uri);
+  if (!(insts = calloc(m->ninput + 1, sizeof(DLiteInstance *))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < m->ninput; i++) {
     if (m->input_maps[i]) {
-      insts[i] = mapping_map_rec(m->input_maps[i], instances);
+      if (!(insts[i] = mapping_map_rec(m->input_maps[i], instances))) goto fail;
     } else {
-      instp = map_get(instances, m->input_uris[i]);
-      assert(instp);
+      if (!(instp = map_get(instances, m->input_uris[i])))
+        FAILCODE1(dliteMappingError, "no input instance of metadata: %s",
+                  m->input_uris[i]);
       insts[i] = *instp;
     }
   }
 
   /* Call the mapper function from plugin */
-  if (!(inst = m->api->mapper(m->api, insts, m->ninput))) goto fail;
+  if (!(inst = m->api->mapper(m->api, insts, m->ninput))) {
+    if (!err_geteval())
+      err(dliteMappingError, "mapping '%s' failed", m->name);
+    goto fail;
+  }
+  if (strcmp(inst->meta->uri, m->output_uri) != 0) {
+    err(dliteMappingError, "mapping '%s' should give an instance of '%s', got '%s'",
+        m->name, m->output_uri, inst->meta->uri);
+    dlite_instance_decref(inst);
+    inst = NULL;
+    goto fail;
+  }
 
-  /* Add new instance to `instances` */
-  assert(strcmp(inst->meta->uri, m->output_uri) == 0);
-  dlite_instance_incref(inst);  // TODO: is this correct?
-  map_set(instances, inst->meta->uri, inst);
+  /* Add new instance to `instances`, which takes over the reference to it */
+  map_set(instances, m->output_uri, inst);
 
  fail:
   if (insts) free((void *)insts);
@@ -311,21 +323,6 @@ int decref_inputs(Instances *inputs)
 
 
 
-/* Recursive help function that removes all references to input instances
-   found in `m`, from `inputs`. */
-void remove_inputs_rec(const DLiteMapping *m, Instances *inputs)
-{
-  int i;
-  for (i=0; i < m->ninput; i++) {
-    if (m->input_maps[i])
-      remove_inputs_rec(m->input_maps[i], inputs);
-    else {
-      map_remove(inputs, m->input_uris[i]);
-    }
-  }
-  map_remove(inputs, m->output_uri);
-}
-
 /*
   Applies the mapping `m` on `instances` (array of length `n` of
   instance pointers) and returns a new instance.
@@ -333,11 +330,8 @@ void remove_inputs_rec(const DLiteMapping *m, Instances *inputs)
 DLiteInstance *dlite_mapping_map(const DLiteMapping *m,
                                  const DLiteInstance **instances, int n)
 {
-  int i;
-  const char *key;
   Instances inputs;
-  map_iter_t iter;
-  DLiteInstance *inst=NULL, **instp;
+  DLiteInstance *inst=NULL;
 
   map_init(&inputs);
 
@@ -347,29 +341,13 @@ DLiteInstance *dlite_mapping_map(const DLiteMapping *m,
     return NULL;
   }
 
-  if ((instp = map_get(&inputs, m->output_uri))) {
-    /* The trivial case - one of the inputs has metadata output URI */
-    assert(!m->name);
-    inst = *instp;
-    assert(inst);
+  /* Apply mapping.  All new instances are added to `inputs` */
+  if ((inst = mapping_map_rec(m, &inputs)))
     dlite_instance_incref(inst);
-  } else {
-    /* Apply mapping */
-    assert(m->name);  /* trivial case is already handled */
-    inst = mapping_map_rec(m, &inputs);
-  }
-
-  /* Done - remove temporary created instances */
-  remove_inputs_rec(m, &inputs);
-  iter = map_iter(&inputs);
-  while ((key = map_next(&inputs, &iter))) {
-    DLiteInstance **ip = map_get(&inputs, key);
-    assert(ip && *ip);
-    dlite_instance_decref(*ip);
-  }
 
+  /* Done - release input and temporary created instances */
+  decref_inputs(&inputs);
   map_deinit(&inputs);
-  for (i=0; i<n; i++) dlite_instance_decref((DLiteInstance *)instances[i]);
   return inst;
 }
 
diff --git a/src/pyembed/dlite-python-mapping.c b/src/pyembed/dlite-python-mapping.c
index 19f6b27..66be677 100644
--- a/src/pyembed/dlite-python-mapping.c
+++ b/src/pyembed/dlite-python-mapping.c
@@ -267,7 +267,6 @@ static DLiteInstance *mapper(const DLiteMappingPlugin *api,
   Py_XDECREF(outinst);
   Py_XDECREF(insts);
   Py_XDECREF(map);
-  for (i=0; i<n; i++) dlite_instance_decref((DLiteInstance *)instances[i]);
   return inst;
 }
 
-- 
2.43.0


From d9fcb02a0d066934050d294bab469f1c62947d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 121/161] fix: loading and casting leaked the loaded instance
 and did not cast an instance that was already loaded

---
 src/dlite-entity.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 1c0b8c1..da655bc 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -963,16 +963,19 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
     dlite_instance_incref(inst);
     //warn("trying to load existing instance from storage \"%s\": %s"
     //     " - create a new reference", s->location, id);
-    return inst;
+    if (!metaid) return inst;
+    instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+    dlite_instance_decref(inst);
+    return instance;
   }
 
   /* check if storage implements the instance api */
   if (s->api->loadInstance) {
     if (!(inst = dlite_storage_load(s, id))) goto fail;
-    if (metaid)
-      return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-    else
-      return inst;
+    if (!metaid) return inst;
+    instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+    dlite_instance_decref(inst);
+    return instance;
   }
 
   /* create datamodel and get metadata uri */
@@ -1056,10 +1059,13 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   }
 
   /* cast if `metaid` is not NULL */
-  if (inst && metaid)
+  if (inst && metaid) {
     instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-  else
+    dlite_instance_decref(inst);
+    if (!instance) inst = NULL;
+  } else {
     instance = inst;
+  }
 
  fail:
   if (!inst && !err_geteval())
@@ -1180,7 +1186,7 @@ DLiteInstance *dlite_instance_memload(const char *driver,
                                       const char *metaid)
 {
   const DLiteStoragePlugin *api;
-  DLiteInstance *inst;
+  DLiteInstance *inst, *instance;
   if (!(api = dlite_storage_plugin_get(driver))) return NULL;
   if (!api->memLoadInstance)
     return err(dliteUnsupportedError, "driver does not support memload: %s",
@@ -1188,10 +1194,10 @@ DLiteInstance *dlite_instance_memload(const char *driver,
 
   if (!(inst = api->memLoadInstance(api, buf, size, id, options)))
     return NULL;
-  if (metaid)
-    return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-  else
-    return inst;
+  if (!metaid) return inst;
+  instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+  dlite_instance_decref(inst);
+  return instance;
 }
 
 /*
-- 
2.43.0


From d72321d88afb489086755349931299bb06d85f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:09 +0000
Subject: [PATCH 122/161] fix: assignment of properties from Python overran
 buffers, truncated values silently and left partial or dangling data on
 failure

---
 bindings/python/dlite-python.i | 569 +++++++++++++++++----------------
 1 file changed, 299 insertions(+), 270 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 223df59..535cbb9 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -4,6 +4,7 @@
 */
 
 %{
+#include <math.h>
 #include <Python.h>
 #include "boolean.h"
 #ifndef HAVE_STDINT_H
@@ -41,6 +42,8 @@ typedef PyObject obj_t;
 %{
 obj_t *dlite_swig_get_scalar(DLiteType type, size_t size, void *data);
 int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj);
+static int dlite_swig_read_scalar(void *ptr, DLiteType type, size_t size,
+                                  obj_t *obj);
 %}
 
 
@@ -142,7 +145,9 @@ int npy_type(DLiteType type, size_t size)
     switch (size) {
     case 4: return NPY_FLOAT32;
     case 8: return NPY_FLOAT64;
-    default: return dlite_err(-1, "no numpy type code for float of size %lu",
+    default:
+      if (size == sizeof(npy_longdouble)) return NPY_LONGDOUBLE;
+      return dlite_err(-1, "no numpy type code for float of size %lu",
                               (unsigned long)size);
     }
   case dliteFixString:
@@ -228,13 +233,16 @@ int dlite_swig_read_python_blob(PyObject *src, uint8_t *dest, size_t n)
     Py_ssize_t len;
     const char *s = PyUnicode_AsUTF8AndSize(src, &len);
     if (!s) FAIL("failed representing string as UTF-8");
+    if (len != 2*(Py_ssize_t)n)
+      FAIL2("expected %ld hexadecimal digits, got %ld", 2*(long)n, (long)len);
     if (strhex_decode(dest, n, s, (int)len) < 0)
       FAIL("cannot convert Python string to blob");
     retval = (int)len/2;
   } else if (PyObject_CheckBuffer(src)) {
     Py_buffer view;
-    if (PyObject_GetBuffer(src, &view, PyBUF_SIMPLE)) goto fail;
-    memcpy(dest, view.buf, n);
+    if (PyObject_GetBuffer(src, &view, PyBUF_SIMPLE))
+      FAIL("cannot get contiguous buffer from Python object");
+    memcpy(dest, view.buf, (view.len < (Py_ssize_t)n) ? view.len : n);
     retval = (int)(view.len);
     PyBuffer_Release(&view);
   } else {
@@ -346,47 +354,126 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
 }
 
 
-/* Recursive help function for setting memory from nd-array of objects. Args:
+/* Returns non-zero if `obj` is a string-like or not a sequence, i.e.  an
+   object that can only be converted to a single array element. */
+static int dlite_swig_is_item(PyObject *obj)
+{
+  return (PyUnicode_Check(obj) || PyBytes_Check(obj) || !PySequence_Check(obj)
+          || (PyArray_Check(obj) && PyArray_NDIM((PyArrayObject *)obj) == 0));
+}
+
+
+/* Recursive help function for converting nd-array of objects. Args:
      obj : source object (array)
      ndims : number of destination dimensions
      shape : size of each destination dimension (length: ndims)
      type : type of destination data
      size : size of destination data element
      d : current dimension
-     ptr : pointer to pointer to current destination memory (NB: updated!)
+     ptr : pointer to current destination memory, should be initialised to
+           zero (NB: updated!)
 */
 static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
-                              DLiteType type, size_t size, int d, void **ptr)
+                              DLiteType type, size_t size, int d, char **ptr)
 {
-  int i;
-  if (d < ndims) {
-    PyArrayObject *arr = (PyArrayObject *)obj;
-    assert(!PyArray_Check(obj) || PyArray_DIM(arr, d) == shape[d]);
-    for (i=0; i<shape[d]; i++) {
-      int stat;
-      PyObject *key = PyLong_FromLong(i);
-      PyObject *item = PyObject_GetItem(obj, key);
-      Py_DECREF(key);
-
+  int i, stat=0;
+  if (d == ndims) {
+    stat = dlite_swig_read_scalar(*ptr, type, size, obj);
+    *ptr += size;
+  } else if (dlite_swig_is_item(obj)) {
+    if (shape[d] != 1)
+      return dlite_err(1, "expected sequence of length %d for dimension %d",
+                       shape[d], d);
+    stat = dlite_swig_setitem(obj, ndims, shape, type, size, d+1, ptr);
+  } else {
+    Py_ssize_t n = PyObject_Length(obj);
+    if (n != shape[d])
+      return dlite_err(1, "expected length of dimension %d to be %d, got %ld",
+                       d, shape[d], (long)n);
+    for (i=0; i<shape[d] && !stat; i++) {
+      PyObject *item = PySequence_GetItem(obj, i);
       if (!item) return dlite_err(1, "dimension %d had no index %d", d, i);
       stat = dlite_swig_setitem(item, ndims, shape, type, size, d+1, ptr);
       Py_DECREF(item);
-      if (stat) return stat;
     }
+  }
+  return stat;
+}
+
+
+/* Help function that tries to convert `obj` to `dest` with numpy.  Only
+   conversions that do not loose information are done.  Arguments are as for
+   dlite_swig_set_array(), except that `dest` is a pointer to the memory to
+   write to.
+
+   Returns 1 on success, 0 if `obj` should be converted element by element
+   and -1 on error. */
+static int dlite_swig_setarr(void *dest, int ndims, int *shape,
+                             DLiteType type, size_t size, obj_t *obj)
+{
+  int i, retval=0;
+  PyArrayObject *arr=NULL, *src=NULL;
+  int typecode;
+  if (ndims == 0) return 0;
+  switch (type) {
+  case dliteBool:
+  case dliteInt:
+  case dliteUInt:
+  case dliteFloat:
+    if ((typecode = npy_type(type, size)) < 0) return -1;
+    break;
+  case dliteBlob:
+    if (PyArray_Check(obj)) break;
+    return 0;
+  default:
+    return 0;
+  }
+
+  if (!(src = (PyArrayObject *)PyArray_FromAny(obj, NULL, 0, 0, 0, NULL))) {
+    PyErr_Clear();
+    return 0;
+  }
+  if (PyArray_NDIM(src) != ndims) goto fail;
+  for (i=0; i<ndims; i++)
+    if (PyArray_DIM(src, i) != shape[i]) goto fail;
+
+  if (type == dliteBlob) {
+    if (!(PyArray_ISSTRING(src) || PyArray_TYPE(src) == NPY_VOID) ||
+        PyArray_TYPE(src) == NPY_UNICODE ||
+        PyArray_ITEMSIZE(src) != (npy_intp)size) goto fail;
+    arr = (PyArrayObject *)PyArray_FromArray(src, NULL, NPY_ARRAY_CARRAY_RO);
   } else {
-    if (dlite_swig_set_scalar(*ptr, type, size, obj)) return 1;
-    *((char **)ptr) += size;
+    int fromtype = PyArray_TYPE(src);
+    PyArray_Descr *descr = PyArray_DescrFromType(typecode);
+    if (!(PyArray_ISSTRING(src) ||
+          (PyArray_Check(obj) && PyArray_CanCastSafely(fromtype, typecode)) ||
+          (type == dliteFloat && PyArray_ISFLOAT(src)) ||
+          fromtype == typecode)) {
+      Py_DECREF(descr);
+      goto fail;
+    }
+    arr = (PyArrayObject *)PyArray_FromArray(src, descr, NPY_ARRAY_CARRAY_RO |
+                                             NPY_ARRAY_FORCECAST);
   }
-  return 0;
+  retval = -1;
+  if (!arr) FAIL1("cannot convert to array of type %s",
+                  dlite_type_get_dtypename(type));
+  memcpy(dest, PyArray_DATA(arr), PyArray_NBYTES(arr));
+  retval = 1;
+ fail:
+  Py_XDECREF(arr);
+  Py_XDECREF(src);
+  return retval;
 }
 
 
 /* Sets memory pointed to by `ptr` to data from array object `obj` in the
-   target language.  Returns non-zero on error.
+   target language.  Returns non-zero on error, in which case the memory is
+   left unchanged.
 
-   `ptr`  : Pointer to memory that will be written to.  Must be at least
-            of size `N`, where `N` is the product of all elements in `shape`
-            times `size`.
+   `ptr`  : Pointer to pointer to memory that will be written to.  Must be at
+            least of size `N`, where `N` is the product of all elements in
+            `shape` times `size`.
    `ndims`: Number of dimensions.
    `shape` : Length of each dimension.
    `type` : Type of the data.
@@ -396,91 +483,44 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
 int dlite_swig_set_array(void *ptr, int ndims, int *shape,
                          DLiteType type, size_t size, obj_t *obj)
 {
-  int i, n=1, retval=-1;
-  int typecode = npy_type(type, size);
-  PyArrayObject *arr = NULL;
-  int ndim_max=ndims;
+  size_t i, n=1;
+  int stat, retval=-1;
+  char *dest=*(char **)ptr, *buf=NULL, *p;
 
-  if (typecode < 0) goto fail;
-  for (i=0; i<ndims; i++) n *= shape[i];
-  if (!(arr = (PyArrayObject *)PyArray_ContiguousFromAny(obj, typecode,
-                                                         ndims, ndims))) {
-    /* Clear the error and try to convert object as-is */
-    void *p = *(void **)ptr;
-    PyErr_Clear();
-    return dlite_swig_setitem((PyObject *)obj, ndims, shape, type, size, 0, &p);
-  }
+  PyObject *tmp=NULL;
 
-  /* Check dimensions */
-  if (PyArray_TYPE(arr) == NPY_OBJECT || PyArray_TYPE(arr) == NPY_VOID)
-    ndim_max = ndims+1;
-  if (PyArray_NDIM(arr) < ndims || PyArray_NDIM(arr) > ndim_max)
-    FAIL2("expected array with %d dimensions, got %d",
-          ndims, PyArray_NDIM(arr));
-  for (i=0; i<ndims; i++)
-    if (PyArray_DIM(arr, i) != shape[i])
-      FAIL3("expected length of dimension %d to be %d, got %ld",
-            i, shape[i], (long)PyArray_DIM(arr, i));
+  for (i=0; i<(size_t)ndims; i++) n *= shape[i];
 
-  /* Assign memory */
-  switch(type) {
-  case dliteFixString:  /* must be NUL-terminated */
-    {
-      char *itemptr = PyArray_DATA(arr);
-      char *p = *((char **)ptr);
-      size_t len = ((size_t)PyArray_ITEMSIZE(arr) < size) ?
-        (size_t)PyArray_ITEMSIZE(arr) : size;
-      memset(p, 0, n*size);
-      for (i=0; i<n; i++, itemptr+=PyArray_ITEMSIZE(arr), p+=size) {
-        strncpy(p, itemptr, len);
-        p[size-1] = '\0';  /* ensure NUL-termination */
-      }
-    }
-    break;
-
-  case dliteStringPtr:  /* array of python strings */
-    {
-      npy_intp itemsize = PyArray_ITEMSIZE(arr);
-      char *itemptr = PyArray_DATA(arr);
-      for (i=0; i<n; i++, itemptr+=itemsize) {
-        char **p = *((char ***)ptr);
-        PyObject *s = PyArray_GETITEM(arr, itemptr);
-        if (s == Py_None) {
-          if (p[i]) free(p[i]);
-        } else if (PyUnicode_Check(s)) {
-          assert(s);
-          Py_ssize_t len;
-          const char *str = PyUnicode_AsUTF8AndSize(s, &len);
-          if (!str) FAIL("failed representing string as UTF-8");
-          p[i] = realloc(p[i], len+1);
-          memcpy(p[i], str, len+1);
-        } else {
-          FAIL("expected None or unicode elements");
-          Py_DECREF(s);
-        }
-        if (s) Py_DECREF(s);
-      }
-    }
-    break;
-
-  case dliteRef:
-  case dliteDimension:
-  case dliteProperty:
-  case dliteRelation:
-    {
-      void *p = *(void **)ptr;
-      if (dlite_swig_setitem((PyObject *)arr, ndims, shape,
-                             type, size, 0, &p)) goto fail;
-    }
-    break;
+  /* Handle objects (like pandas series) exposing themselves as an array */
+  if (!PyArray_CheckAnyScalar(obj) && !PyArray_Check(obj) &&
+      PyObject_HasAttrString(obj, "__array__") &&
+      (tmp = PyArray_FromAny(obj, NULL, 0, 0, 0, NULL)))
+    obj = tmp;
+  PyErr_Clear();
 
-  default:
-    memcpy(*((void **)ptr), PyArray_DATA(arr), n*size);
+  /* Convert to a buffer, such that nothing is changed on failure */
+  if (!(buf = calloc((n) ? n : 1, size)))
+    FAILCODE(dliteMemoryError, "allocation failure");
+  if ((stat = dlite_swig_setarr(buf, ndims, shape, type, size, obj)) < 0)
+    goto fail;
+  p = buf;
+  if (!stat &&
+      dlite_swig_setitem(obj, ndims, shape, type, size, 0, &p)) goto fail;
+
+  /* Swap new and old data */
+  for (i=0; i<n; i++) dlite_type_clear(dest + i*size, type, size);
+  if (n) {
+    memcpy(dest, buf, n*size);
+    memset(buf, 0, n*size);
   }
-
   retval = 0;
  fail:
-  if (arr) Py_DECREF(arr);
+  if (buf) {
+    for (i=0; i<n; i++) dlite_type_clear(buf + i*size, type, size);
+    free(buf);
+  }
+  Py_XDECREF(tmp);
+  if (retval && !dlite_errval()) dlite_err(1, "cannot set array");
   return retval;
 }
 
@@ -489,8 +529,7 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
    Returns a pointer to the new allocated memory or NULL on error.
 
    `ndims` : Number of dimensions in `obj`.
-   `shape`  : Length of each dimension will be written to this array.
-             Must have at least length ndims.
+   `shape` : Length of each dimension in `obj`.
    `type`  : The required type of the array.
    `size`  : The required element size for the array.
    `obj`   : Target language array object.
@@ -499,54 +538,16 @@ void *dlite_swig_copy_array(int ndims, int *shape, DLiteType type,
                             size_t size, obj_t *obj)
 {
   int i;
-  PyArray_Descr *dtype = npy_dtype(type, size);
-  PyArrayObject *arr = NULL;
-  void *ptr, *retptr=NULL;
-
-  if (!dtype) goto fail;
-  if (!(arr = (PyArrayObject *)PyArray_FromAny(obj, dtype, ndims, ndims,
-                                               NPY_ARRAY_DEFAULT, NULL)))
-    FAIL("cannot create C-contiguous array");
-
-  switch (type) {
-  case dliteFixString:
-    assert(PyArray_ITEMSIZE(arr) == (int)size - 1);
-    break;
-  default:
-    assert(PyArray_ITEMSIZE(arr) == (int)size);
-  }
-
-  assert(ndims == PyArray_NDIM(arr));
-  if (!(ptr = calloc(PyArray_SIZE(arr), size)))
-    FAIL("allocation failure");
-
-  switch (type) {
-  case dliteFixString:
-    for (i=0; i<PyArray_SIZE(arr); i++)
-      strncpy((char *)ptr + i*size,
-              (char *)(PyArray_DATA(arr)) + i*PyDataType_ELSIZE(dtype),
-              size);
-    break;
-  case dliteStringPtr:
-  case dliteRef:
-  case dliteDimension:
-  case dliteProperty:
-  case dliteRelation:
-    if (dlite_swig_set_array(&ptr, ndims, shape, type, size, (obj_t *)arr))
-      goto fail;
-    break;
-  default:
-    memcpy(ptr, PyArray_DATA(arr), PyArray_SIZE(arr)*size);
-    break;
+  size_t n=1;
+  void *ptr;
+  for (i=0; i<ndims; i++) n *= shape[i];
+  if (!(ptr = calloc((n) ? n : 1, size)))
+    return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+  if (dlite_swig_set_array(&ptr, ndims, shape, type, size, obj)) {
+    free(ptr);
+    return NULL;
   }
-
-  for (i=0; i<ndims; i++)
-    shape[i] = (int)PyArray_DIM(arr, i);
-
-  retptr = ptr; /* success! */
- fail:
-  if (arr) Py_DECREF(arr);
-  return retptr;
+  return ptr;
 }
 
 
@@ -644,6 +645,7 @@ obj_t *dlite_swig_get_scalar(DLiteType type, size_t size, void *data)
   case dliteRef:
     {
       DLiteInstance *inst = *(DLiteInstance **)data;
+      if (!inst) Py_RETURN_NONE;
       if (!(obj = dlite_pyembed_from_instance(inst->uuid))) goto fail;
     }
     break;
@@ -685,9 +687,78 @@ obj_t *dlite_swig_get_scalar(DLiteType type, size_t size, void *data)
 /* Sets memory pointed to by `ptr` from target language object `obj`.
    The type and size of the updated memory is described by `type` and `size`.
 
-.  Returns non-zero on error.
+   Returns non-zero on error, in which case the memory is left unchanged.
  */
 int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
+{
+  return dlite_swig_set_array(&ptr, 0, NULL, type, size, obj);
+}
+
+
+/* Returns a new reference to Python object `obj` converted to an integer or
+   NULL on error.  Floats are only accepted if they represent an integer. */
+static PyObject *dlite_swig_as_pylong(PyObject *obj)
+{
+  double value;
+  if (PyIndex_Check(obj)) {
+    PyObject *v = PyNumber_Index(obj);
+    if (v || !PyArray_Check(obj) ||
+        PyArray_NDIM((PyArrayObject *)obj) > 0) return v;
+    PyErr_Clear();
+  }
+  if (PyUnicode_Check(obj) || PyBytes_Check(obj)) {
+    PyErr_SetString(PyExc_TypeError, "cannot convert string to int");
+    return NULL;
+  }
+  value = PyFloat_AsDouble(obj);
+  if (PyErr_Occurred()) return NULL;
+  if (value != floor(value)) {
+    PyErr_SetString(PyExc_ValueError, "not an integer");
+    return NULL;
+  }
+  return PyLong_FromDouble(value);
+}
+
+
+/* Returns a new reference to string representation of `obj` or NULL on error.
+   Bytes are expected to be UTF-8 encoded.  On success `*s` and `*len` are
+   assigned to the UTF-8 representation, which is owned by the returned
+   object. */
+static PyObject *dlite_swig_as_str(PyObject *obj, const char **s,
+                                   Py_ssize_t *len)
+{
+  PyObject *str;
+  if (PyBytes_Check(obj))
+    str = PyUnicode_FromEncodedObject(obj, "utf-8", "strict");
+  else
+    str = PyObject_Str(obj);
+  if (!str || !(*s = PyUnicode_AsUTF8AndSize(str, len)))
+    FAIL("cannot represent string as UTF-8");
+  if (strlen(*s) != (size_t)*len)
+    FAIL("strings with embedded NUL characters are not supported");
+  return str;
+ fail:
+  Py_XDECREF(str);
+  return NULL;
+}
+
+
+/* Returns a malloc'ed copy of Python string `str` or NULL on error. */
+static char *dlite_swig_strdup(PyObject *str)
+{
+  const char *s = PyUnicode_AsUTF8(str);
+  return (s) ? strdup(s) : NULL;
+}
+
+
+/* Help function that converts Python object `obj` to a scalar of given type
+   and size.  The result is written to `ptr`, which should initially be filled
+   with zeros.
+
+   Returns non-zero on error.
+ */
+static int dlite_swig_read_scalar(void *ptr, DLiteType type, size_t size,
+                                  obj_t *obj)
 {
   switch (type) {
 
@@ -711,14 +782,15 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
 
   case dliteInt:
     {
-      int overflow;
-#ifdef HAVE_LONG_LONG
-      long long value = PyLong_AsLongLongAndOverflow(obj, &overflow);
-#else
-      long value = PyLong_AsLongAndOverflow(obj, &overflow);
-#endif
-      if (overflow) FAIL("overflow when converting to int");
-      if (PyErr_Occurred()) FAIL("cannot convert to int");
+      int overflow=0;
+      long long value;
+      PyObject *v = dlite_swig_as_pylong(obj);
+      if (!v) FAIL("cannot convert to int");
+      value = PyLong_AsLongLongAndOverflow(v, &overflow);
+      Py_DECREF(v);
+      if (overflow || (size < 8 && (value >> (8*size - 1)) != 0 &&
+                       (value >> (8*size - 1)) != -1))
+        FAIL1("overflow when converting to int%lu", (unsigned long)size*8);
       switch (size) {
       case 1: *((int8_t *)ptr)  =  (int8_t)value; break;
       case 2: *((int16_t *)ptr) = (int16_t)value; break;
@@ -731,12 +803,13 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
 
   case dliteUInt:
     {
-#ifdef HAVE_LONG_LONG
-      unsigned long long value = PyLong_AsUnsignedLongLong(obj);
-#else
-      unsigned long value = PyLong_AsUnsignedLong(obj);
-#endif
-      if (PyErr_Occurred()) FAIL("cannot convert to unsigned int");
+      unsigned long long value;
+      PyObject *v = dlite_swig_as_pylong(obj);
+      if (!v) FAIL("cannot convert to unsigned int");
+      value = PyLong_AsUnsignedLongLong(v);
+      Py_DECREF(v);
+      if (PyErr_Occurred() || (size < 8 && (value >> (8*size)) != 0))
+        FAIL1("overflow when converting to uint%lu", (unsigned long)size*8);
       switch (size) {
       case 1: *((uint8_t *)ptr)  =  (uint8_t)value;  break;
       case 2: *((uint16_t *)ptr) = (uint16_t)value; break;
@@ -753,13 +826,13 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     switch (size) {
     case 4:  *((float32_t *)ptr)  =  (float32_t)value; break;
     case 8:  *((float64_t *)ptr)  =  (float64_t)value; break;
-#ifdef HAVE_FLOAT80
+#ifdef HAVE_FLOAT80_T
     case 10: *((float80_t *)ptr)  =  (float80_t)value; break;
 #endif
-#ifdef HAVE_FLOAT96
+#ifdef HAVE_FLOAT96_T
     case 12: *((float96_t *)ptr)  =  (float96_t)value; break;
 #endif
-#ifdef HAVE_FLOAT128
+#ifdef HAVE_FLOAT128_T
     case 16: *((float128_t *)ptr) = (float128_t)value; break;
 #endif
     default: FAIL1("invalid float size: %lu", (unsigned long)size);
@@ -770,12 +843,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
   case dliteFixString:
     {
       Py_ssize_t n;
-      PyObject *str = PyObject_Str(obj);
-      const char *s = PyUnicode_AsUTF8AndSize(str, &n);
-      if (!s) {
-        Py_DECREF(str);
-        FAIL("cannot represent string as UTF-8");
-      }
+      const char *s;
+      PyObject *str = dlite_swig_as_str(obj, &s, &n);
+      if (!str) goto fail;
       if (n >= (Py_ssize_t)size) {
         Py_DECREF(str);
         FAIL2("Length of string is %lu. Exceeds available size: %lu",
@@ -787,43 +857,29 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     break;
 
   case dliteStringPtr:
-    {
-      char *p;
+    if (obj != Py_None) {
       Py_ssize_t n;
-      PyObject *str = PyObject_Str(obj);
-      const char *s = PyUnicode_AsUTF8AndSize(str, &n);
-      if (!s) {
-        Py_DECREF(str);
-        FAIL("cannot represent string as UTF-8");
-      }
-      if (!(p = realloc(*(void **)ptr, n+1))) {
-        Py_DECREF(str);
-        FAIL("allocation failure");
-      }
-      *(char **)ptr = p;
-      if (p)
-        memcpy(p, s, n+1);
+      const char *s;
+      PyObject *str = dlite_swig_as_str(obj, &s, &n);
+      if (!str) goto fail;
+      *(char **)ptr = strdup(s);
       Py_DECREF(str);
+      if (!*(char **)ptr) FAILCODE(dliteMemoryError, "allocation failure");
     }
     break;
 
   case dliteRef:
-    {
-      DLiteInstance *inst=NULL;
-      if (obj == Py_None) {
-        // do nothing here, handled below...
-      } else if (PyUnicode_Check(obj)) {
+    if (obj != Py_None) {
+      DLiteInstance *inst;
+      if (PyUnicode_Check(obj)) {
         const char *s = PyUnicode_AsUTF8(obj);
         if (!s) FAIL("cannot represent string as UTF-8");
-        inst = dlite_instance_get(s);
-      } else {
-        inst = dlite_pyembed_get_instance(obj);
-      }
-      if (inst || obj == Py_None) {
-        DLiteInstance **q = ptr;
-        if (*q) dlite_instance_decref(*q);
-        *q = inst;
+        if (!(inst = dlite_instance_get(s)))
+          FAIL1("no such instance: %s", s);
+      } else if (!(inst = dlite_pyembed_get_instance(obj))) {
+        FAIL("cannot convert Python object to instance");
       }
+      *(DLiteInstance **)ptr = inst;
     }
     break;
 
@@ -832,25 +888,19 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
       DLiteDimension *dest = ptr;
       void *p;
       if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteDimension, 0))) {
-        DLiteDimension *src = (DLiteDimension *)p;
-        if (dest->name)        free(dest->name);
-        if (dest->description) free(dest->description);
-        dest->name        = strdup(src->name);
-        dest->description = (src->description) ? strdup(src->description) :NULL;
+        if (!dlite_type_copy(dest, p, type, size)) goto fail;
       } else if (PySequence_Check(obj) && PySequence_Length(obj) == 2) {
         PyObject *name = PySequence_GetItem(obj, 0);
         PyObject *descr = PySequence_GetItem(obj, 1);
         if (name && PyUnicode_Check(name)) {
-          if (dest->name)        free(dest->name);
-          if (dest->description) free(dest->description);
-          dest->name = strdup(PyUnicode_AsUTF8(name));
+          dest->name = dlite_swig_strdup(name);
           dest->description = (descr && PyUnicode_Check(descr)) ?
-            strdup(PyUnicode_AsUTF8(descr)) : NULL;
-        } else {
-          dlite_err(1, "cannot convert Python sequence to dimension");
+            dlite_swig_strdup(descr) : NULL;
         }
         Py_XDECREF(name);
         Py_XDECREF(descr);
+        if (!dest->name)
+          FAIL("cannot convert Python sequence to dimension");
       } else {
         FAIL("cannot convert Python object to dimension");
       }
@@ -862,77 +912,58 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
       DLiteProperty *dest = ptr;
       void *p;
       if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteProperty, 0))) {
-        DLiteProperty *src = (DLiteProperty *)p;
-        if (dest->name)        free(dest->name);
-        if (dest->ref)         free(dest->ref);
-        if (dest->shape)       free_str_array(dest->shape, dest->ndims);
-        if (dest->unit)        free(dest->unit);
-        if (dest->description) free(dest->description);
-        dest->name  = strdup(src->name);
-        dest->type  = src->type;
-        dest->size  = src->size;
-        if (src->ref) dest->ref = strdup(src->ref);
-        dest->ndims = src->ndims;
-        if (src->ndims > 0) {
-          int j;
-          dest->shape = malloc(src->ndims*sizeof(char *));
-          for (j=0; j < src->ndims; j++)
-            dest->shape[j] = strdup(src->shape[j]);
-        } else
-          dest->shape = NULL;
-        dest->unit        = (src->unit) ? strdup(src->unit) : NULL;
-        dest->description = (src->description) ? strdup(src->description) :NULL;
+        if (!dlite_type_copy(dest, p, type, size)) goto fail;
 
       } else if (PySequence_Check(obj) && PySequence_Length(obj) == 6) {
         /* We should deprecate this - either remove or change to dict... */
         PyObject *name  = PySequence_GetItem(obj, 0);
-        PyObject *type  = PySequence_GetItem(obj, 1);
+        PyObject *ptype = PySequence_GetItem(obj, 1);
         PyObject *ref   = PySequence_GetItem(obj, 2);
         PyObject *shape = PySequence_GetItem(obj, 3);
         PyObject *unit  = PySequence_GetItem(obj, 4);
         PyObject *descr = PySequence_GetItem(obj, 5);
         DLiteType t;
-        size_t size;
-        if (name && PyUnicode_Check(name) &&
-            type && PyUnicode_Check(type) &&
-            dlite_type_set_dtype_and_size(PyUnicode_AsUTF8(type),
-                                          &t, &size) == 0) {
-          if (dest->name)        free(dest->name);
-          if (dest->ref)         free(dest->ref);
-          if (dest->shape)       free_str_array(dest->shape, dest->ndims);
-          if (dest->unit)        free(dest->unit);
-          if (dest->description) free(dest->description);
-          dest->name = strdup(PyUnicode_AsUTF8(name));
+        size_t tsize;
+        const char *typename = (ptype && PyUnicode_Check(ptype)) ?
+          PyUnicode_AsUTF8(ptype) : NULL;
+        if (name && PyUnicode_Check(name) && typename &&
+            dlite_type_set_dtype_and_size(typename, &t, &tsize) == 0) {
+          dest->name = dlite_swig_strdup(name);
           dest->type = t;
-          dest->size = size;
-          if (ref != Py_None) dest->ref = strdup(PyUnicode_AsUTF8(ref));
-          if (shape && PyUnicode_Check(shape)) {
+          dest->size = tsize;
+          dest->ref = (ref && PyUnicode_Check(ref)) ?
+            dlite_swig_strdup(ref) : NULL;
+          if (shape && PyUnicode_Check(shape) && PyUnicode_AsUTF8(shape)) {
             const char *s = PyUnicode_AsUTF8(shape);
-            int j=0, ndims=(s && *s) ? 1 : 0;
+            int j=0, ndims;
+            s += strspn(s, " \t\n[");
+            ndims = (*s && *s != ']') ? 1 : 0;
             while (s[j]) if (s[j++] == ',') ndims++;
             dest->ndims = ndims;
-            dest->shape = malloc(ndims*sizeof(char *));
-            s += strspn(s, " \t\n[");
+            if (ndims) dest->shape = calloc(ndims, sizeof(char *));
             for (j=0; j<ndims; j++) {
               size_t len;
               s += strspn(s, " \t\n");
               len = strcspn(s, ",] \t\n");
               dest->shape[j] = strndup(s, len);
-              s += len + 1;
+              s += len;
+              s += strcspn(s, ",");
+              if (*s) s++;
             }
           }
           dest->unit = (unit && PyUnicode_Check(unit)) ?
-            strdup(PyUnicode_AsUTF8(unit)) : NULL;
+            dlite_swig_strdup(unit) : NULL;
           dest->description = (descr && PyUnicode_Check(descr)) ?
-            strdup(PyUnicode_AsUTF8(descr)) : NULL;
-        } else {
-          dlite_err(1, "cannot convert Python sequence to property");
+            dlite_swig_strdup(descr) : NULL;
         }
         Py_XDECREF(name);
-        Py_XDECREF(type);
+        Py_XDECREF(ptype);
+        Py_XDECREF(ref);
         Py_XDECREF(shape);
         Py_XDECREF(unit);
         Py_XDECREF(descr);
+        if (!dest->name)
+          FAIL("cannot convert Python sequence to property");
 
       } else {
         FAIL("cannot convert Python object to property");
@@ -944,8 +975,7 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     {
       void *p;
       if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__Triple, 0))) {
-        DLiteRelation *src = (DLiteRelation *)p;
-        triple_reset(ptr, src->s, src->p, src->o, src->d, src->id);
+        if (!dlite_type_copy(ptr, p, type, size)) goto fail;
 
       } else if (PySequence_Check(obj) || PyIter_Check(obj)) {
         int i;
@@ -955,6 +985,8 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
         assert(sizeof(DLiteRelation) == 5*sizeof(char *));
 
         /* Check that `obj` is a sequence of 3 to 5 strings */
+        if (PyUnicode_Check(obj))
+          FAIL("cannot convert string to relation");
         if (!(lst = PySequence_Fast(obj, "not a sequence or iterable")))
           FAIL("expected relation to be represented by a sequence or iterable");
 
@@ -972,19 +1004,15 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
           }
         }
 
-        /* Free old values stored in the relation */
-        for (i=0; i<5; i++)
-          if (s[i]) {
-            free(s[i]);
-            s[i] = NULL;
-          }
-
         /* Assign new values */
         for (i=0; i<n; i++) {
           PyObject *item = PySequence_Fast_GET_ITEM(lst, i);
           assert(PyUnicode_Check(item));
           const char *q = PyUnicode_AsUTF8(item);
-          if (!q) FAIL("failed representing string as UTF-8");
+          if (!q) {
+            Py_DECREF(lst);
+            FAIL("failed representing string as UTF-8");
+          }
           s[i] = strdup(q);
         }
 
@@ -1066,7 +1094,7 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
     for (j=0; j<p->ndims; j++) {
       if (!p->shape[j])
         FAIL2("missing dimension %d of property %d", j, i);
-      shape[j] = (int)DLITE_PROP_DIM(inst, i, j);
+      shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
     obj = dlite_swig_get_array(inst, p->ndims, shape, p->type, p->size, *ptr);
   }
@@ -1099,7 +1127,7 @@ int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
     for (j=0; j<p->ndims; j++) {
       if (!p->shape[j])
         FAIL2("missing dimension %d of property %d", j, i);
-      shape[j] = (int)DLITE_PROP_DIM(inst, i, j);
+      shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
     if (dlite_swig_set_array(ptr, p->ndims, shape, p->type, p->size, obj))
       goto fail;
@@ -1252,6 +1280,7 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
     for (i=0; i<$2; i++) {
       DLiteProperty *p = $1 + i;
       free(p->name);
+      if (p->ref) free(p->ref);
       if (p->shape) free_str_array(p->shape, p->ndims);
       if (p->unit) free(p->unit);
       if (p->description) free(p->description);
-- 
2.43.0


From e7304f578df42f99e746f6e3c2eb8aaf23fcc206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 123/161] fix: Python instance methods aborted on wrong
 arguments, ignored metaid, leaked or lacked references and read beyond bytes
 input

---
 bindings/python/dlite-entity.i | 39 ++++++++++++++++++++++++----------
 bindings/python/dlite-python.i | 38 +++++++++++++++++++++------------
 2 files changed, 52 insertions(+), 25 deletions(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 065ec1b..effd81a 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -296,7 +296,8 @@ Arguments:
   (struct _DLiteDimension *dimensions, int ndimensions)};
 %apply(struct _DLiteProperty *properties, int nproperties) {
   (struct _DLiteProperty *properties, int nproperties)};
-%apply(unsigned char *INPUT_BYTES) {(unsigned char *bsoninput)};
+%apply(unsigned char *INPUT_BYTES, size_t LEN) {
+  (const unsigned char *bsoninput, size_t bsonlen)};
 
 %rename(Instance) _DLiteInstance;
 struct _DLiteInstance {
@@ -316,14 +317,18 @@ struct _DLiteInstance {
                  const char *options=NULL,
                  const char *uri=NULL,
                  const char *jsoninput=NULL,
-                 const unsigned char *bsoninput=NULL,
+                 const unsigned char *bsoninput=NULL, size_t bsonlen=0,
                  struct _DLiteDimension *dimensions=NULL, int ndimensions=0,
                  struct _DLiteProperty *properties=NULL, int nproperties=0,
                  const char *description=NULL) {
-    if (dims && metaid) {
+    if (dims && metaid && !url && !storage && !driver && !jsoninput) {
       DLiteInstance *inst;
       DLiteMeta *meta;
       size_t i, *d, n=ndims;
+      for (i=0; i<n; i++)
+        if (dims[i] < 0)
+          return dlite_err(dliteValueError, "negative dimension size: %d",
+                           dims[i]), NULL;
       if (!(meta = dlite_meta_get(metaid)))
         return dlite_err(dliteMissingMetadataError,
                          "cannot find metadata '%s'", metaid), NULL;
@@ -361,7 +366,7 @@ struct _DLiteInstance {
       DLiteStorage *s;
       DLiteInstance *inst;
       if (!(s = dlite_storage_open(driver, location, options))) return NULL;
-      inst = dlite_instance_load(s, id);
+      inst = dlite_instance_load_casted(s, id, metaid);
       dlite_storage_close(s);
       if (inst) dlite_errclr();
       return inst;
@@ -370,7 +375,13 @@ struct _DLiteInstance {
       if (inst) dlite_errclr();
       return inst;
     } else if (bsoninput) {
-      DLiteInstance *inst = dlite_bson_load_instance(bsoninput);
+      DLiteInstance *inst;
+      /* A bson document starts with its length as a little-endian int32 */
+      if (bsonlen < 5 ||
+          (bsoninput[0] | bsoninput[1] << 8 | bsoninput[2] << 16 |
+           (size_t)bsoninput[3] << 24) > bsonlen)
+        return dlite_err(dliteParseError, "truncated bson input"), NULL;
+      inst = dlite_bson_load_instance(bsoninput);
       if (inst) dlite_errclr();
       return inst;
     } else if (uri && dimensions && properties && description){
@@ -382,7 +393,7 @@ struct _DLiteInstance {
     } else {
       dlite_err(1, "invalid arguments to Instance()");
     }
-    abort();  // should never be reached
+    return NULL;
   }
 
   ~_DLiteInstance() {
@@ -390,7 +401,9 @@ struct _DLiteInstance {
   }
 
   %feature("docstring", "Returns reference to metadata.") _get_meta;
+  %newobject _get_meta;
   const struct _DLiteInstance *_get_meta() {
+    dlite_meta_incref((DLiteMeta *)$self->meta);
     return (const DLiteInstance *)$self->meta;
   }
 
@@ -461,8 +474,10 @@ Call signatures:
       dlite_err(dliteMemoryError, "allocation failure");
       return;
     }
-    if ((m = dlite_instance_memsave(driver, buf, n+1, $self, options)) < 0)
+    if ((m = dlite_instance_memsave(driver, buf, n+1, $self, options)) < 0) {
+      free(buf);
       return;
+    }
     assert (m == n);
     *ARGOUT_BYTES = buf;
     *LEN = n;
@@ -503,9 +518,10 @@ Call signatures:
            ) verify_hash;
   void verify_hash(const char *hash=NULL, bool recursive=false) {
     uint8_t *hashp = NULL;
+    uint8_t data[DLITE_HASH_SIZE];
     if (hash) {
-      uint8_t data[DLITE_HASH_SIZE];
-      if (strhex_decode(data, sizeof(data), hash, (int)strlen(hash)) < 0) {
+      if (strlen(hash) != 2*sizeof(data) ||
+          strhex_decode(data, sizeof(data), hash, (int)strlen(hash)) < 0) {
         dlite_err(1, "cannot decode hash: %s\n", hash);
         return;
       }
@@ -552,7 +568,7 @@ Call signatures:
            "This function may pull snapshots back into memory. Use\n"
            "`dlite_instance_pull()` if you know the storage where the snapshots "
            "are stored.") get_snapshot;
-  %newobject get_snapshop;
+  %newobject get_snapshot;
   struct _DLiteInstance *get_snapshot(int n=1) {
     DLiteInstance *inst =
       (DLiteInstance *)dlite_instance_get_snapshot($self, n);
@@ -568,7 +584,7 @@ Call signatures:
            "counts backward.  Hence, `n=0` returns the current instance,\n"
            "`n=1` returns its parent, etc... "
            ) pull_snapshot;
-  %newobject get_snapshop;
+  %newobject pull_snapshot;
   struct _DLiteInstance *pull_snapshot(struct _DLiteStorage *storage, int n) {
     DLiteInstance *inst =
       (DLiteInstance *)dlite_instance_pull_snapshot($self, storage, n);
@@ -863,6 +879,7 @@ void dlite_swig_set_property(struct _DLiteInstance *inst, const char *name,
                              obj_t *obj);
 bool dlite_instance_has_property(struct _DLiteInstance *inst, const char *name);
 
+%newobject dlite_instance_memload;
 %rename(_from_bytes) dlite_instance_memload;
 %feature("docstring", "Loads instance from string.") dlite_instance_memload;
 struct _DLiteInstance *
diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 535cbb9..da10053 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -289,7 +289,7 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
 {
   int i;
   npy_intp *d=NULL;
-  PyObject *obj, *cap, *retval=NULL;
+  PyObject *obj=NULL, *cap, *retval=NULL;
   int typecode = npy_type(type, size);
 
   if (typecode < 0) goto fail;
@@ -319,9 +319,10 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
         PyObject *item;
         if (!(item = dlite_swig_get_scalar(type, size, ptr)))
           goto fail;
-        if (PyArray_SETITEM(arr, itemptr, item))
-          FAIL1("cannot set item of type %s", dlite_type_get_dtypename(type));
+        int stat = PyArray_SETITEM(arr, itemptr, item);
         Py_DECREF(item);
+        if (stat)
+          FAIL1("cannot set item of type %s", dlite_type_get_dtypename(type));
       }
       break;
     }
@@ -343,12 +344,13 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
                         dlite_swig_capsule_instance_decref);
     if (!cap)
       FAIL("error creating capsule");
+    dlite_instance_incref(inst);
     if (PyArray_SetBaseObject((PyArrayObject *)obj, cap) < 0)
       FAIL("error setting numpy array base");
-    dlite_instance_incref(inst);
   }
   retval = obj;
  fail:
+  if (!retval) Py_XDECREF(obj);
   if (d) free(d);
   return retval;
 }
@@ -1216,12 +1218,15 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
 /* String (with possible NUL-bytes) */
 %typemap("doc") (const char *INPUT, size_t LEN)
   "string"
-%typemap(in, numinputs=1) (const char *INPUT, size_t LEN) (Py_ssize_t tmp) {
-  PyObject *str = PyObject_Str($input);
-  if (!str) SWIG_exception(SWIG_TypeError, "Cannot get string representation");
-  $1 = (char *)PyUnicode_AsUTF8AndSize(str, &tmp);
+%typemap(in, numinputs=1) (const char *INPUT, size_t LEN)
+  (Py_ssize_t tmp, PyObject *str=NULL) {
+  str = PyObject_Str($input);
+  if (!str || !($1 = (char *)PyUnicode_AsUTF8AndSize(str, &tmp)))
+    SWIG_exception(SWIG_TypeError, "Cannot get string representation");
   $2 = tmp;
-  Py_DECREF(str);
+}
+%typemap(freearg) (const char *INPUT, size_t LEN) {
+  Py_XDECREF(str$argnum);
 }
 
 /* Array of input dimensions */
@@ -1353,7 +1358,7 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
     if ((n = PyByteArray_Size($input)) < 0) SWIG_fail;
     if (!(tmp = PyByteArray_AsString($input))) SWIG_fail;
   } else {
-    SWIG_Error(SWIG_TypeError, "argument must be bytes or bytearray");
+    SWIG_exception(SWIG_TypeError, "argument must be bytes or bytearray");
   }
   $1 = (unsigned char *)tmp;
   $2 = n;
@@ -1362,7 +1367,7 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
 /* Bytes object (without explicit length) */
 %typemap("doc") unsigned char *INPUT_BYTES "bytes"
 %typemap(in) unsigned char *INPUT_BYTES {
-  $1 = (unsigned char *)PyBytes_AsString($input);
+  if (!($1 = (unsigned char *)PyBytes_AsString($input))) SWIG_fail;
 }
 
 /* ---------------
@@ -1458,7 +1463,9 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   if ($1) {
     char **p;
     for (p=$1; *p; p++) {
-      PyList_Append($result, PyUnicode_FromString(*p));
+      PyObject *str = PyUnicode_FromString(*p);
+      if (str) PyList_Append($result, str);
+      Py_XDECREF(str);
       free(*p);
     }
     free($1);
@@ -1474,8 +1481,11 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   $result = PyList_New(0);
   if ($1) {
     char **p;
-    for (p=$1; *p; p++)
-      PyList_Append($result, PyUnicode_FromString(*p));
+    for (p=$1; *p; p++) {
+      PyObject *str = PyUnicode_FromString(*p);
+      if (str) PyList_Append($result, str);
+      Py_XDECREF(str);
+    }
   }
 }
 
-- 
2.43.0


From 22f2a8c47bbc496f287cd9581aad79e3e2a6ed85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 124/161] fix: dimensions, properties and relations accessed
 from Python dangled when their instance was freed, and were not pickled

---
 bindings/python/dlite-entity-python.i | 27 ++++++++++++++-----
 bindings/python/dlite-python.i        | 37 ++++++++++++++++++++++++---
 2 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index d1cc80e..9a6495a 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -327,8 +327,10 @@ def get_instance(
     def asdict(self):
         """Returns a dict representation of self."""
         d = dict(s=self.s, p=self.p, o=self.o)
+        if self.d:
+            d['d'] = self.d
         if self.id:
-            d[id] = self.id
+            d['id'] = self.id
         return d
 
     def asstrings(self):
@@ -969,18 +971,31 @@ def get_instance(
 
     def __reduce__(self):
         # ensures that instances can be pickled
+        if self.is_meta:
+            return Instance.from_bson, (bytes(self.asbson()),)
+
+        def conv(value):
+            if isinstance(value, Relation):
+                return value.asdict() if value.s is not None else None
+            return value
+
         def iterfun(inst):
            for i, prop in enumerate(inst.properties.values()):
                if isinstance(prop, np.ndarray):
-                   p = np.zeros_like(prop)
-                   p.flat = [p.asdict() if hasattr(p, 'asdict') else p
-                             for p in prop]
+                   p = prop.copy()
+                   if prop.dtype == object:
+                       for n, v in enumerate(prop.flat):
+                           p.flat[n] = conv(v)
                else:
-                   p = prop.asdict() if hasattr(prop, 'asdict') else prop
+                   p = conv(prop)
                yield i, p
         return (
             Instance.from_metaid,
-            (self.meta.uri, list(self.dimensions.values()), self.uuid),
+            (
+                self.meta.uri,
+                list(self.dimensions.values()),
+                self.uri if self.uri else self.uuid,
+            ),
             None,
             None,
             iterfun(self),
diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index da10053..41682a6 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -274,6 +274,26 @@ void dlite_swig_errclr(void)
 }
 
 
+/* If `obj` refers to memory owned by `inst`, make `obj` keep a reference to
+   `inst`.  Returns non-zero on error. */
+static int dlite_swig_set_owner(PyObject *obj, DLiteType type,
+                                DLiteInstance *inst)
+{
+  int stat;
+  PyObject *cap;
+  if (!inst || (type != dliteDimension && type != dliteProperty &&
+                type != dliteRelation)) return 0;
+  if (!(cap = PyCapsule_New(inst, DLITE_INSTANCE_CAPSULE_NAME,
+                            dlite_swig_capsule_instance_decref)))
+    return dlite_err(1, "error creating capsule");
+  dlite_instance_incref(inst);
+  stat = PyObject_SetAttrString(obj, "_owner", cap);
+  Py_DECREF(cap);
+  if (stat) return dlite_err(1, "cannot set owner of Python object");
+  return 0;
+}
+
+
 /* Returns a new array object for the target language or NULL on error.
 
    `inst` : The DLite instance that own the data. If NULL, the returned
@@ -319,7 +339,8 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
         PyObject *item;
         if (!(item = dlite_swig_get_scalar(type, size, ptr)))
           goto fail;
-        int stat = PyArray_SETITEM(arr, itemptr, item);
+        int stat = (dlite_swig_set_owner(item, type, inst) ||
+                    PyArray_SETITEM(arr, itemptr, item));
         Py_DECREF(item);
         if (stat)
           FAIL1("cannot set item of type %s", dlite_type_get_dtypename(type));
@@ -889,7 +910,8 @@ static int dlite_swig_read_scalar(void *ptr, DLiteType type, size_t size,
     {
       DLiteDimension *dest = ptr;
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteDimension, 0))) {
+      if (obj != Py_None &&
+          SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteDimension, 0))) {
         if (!dlite_type_copy(dest, p, type, size)) goto fail;
       } else if (PySequence_Check(obj) && PySequence_Length(obj) == 2) {
         PyObject *name = PySequence_GetItem(obj, 0);
@@ -913,7 +935,8 @@ static int dlite_swig_read_scalar(void *ptr, DLiteType type, size_t size,
     {
       DLiteProperty *dest = ptr;
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteProperty, 0))) {
+      if (obj != Py_None &&
+          SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteProperty, 0))) {
         if (!dlite_type_copy(dest, p, type, size)) goto fail;
 
       } else if (PySequence_Check(obj) && PySequence_Length(obj) == 6) {
@@ -976,7 +999,9 @@ static int dlite_swig_read_scalar(void *ptr, DLiteType type, size_t size,
   case dliteRelation:
     {
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__Triple, 0))) {
+      if (obj == Py_None) {
+        /* an empty relation */
+      } else if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__Triple, 0))) {
         if (!dlite_type_copy(ptr, p, type, size)) goto fail;
 
       } else if (PySequence_Check(obj) || PyIter_Check(obj)) {
@@ -1091,6 +1116,10 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
   p = inst->meta->_properties + n;
   if (p->ndims == 0) {
     obj = dlite_swig_get_scalar(p->type, p->size, ptr);
+    if (obj && dlite_swig_set_owner(obj, p->type, inst)) {
+      Py_DECREF(obj);
+      obj = NULL;
+    }
   } else {
     if (!(shape = malloc(p->ndims*sizeof(int)))) FAIL("allocation failure");
     for (j=0; j<p->ndims; j++) {
-- 
2.43.0


From 1b1d8256bfa4f73c413ab5568375c0c4effe3d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:03 +0000
Subject: [PATCH 125/161] fix: assignment of properties from Python accepted
 sequences of wrong shape

---
 bindings/python/dlite-python.i | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 41682a6..4eeef37 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -4,7 +4,6 @@
 */
 
 %{
-#include <math.h>
 #include <Python.h>
 #include "boolean.h"
 #ifndef HAVE_STDINT_H
@@ -401,13 +400,17 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
 {
   int i, stat=0;
   if (d == ndims) {
+    if (ndims > 0 && type == dliteBool && !dlite_swig_is_item(obj))
+      return dlite_err(1, "cannot convert sequence to boolean");
     stat = dlite_swig_read_scalar(*ptr, type, size, obj);
     *ptr += size;
   } else if (dlite_swig_is_item(obj)) {
-    if (shape[d] != 1)
-      return dlite_err(1, "expected sequence of length %d for dimension %d",
-                       shape[d], d);
-    stat = dlite_swig_setitem(obj, ndims, shape, type, size, d+1, ptr);
+    /* A single item can be assigned to an array with one element */
+    for (i=0; i<ndims; i++)
+      if (shape[i] != 1 || d > 0)
+        return dlite_err(1, "expected sequence of length %d for dimension %d",
+                         shape[d], d);
+    stat = dlite_swig_setitem(obj, ndims, shape, type, size, ndims, ptr);
   } else {
     Py_ssize_t n = PyObject_Length(obj);
     if (n != shape[d])
@@ -719,27 +722,22 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
 
 
 /* Returns a new reference to Python object `obj` converted to an integer or
-   NULL on error.  Floats are only accepted if they represent an integer. */
+   NULL on error.  Non-integral values are not accepted. */
 static PyObject *dlite_swig_as_pylong(PyObject *obj)
 {
-  double value;
-  if (PyIndex_Check(obj)) {
-    PyObject *v = PyNumber_Index(obj);
-    if (v || !PyArray_Check(obj) ||
-        PyArray_NDIM((PyArrayObject *)obj) > 0) return v;
-    PyErr_Clear();
-  }
+  int equal;
+  PyObject *v;
   if (PyUnicode_Check(obj) || PyBytes_Check(obj)) {
     PyErr_SetString(PyExc_TypeError, "cannot convert string to int");
     return NULL;
   }
-  value = PyFloat_AsDouble(obj);
-  if (PyErr_Occurred()) return NULL;
-  if (value != floor(value)) {
-    PyErr_SetString(PyExc_ValueError, "not an integer");
+  if (!(v = PyNumber_Long(obj))) return NULL;
+  if ((equal = PyObject_RichCompareBool(v, obj, Py_EQ)) <= 0) {
+    if (!equal) PyErr_SetString(PyExc_ValueError, "not an integer");
+    Py_DECREF(v);
     return NULL;
   }
-  return PyLong_FromDouble(value);
+  return v;
 }
 
 
-- 
2.43.0


From 7b7791158f489eacc021c9d522127d21e6eb5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:52 +0000
Subject: [PATCH 126/161] fix: bytes are a sequence of integers when assigned
 to integer arrays

---
 bindings/python/dlite-python.i | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 4eeef37..23dce2e 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -377,10 +377,12 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
 
 
 /* Returns non-zero if `obj` is a string-like or not a sequence, i.e.  an
-   object that can only be converted to a single array element. */
-static int dlite_swig_is_item(PyObject *obj)
+   object that can only be converted to a single array element of type `type`.
+   Bytes are a sequence of integers if `type` is integer. */
+static int dlite_swig_is_item(PyObject *obj, DLiteType type)
 {
-  return (PyUnicode_Check(obj) || PyBytes_Check(obj) || !PySequence_Check(obj)
+  return (PyUnicode_Check(obj) || !PySequence_Check(obj) ||
+          (PyBytes_Check(obj) && type != dliteInt && type != dliteUInt)
           || (PyArray_Check(obj) && PyArray_NDIM((PyArrayObject *)obj) == 0));
 }
 
@@ -400,11 +402,11 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
 {
   int i, stat=0;
   if (d == ndims) {
-    if (ndims > 0 && type == dliteBool && !dlite_swig_is_item(obj))
+    if (ndims > 0 && type == dliteBool && !dlite_swig_is_item(obj, type))
       return dlite_err(1, "cannot convert sequence to boolean");
     stat = dlite_swig_read_scalar(*ptr, type, size, obj);
     *ptr += size;
-  } else if (dlite_swig_is_item(obj)) {
+  } else if (dlite_swig_is_item(obj, type)) {
     /* A single item can be assigned to an array with one element */
     for (i=0; i<ndims; i++)
       if (shape[i] != 1 || d > 0)
-- 
2.43.0


From aa706fa23ee6301f62947d36af554a3df7903863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:59 +0000
Subject: [PATCH 127/161] fix: dictionary representations of instances hold all
 property values

asdict() left blobs, references, relations, dimensions, properties and
nested arrays as objects that from_dict() and json could not handle, and
JStore.get() leaked a reference to the returned instance.
---
 bindings/python/dlite-entity-python.i | 37 +++++++++++++++++++--------
 bindings/python/dlite-jstore-python.i |  2 +-
 bindings/python/dlite-jstore.i        |  2 +-
 bindings/python/utils.py              |  1 +
 4 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index 9a6495a..1c85189 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -123,10 +123,22 @@ def standardise(v, prop, asdict=False):
     """Represent property value `v` as a standard python type.
     If `asdict` is true, dimensions, properties and relations will be
     represented with a dict, otherwise as a list of strings."""
-    if asdict:
-        conv = lambda x: x.asdict() if hasattr(x, 'asdict') else x
-    else:
-        conv = lambda x: list(x.asstrings()) if hasattr(x, 'asstrings') else x
+    def conv(x):
+        if isinstance(x, list):
+            return [conv(e) for e in x]
+        if isinstance(x, Instance):
+            return x.uuid
+        if isinstance(x, bytes):
+            return x.decode()
+        if isinstance(x, np.floating):
+            return float(x)
+        if asdict and hasattr(x, 'asdict'):
+            return x.asdict()
+        if isinstance(x, Relation):
+            if x.s is None:
+                return None
+            return list(x.asstrings()) + ([x.d] if x.d else [])
+        return list(x.asstrings()) if hasattr(x, 'asstrings') else x
 
     if prop.dtype == BlobType:
         if prop.ndims:
@@ -138,7 +150,7 @@ def standardise(v, prop, asdict=False):
         else:
             return ''.join(f'{c:02x}' for c in v)
     elif hasattr(v, 'tolist'):
-        return [conv(x) for x in v.tolist()]
+        return conv(v.tolist())
     else:
         return conv(v)
 
@@ -251,7 +263,7 @@ def get_instance(
             d['name'] = self.name
         d['type'] = self.get_type()
         if self.ref:
-            d['ref'] = self.ref
+            d['$ref'] = self.ref
         if self.ndims:
             d['shape' if soft7 else 'dims'] = self.shape.tolist()
         if self.unit:
@@ -1017,7 +1029,7 @@ def get_instance(
             single = self.is_meta
 
         if uuid is None:
-            uuid = single and self.uri
+            uuid = single and not self.uri
 
         if not single:
             d = {}
@@ -1041,11 +1053,16 @@ def get_instance(
                                    for p in self['properties']]
         else:
             d['dimensions'] = self.dimensions
-            d['properties'] = {k: standardise(v, self.get_property_descr(k))
-                               for k, v in self.properties.items()}
+            descr = {p.name: p for p in self.meta['properties']}
+            d['properties'] = {
+                k: standardise(v, descr[k], asdict=descr[k].dtype in (
+                    DimensionType, PropertyType))
+                for k, v in self.properties.items()
+            }
         if self.has_property('relations') and (
                 self.is_meta or self.meta.has_property('relations')):
-            d['relations'] = self['relations'].tolist()
+            d['relations'] = standardise(
+                self['relations'], self.get_property_descr('relations'))
         return dct
 
     def asjson(self, indent=0, single=None,
diff --git a/bindings/python/dlite-jstore-python.i b/bindings/python/dlite-jstore-python.i
index e7fb750..a43d0af 100644
--- a/bindings/python/dlite-jstore-python.i
+++ b/bindings/python/dlite-jstore-python.i
@@ -164,7 +164,7 @@ class _JSONEncoder(json.JSONEncoder):
     """JSON encoder that also handle bytes object."""
     def default(self, o):
         if isinstance(o, bytes):
-            return "".join(f"{c:x}" for c in o)
+            return "".join(f"{c:02x}" for c in o)
         elif (isinstance(o, (str, bool, int, float, list, dict)) or o is None):
             return super().default(o)
         else:
diff --git a/bindings/python/dlite-jstore.i b/bindings/python/dlite-jstore.i
index 43bf05e..7b775cd 100644
--- a/bindings/python/dlite-jstore.i
+++ b/bindings/python/dlite-jstore.i
@@ -76,7 +76,7 @@ struct _JStore {};
            "Return instance with given `id` from store. "
            "If `id` is None and there is exactly one instance in the store, "
            "return the instance.  Otherwise raise an DLiteLookupError.") get;
-  %newobject get;
+  %newobject _get;
   struct _DLiteInstance *_get(const char *id=NULL) {
     if (!id && !(id = _single_id($self))) return NULL;
     return dlite_jstore_get($self, id);
diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 4d3a2a6..0a9e986 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -505,6 +505,7 @@ def infer_dimensions(meta, values, strict=True):
                         for item in arr:
                             result.append(
                                 like(item) if isinstance(item, Sequence)
+                                and not isinstance(item, (str, bytes))
                                 else None
                             )
                         return result
-- 
2.43.0


From 94e76b74d9e46519138900752ff42b5b1a16b3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 128/161] fix: read back non-finite numbers, empty relations
 and ref from JSON

Positive infinity was written as 'inf', which the JSON parser refused,
negative zero was turned into an integer by other JSON parsers, empty
relations became relations between strings '(null)' and the 'ref' written
by Property.asdict() was ignored.
---
 src/dlite-type.c | 31 ++++++++++++++++++++++++++++++-
 src/utils/jsmn.h |  4 ++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 18a8a7a..42873e3 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -2,6 +2,7 @@
 
 #include <assert.h>
 #include <float.h>
+#include <math.h>
 #include <string.h>
 #include <stddef.h>
 #include <ctype.h>
@@ -805,6 +806,26 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     if (w == -1) w = 12;
     if (r == -1) r = 6;
     if (r == -3) {
+      /* Represent non-finite values as Python and Javascript does, since
+         they are not covered by JSON */
+      long double v=0;
+      switch (size) {
+      case 4:  v = *((float32_t *)p); break;
+      case 8:  v = *((float64_t *)p); break;
+#ifdef HAVE_FLOAT128_T
+      case 16: v = *((float128_t *)p); break;
+#endif
+      }
+      if (v != v || v - v != 0) {
+        m = snprintf(dest, n, "%*s", w,
+                     (v != v) ? "NaN" : (v > 0) ? "Infinity" : "-Infinity");
+        break;
+      }
+      if (v == 0 && signbit(v)) {  /* do not confuse with integer -0 */
+        m = snprintf(dest, n, "%*s", w, "-0.0");
+        break;
+      }
+
       /* Use the lowest precision (at least 6 digits) for which the
          value can be read back unchanged */
       char buf[64];
@@ -823,7 +844,7 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
           same = (strtold(buf, NULL) == *((float128_t *)p)); break;
 #endif
         }
-        if (same || !strpbrk(buf, "0123456789")) break;
+        if (same) break;
       }
     }
     switch (size) {
@@ -920,6 +941,10 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
   case dliteRelation:
     {
       DLiteRelation *r = (DLiteRelation *)p;
+      if (!r->s && !r->p && !r->o) {
+        m = snprintf(dest, n, "null");
+        break;
+      }
       m = snprintf(dest, n, "[");
       m += strquote(dest+m, PDIFF(n, m), r->s);
       m += snprintf(dest+m, PDIFF(n, m), ", ");
@@ -1268,6 +1293,10 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       memset(rel, 0, sizeof(DLiteRelation));
 
       if (len < 0) len = strlen(src);
+      if (len >= 4 && strncmp(src, "null", 4) == 0) {  /* empty relation */
+        m = 4;
+        break;
+      }
       jsmn_init(&parser);
       r = jsmn_parse(&parser, src, len, tokens, MAX_RELATION_TOKENS);
       if ((r = jsmn_check_tokens(tokens, r)) < 0)
diff --git a/src/utils/jsmn.h b/src/utils/jsmn.h
index a3dbbab..a7ab476 100644
--- a/src/utils/jsmn.h
+++ b/src/utils/jsmn.h
@@ -407,6 +407,10 @@ JSMN_API int jsmn_parse(jsmn_parser *parser, const char *js, const size_t len,
     case '7':
     case '8':
     case '9':
+    /* non-finite numbers: NaN, Infinity and inf */
+    case 'N':
+    case 'I':
+    case 'i':
     case 't':
     case 'f':
     case 'n':
-- 
2.43.0


From 810fabf54a22784d227c1fbef15cf64847ec6382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 129/161] fix: JStore += and single-instance dictionaries of a
 store

'js += other' let Python free the store that js still refers to, and
get_dict(single=True) without id failed.
---
 bindings/python/dlite-jstore-python.i | 15 ++++++++-------
 bindings/python/dlite-jstore.i        |  5 ++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/bindings/python/dlite-jstore-python.i b/bindings/python/dlite-jstore-python.i
index a43d0af..cb6d349 100644
--- a/bindings/python/dlite-jstore-python.i
+++ b/bindings/python/dlite-jstore-python.i
@@ -55,10 +55,7 @@ def format_dict(
 
     if "properties" not in d:
         if single:
-            if len(d) != 1:
-                raise dlite.DLiteValueError(
-                    "Not possible to return single-instance format, use `id`"
-                )
+            (id, d), = d.items()
         else:
             for k, v in d.items():
                 vid  = v.get("uri", v.get("identity", k))
@@ -120,7 +117,7 @@ def format_dict(
                 for name, value in zip(meta.dimnames(), d["dimensions"]):
                     dct["dimensions"][name] = value
         else:
-            raise dlite.DLiteValueError(
+            raise _dlite.DLiteValueError(
                 "'dimensions' must be a mapping or sequence, got: "
                 f"{type(d['dimensions'])}"
             )
@@ -136,7 +133,7 @@ def format_dict(
                 dct["properties"].append(prop)
     elif isinstance(d["properties"], Sequence):
         if not ismeta:
-            raise dlite.DLiteValueError(
+            raise _dlite.DLiteValueError(
                 "only metadata can have a sequence of properties"
             )
         if soft7:
@@ -147,7 +144,7 @@ def format_dict(
         else:
             dct["properties"].extend(d["properties"])
     else:
-        raise dlite.DLiteValueError(
+        raise _dlite.DLiteValueError(
             "'properties' must be a mapping or sequence, got: "
             f"{type(d['properties'])}"
         )
@@ -189,6 +186,10 @@ class _JSONEncoder(json.JSONEncoder):
 
 %extend _JStore {
   %pythoncode %{
+      def __iadd__(self, other):
+          self._update(other)
+          return self
+
       def get(self, id=None):
           """Return instance with given `id` from store.
 
diff --git a/bindings/python/dlite-jstore.i b/bindings/python/dlite-jstore.i
index 7b775cd..96c9f94 100644
--- a/bindings/python/dlite-jstore.i
+++ b/bindings/python/dlite-jstore.i
@@ -115,10 +115,9 @@ struct _JStore {};
     return jstore_count($self) > 0;
   }
 
-  struct _JStore *__iadd__(struct _JStore *other) {
+  void _update(struct _JStore *other) {
     if (jstore_update($self, other))
-      return dlite_err(dliteTypeError, "Cannot update store"), NULL;
-    return $self;
+      dlite_err(dliteTypeError, "Cannot update store");
   }
 
 }
-- 
2.43.0


From ca59670f7b1b906767b72c38a6ade5017254cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:20 +0000
Subject: [PATCH 130/161] fix: from_dict() assigns id to dictionaries without
 identity

---
 bindings/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 0a9e986..bb024e5 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -183,7 +183,7 @@ def instance_from_dict(d, id=None, single=None, check_storages=True):
         )
 
     js = dlite.JStore()
-    js.load_dict(d)
+    js.load_dict(d, id=id if "properties" in d else None)
 
     if check_storages:
         if not id:
-- 
2.43.0


From b0ad6fae2ac815058167641b8e986cf8689ce30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:02 +0000
Subject: [PATCH 131/161] fix: Python iterators and relations keep what they
 refer to alive

Iterators over a collection or a JSON store accessed freed memory after
their collection or store was dropped, and so did the relation returned by
Collection.get_first_relation().
---
 bindings/python/dlite-collection-python.i | 3 ++-
 bindings/python/dlite-collection.i        | 6 +++++-
 bindings/python/dlite-jstore-python.i     | 6 ++++++
 bindings/python/dlite-jstore.i            | 5 ++---
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/bindings/python/dlite-collection-python.i b/bindings/python/dlite-collection-python.i
index 325b252..6680a3f 100644
--- a/bindings/python/dlite-collection-python.i
+++ b/bindings/python/dlite-collection-python.i
@@ -224,7 +224,8 @@ class Collection(Instance):
     def get_first_relation(self, s=None, p=None, o=None, d=None):
         """Returns the first relation matching `s`, `p` and `o`.
         None is returned if there are no matching relations."""
-        return _collection_find_first(self._coll, s, p, o, d)
+        rel = _collection_find_first(self._coll, s, p, o, d)
+        return rel.copy() if rel else None
 
     def get_instances(self, metaid=None, property_mappings=False,
                       allow_incomplete=False, ureg=None, function_repo=None,
diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 789a34d..c0a0910 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -11,8 +11,10 @@ struct _DLiteCollection *_get_collection(const char *id)
   struct _DLiteInstance *inst = dlite_instance_get(id);
   if (!inst) return dlite_err(dliteTypeError,
                               "no instance with this id: %s", id), NULL;
-  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0)
+  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0) {
+    dlite_instance_decref(inst);
     return dlite_err(1, "not a collection: %s", id), NULL;
+  }
   return (DLiteCollection *)inst;
 }
 
@@ -137,6 +139,7 @@ struct _DLiteCollection {
     struct _CollectionIter *iter = calloc(1, sizeof(struct _CollectionIter));
     DLiteCollection *coll = (DLiteCollection *)inst;
     iter->coll = coll;
+    dlite_instance_incref(inst);
     iter->s = (s) ? strdup(s) : NULL;
     iter->p = (p) ? strdup(p) : NULL;
     iter->o = (o) ? strdup(o) : NULL;
@@ -148,6 +151,7 @@ struct _DLiteCollection {
 
   ~_CollectionIter(void) {
     dlite_collection_deinit_state(&$self->state);
+    dlite_collection_decref($self->coll);
     if ($self->s) free($self->s);
     if ($self->p) free($self->p);
     if ($self->o) free($self->o);
diff --git a/bindings/python/dlite-jstore-python.i b/bindings/python/dlite-jstore-python.i
index cb6d349..aad57a1 100644
--- a/bindings/python/dlite-jstore-python.i
+++ b/bindings/python/dlite-jstore-python.i
@@ -199,6 +199,12 @@ class _JSONEncoder(json.JSONEncoder):
           inst = self._get(id=id)
           return instance_cast(inst)
 
+      def get_ids(self, pattern=None):
+          """Iterate over all id's matching pattern."""
+          iter = self._get_ids(pattern)
+          iter._store = self  # the iterator refers to the store
+          return iter
+
       def load_dict(self, d, id=None):
           """Load dict representation of instance to the store."""
           if "properties" not in d:
diff --git a/bindings/python/dlite-jstore.i b/bindings/python/dlite-jstore.i
index 96c9f94..1d2bcf4 100644
--- a/bindings/python/dlite-jstore.i
+++ b/bindings/python/dlite-jstore.i
@@ -101,9 +101,8 @@ struct _JStore {};
     return _single_id($self);
   }
 
-  %feature("docstring", "Iterate over all id's matching pattern.") get_ids;
-  %newobject get_ids;
-  struct _DLiteJStoreIter *get_ids(const char *pattern=NULL) {
+  %newobject _get_ids;
+  struct _DLiteJStoreIter *_get_ids(const char *pattern=NULL) {
     return dlite_jstore_iter_create($self, pattern);
   }
 
-- 
2.43.0


From ff6985bc8a2c6c6fb75e6290362e2c1d1ab31e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:36 +0000
Subject: [PATCH 132/161] fix: iterating over a storage no longer leaks the
 instances it loads

---
 bindings/python/dlite-storage-python.i | 19 +++++--------------
 bindings/python/dlite-storage.i        | 12 +-----------
 2 files changed, 6 insertions(+), 25 deletions(-)

diff --git a/bindings/python/dlite-storage-python.i b/bindings/python/dlite-storage-python.i
index 2acd8ac..0c36cca 100644
--- a/bindings/python/dlite-storage-python.i
+++ b/bindings/python/dlite-storage-python.i
@@ -89,17 +89,12 @@
           _dlite.StorageIterator_swiginit(
               self, _dlite.new_StorageIterator(s, pattern))
 
-          # Keep a reference to self, such that it is not garbage-collected
-          # before end of iterations
-          if not hasattr(_dlite, "_storage_iters"):
-              _dlite._storage_iters = {}
-          _dlite._storage_iters[id(self.state)] = self
+      def __iter__(self):
+          return self
 
       def __next__(self):
           inst = self.next()
           if not inst:
-              # Delete reference to iterator object stored away in __init__()
-              _dlite._storage_iters.pop(id(self.this), None)
               raise StopIteration()
           return instance_cast(inst)
   %}
@@ -112,17 +107,13 @@
           """Iterator over loaded storage plugins."""
           _dlite.StoragePluginIter_swiginit(
               self, _dlite.new_StoragePluginIter())
-          # Keep a reference to self, such that it is not garbage-collected
-          # before end of iterations
-          if not hasattr(_dlite, "_storage_iters"):
-              _dlite._storage_iters = {}
-          _dlite._storage_iters[id(self.iter)] = self
+
+      def __iter__(self):
+          return self
 
       def __next__(self):
           name = self.next()
           if not name:
-              # Delete reference to iterator object stored away in __init__()
-              _dlite._storage_iters.pop(id(self.this), None)
               raise StopIteration()
           return name
   %}
diff --git a/bindings/python/dlite-storage.i b/bindings/python/dlite-storage.i
index b6293d7..8f1a284 100644
--- a/bindings/python/dlite-storage.i
+++ b/bindings/python/dlite-storage.i
@@ -51,17 +51,10 @@ Returns next instance or None if exhausted.") next;
   struct _DLiteInstance *next(void) {
     char uuid[DLITE_UUID_LENGTH+1];
     if (dlite_storage_iter_next($self->s, $self->state, uuid) == 0) {
-      DLiteInstance *inst = dlite_instance_load($self->s, uuid);
-      // Why isn't the refcount already increased?
-      if (inst) dlite_instance_incref(inst);
-      return inst;
+      return dlite_instance_load($self->s, uuid);
     }
     return NULL;
   }
-
-  struct StorageIterator *__iter__(void) {
-    return $self;
-  }
 }
 
 
@@ -226,9 +219,6 @@ Iterates over loaded storage plugins.
     const DLiteStoragePlugin *api = dlite_storage_plugin_iter_next(iter);
     return (api) ? api->name : NULL;
   }
-  struct StoragePluginIter *__iter__(void) {
-    return $self;
-  }
 }
 
 
-- 
2.43.0


From 8c46723285bd39e1a5c672f96fb847c4850b9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:41 +0000
Subject: [PATCH 133/161] fix: iterating over a storage does not stop at
 instances without properties

---
 bindings/python/dlite-storage-python.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/dlite-storage-python.i b/bindings/python/dlite-storage-python.i
index 0c36cca..294e4c1 100644
--- a/bindings/python/dlite-storage-python.i
+++ b/bindings/python/dlite-storage-python.i
@@ -94,7 +94,7 @@
 
       def __next__(self):
           inst = self.next()
-          if not inst:
+          if inst is None:
               raise StopIteration()
           return instance_cast(inst)
   %}
-- 
2.43.0


From 626ec7bdfb834f8f59a70a5d24f78dcdbdd55409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 134/161] fix: adding None to a collection is an error

---
 src/dlite-collection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index e7c7de9..d8a3857 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -516,6 +516,9 @@ const DLiteRelation *dlite_collection_find_first(const DLiteCollection *coll,
 int dlite_collection_add_new(DLiteCollection *coll, const char *label,
                              DLiteInstance *inst)
 {
+  if (!inst)
+    return errx(dliteValueError, "cannot add NULL instance to collection");
+
   if (dlite_collection_find(coll, NULL, label, "_is-a", "Instance", NULL))
     return errx(dliteValueError,
                 "instance with label '%s' is already in the collection",
-- 
2.43.0


From dc43a30006a609fd8fa941e6559fad8da83bd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 135/161] fix: parse empty queries, empty tokens and keys
 without value

---
 bindings/python/options.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/python/options.py b/bindings/python/options.py
index 94089fb..bd74fb2 100644
--- a/bindings/python/options.py
+++ b/bindings/python/options.py
@@ -69,9 +69,13 @@ def parse_query(query):
     """Parse URL query string `query` and return a dict."""
     d = {}
     for token in re.split("[;&]", query):
+        if not token:
+            continue
         k, v = token.split("=", 1) if "=" in token else (token, None)
         key = dlite.uridecode(k)
-        if v.startswith("%%"):
+        if v is None:
+            val = None
+        elif v.startswith("%%"):
             val = json.loads(dlite.uridecode(v[2:]))
         else:
             val = dlite.uridecode(v)
-- 
2.43.0


From 242fb34e7bc466563b167a1ed0c9857ed459dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 136/161] fix: create_metadata() without description

---
 bindings/python/dlite-entity-python.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index 1c85189..175fec2 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -661,14 +661,14 @@ def get_instance(
         return instance_cast(inst)
 
     @classmethod
-    def create_metadata(cls, uri, dimensions, properties, description):
+    def create_metadata(cls, uri, dimensions, properties, description=None):
         """Create a new metadata entity (instance of entity schema) casted
         to an instance.
         """
         errclr()  # Clear internal error before calling Instance()
         inst = Instance(
             uri=uri, dimensions=dimensions, properties=properties,
-            description=description,
+            description=description if description is not None else "",
             dims=()  # arrays
         )
         return instance_cast(inst)
-- 
2.43.0


From 3fca580f4f5e2ef7d3dd91789d9903802725559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 137/161] fix: DMTable keeps the reference of ref properties

---
 bindings/python/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/table.py b/bindings/python/table.py
index 347b953..c10698c 100644
--- a/bindings/python/table.py
+++ b/bindings/python/table.py
@@ -147,6 +147,8 @@ class DMTable():
                                 )
                         else:
                             prop[k] = value
+                    elif k == "ref":
+                        prop["$ref"] = value
                     else:
                         prop[k] = value
 
-- 
2.43.0


From 27f05e58ccd06d51d06955d03e24f77c73431ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 138/161] fix: extend classes without dimensions and
 dlite_load()

---
 bindings/python/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/factory.py b/bindings/python/factory.py
index 4b368cb..603ceec 100644
--- a/bindings/python/factory.py
+++ b/bindings/python/factory.py
@@ -141,7 +141,7 @@ class BaseExtension(metaclass=MetaExtension):
                                 f"{dims[n]} but got {array.shape[i]} for property "
                                 f"{prop.name!r}"
                             )
-        if min(dims) < 0:
+        if any(dim < 0 for dim in dims):
             raise ValueError("Cannot infer all dimensions")
         return dims
 
@@ -178,7 +178,7 @@ class BaseExtension(metaclass=MetaExtension):
         """Loads dlite instance from storage and assign self from it.
         The arguments `args` are passed to dlite.Instance.from_storage()."""
         inst = Instance.from_storage(*args)
-        self._dlite_assign(inst)
+        self.dlite_assign(inst)
 
 
 def instancefactory(theclass: type, inst: Instance) -> "Any":
-- 
2.43.0


From af9667ee56e9267b653eb5d997757d0f287ab368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 139/161] fix: convert angles and percent when assigning
 quantities

---
 bindings/python/quantity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/quantity.py b/bindings/python/quantity.py
index fc9a4dc..513bb99 100644
--- a/bindings/python/quantity.py
+++ b/bindings/python/quantity.py
@@ -60,7 +60,10 @@ class QuantityHelper:
     def __setitem__(self, name: str, value: Any):
         p = self._get_property(name)
         q = self.parse(value)
-        self._instance[name] = q.m if q.units.dimensionless else q.to(p.unit).m
+        # Pure numbers are assumed to be in the unit of the property
+        self._instance[name] = (
+            q.m if not list(q.unit_items()) else q.to(self._get_unit_as_string(p.unit)).m
+        )
 
     def __getattr__(self, name: str):
         if name in self.__dict__:
-- 
2.43.0


From f2471cbb75b0237d6ddfb80f2917c276ef9bb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 140/161] fix: to_metadata() with None fields, shape and ref,
 and referred instances in 2D

---
 bindings/python/utils.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index bb024e5..5b7082e 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -219,13 +219,21 @@ def to_metadata(obj):
             raise NotImplementedError(
                 "only pydandic model instances can be converted to metadata"
             )
-        d = obj.dict()
+        d = obj.dict(by_alias=True)
     else:
         raise TypeError(
             "obj can be dict, json string, dataclasses instance "
             f"or pydantic instance.  Got {type(obj)}"
         )
-    return instance_from_dict(d)
+    return instance_from_dict(_without_none(d))
+
+
+def _without_none(d):
+    """Returns a copy of dict `d` without fields that are None."""
+    return {
+        k: _without_none(v) if isinstance(v, dict) else v
+        for k, v in d.items() if v is not None
+    }
 
 
 def get_dataclass_entity_schema():
@@ -429,7 +437,21 @@ def get_pydantic_entity_schema():
     if not HAVE_PYDANTIC:
         raise MissingDependencyError("pydantic")
 
+    # Fields can be populated both by their name and by their alias
+    class PropertyConfig:
+        pass
+
+    setattr(
+        PropertyConfig,
+        "populate_by_name" if hasattr(BaseModel, "model_validate")
+        else "allow_population_by_field_name",
+        True,
+    )
+
     class Property(BaseModel):
+        class Config(PropertyConfig):
+            pass
+
         type: str = Field(...)
         shape: Optional[Sequence[str]] = Field(None, alias="dims")
         ref: Optional[str] = Field(None, alias="$ref")
@@ -584,7 +606,7 @@ def _get_referred_instances(inst, include_meta, references):
         for prop in inst.meta.properties["properties"]:
             if prop.type == "ref":
                 if prop.ndims:
-                    for i in inst[prop.name]:
+                    for i in np.ravel(inst[prop.name]):
                         _get_referred_instances(
                             i, include_meta, references
                         )
-- 
2.43.0


From 683e6bdeb63f6c57cd9fc99cd17a2d3ebcc64fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 141/161] fix: scan arrays printed with quoted flag

---
 src/dlite-entity.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index da655bc..abd7fb8 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3528,7 +3528,8 @@ int dlite_property_scan(const char *src, void *ptr, const DLiteProperty *p,
     r = jsmn_parse_alloc(&parser, src, strlen(src), &tokens, &ntokens);
     if (r < 0) return err(dliteValueError, "error parsing input: %s", jsmn_strerror(r));
     t = tokens;
-    r = scandim(0, src, &q, p, shape, flags, &t);
+    /* JSON tokens do not include the quotes */
+    r = scandim(0, src, &q, p, shape, flags & ~dliteFlagQuoted, &t);
     n = tokens[0].end;
     free(tokens);
     if (r < 0) return r;
-- 
2.43.0


From 8137f63886c292d3b7485551326c94eb7204eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 142/161] fix: RDF with empty values, zero dimensions, base uri
 and arrays of strings

---
 bindings/python/rdf.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bindings/python/rdf.py b/bindings/python/rdf.py
index 2a6a65c..c0943d2 100644
--- a/bindings/python/rdf.py
+++ b/bindings/python/rdf.py
@@ -46,7 +46,7 @@ def _value(graph, subject=None, predicate=None, object=None, **kwargs):
     value = graph.value(
         subject=subject, predicate=predicate, object=object, **kwargs
     )
-    if not value:
+    if value is None:
         raise ValueError(
             f"missing value for subject={subject}, predicate={predicate}, "
             f"object={object}"
@@ -109,11 +109,13 @@ def to_graph(
             # Add type (PropertyInstance)?
             graph.add((prop, DM.instanceOf, URIRef(f"{inst.meta.uri}#{k}")))
             graph.add((prop, DM.hasLabel, Literal(k)))
+            p = inst.get_property_descr(k)
+            flags = 2 if p.ndims and p.type.startswith("string") else 1
             graph.add(
                 (
                     prop,
                     DM.hasValue,
-                    Literal(inst.get_property_as_string(k, flags=1)),
+                    Literal(inst.get_property_as_string(k, flags=flags)),
                 )
             )
     else:
@@ -246,7 +248,8 @@ def from_graph(graph, id=None):
         if v:
             rdfid = v
             uuid = id
-            dlite_id = rdfid
+            # The uri of the instance may be relative to a base uri
+            dlite_id = rdfid if dlite.get_uuid(rdfid) == id else id
             rdfid = URIRef(rdfid)
     if uuid:
         uuid = str(uuid)
@@ -312,7 +315,14 @@ def from_graph(graph, id=None):
         for prop in properties:
             label = _value(graph, prop, DM.hasLabel)
             value = _value(graph, prop, DM.hasValue)
-            inst.set_property_from_string(label, value, flags=1)
+            # Strings in arrays are quoted, all other values are raw
+            p = inst.get_property_descr(str(label))
+            quoted = (
+                p.ndims
+                and p.type.startswith("string")
+                and re.match(r"[\[\s]*(\"|null)", value)
+            )
+            inst.set_property_from_string(label, value, flags=2 if quoted else 1)
 
     return inst
 
-- 
2.43.0


From 1e235e735cd21d1de49cf9d9cb83061395437f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:14 +0000
Subject: [PATCH 143/161] fix: errors when leaving the with-statement of a
 storage are not raised

---
 bindings/python/dlite-storage-python.i | 7 ++++++-
 bindings/python/dlite-storage.i        | 7 +++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/bindings/python/dlite-storage-python.i b/bindings/python/dlite-storage-python.i
index 294e4c1..51d3a6a 100644
--- a/bindings/python/dlite-storage-python.i
+++ b/bindings/python/dlite-storage-python.i
@@ -18,7 +18,12 @@
           return self
 
       def __exit__(self, *exc):
-          del self.this
+          # Close explicitly, since errors cannot be raised from a destructor
+          self.thisown = False
+          try:
+              self._close()
+          finally:
+              del self.this
 
       def __repr__(self):
           return (
diff --git a/bindings/python/dlite-storage.i b/bindings/python/dlite-storage.i
index 8f1a284..6180b6d 100644
--- a/bindings/python/dlite-storage.i
+++ b/bindings/python/dlite-storage.i
@@ -112,6 +112,13 @@ struct _DLiteStorage {
     dlite_storage_close($self);
   }
 
+  %feature("docstring",
+           "Close storage.  The storage must not be used after this.") _close;
+  void _close(void) {
+    if (dlite_storage_close($self) && !dlite_errval())
+      dlite_err(dliteStorageSaveError, "cannot close storage");
+  }
+
   %feature("docstring", "Flush storage.") flush;
   void flush(void) {
     dlite_storage_flush($self);
-- 
2.43.0


From 355d2fd7e43c8dfe804abe746c35081f1abbc244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:14 +0000
Subject: [PATCH 144/161] fix: read-only Python storages accept delete, plugin
 objects without close() are never released

---
 storages/python/dlite-plugins-python.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/storages/python/dlite-plugins-python.c b/storages/python/dlite-plugins-python.c
index 7bb89ea..6a39083 100644
--- a/storages/python/dlite-plugins-python.c
+++ b/storages/python/dlite-plugins-python.c
@@ -136,8 +136,11 @@ int closer(DLiteStorage *s)
   if (!(classname = dlite_pyembed_classname(class)))
     dlite_warnx("cannot get class name for storage plugin '%s'", s->api->name);
 
-  /* Return if close() is not defined */
-  if (!PyObject_HasAttrString(sp->obj, "close")) return retval;
+  /* Call close() if it is defined */
+  if (!PyObject_HasAttrString(sp->obj, "close")) {
+    Py_DECREF(sp->obj);
+    return retval;
+  }
 
   v = PyObject_CallMethod(sp->obj, "close", "");
   if (dlite_pyembed_err_check("calling close() in Python plugin '%s'%s",
@@ -335,6 +338,9 @@ int deleter(DLiteStorage *s, const char *id)
   char uuid[DLITE_UUID_LENGTH+1];
   dlite_errclr();
   if (dlite_get_uuid(uuid, id) < 0) goto fail;
+  if (!(s->flags & dliteWritable))
+    FAILCODE1(dliteStorageSaveError, "storage \"%s\" is not writable",
+              s->location);
   if (!(classname = dlite_pyembed_classname(class)))
     dlite_warnx("cannot get class name for storage plugin '%s'", s->api->name);
   v = PyObject_CallMethod(sp->obj, "delete", "s", uuid);
-- 
2.43.0


From 398055ad4301e7e7a0c054639e48c5b26551b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:14 +0000
Subject: [PATCH 145/161] fix: yaml storage opened in write mode keeps old
 content if nothing is saved

---
 storages/python/python-storage-plugins/yaml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/storages/python/python-storage-plugins/yaml.py b/storages/python/python-storage-plugins/yaml.py
index b81e965..f929208 100644
--- a/storages/python/python-storage-plugins/yaml.py
+++ b/storages/python/python-storage-plugins/yaml.py
@@ -41,7 +41,9 @@ class yaml(dlite.DLiteStorageBase):
         self.writable = "w" in mode or "a" in mode
         self.generic = True
         self.location = location
-        self.flushed = True  # whether buffered data has been written to file
+        # Whether buffered data has been written to file.  Opening in write
+        # mode discards old content, also if nothing is saved.
+        self.flushed = "w" not in mode
         self._store = dlite.JStore()  # data buffer
         if "r" in mode or "a" in mode:
             with open(location, "r") as f:
-- 
2.43.0


From c6846283e7d15158521a7769d10e5e4fa1392f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:14 +0000
Subject: [PATCH 146/161] fix: bson storage: append to new or longer file,
 empty file, load by uri and pattern of metadata

---
 .../python/python-storage-plugins/bson.py     | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/storages/python/python-storage-plugins/bson.py b/storages/python/python-storage-plugins/bson.py
index e9a36fb..1464fbe 100644
--- a/storages/python/python-storage-plugins/bson.py
+++ b/storages/python/python-storage-plugins/bson.py
@@ -41,6 +41,8 @@ class bson(dlite.DLiteStorageBase):
         self.mode = dict(r="rb", w="wb", a="rb+", append="rb+")[
             self.options.mode
         ]
+        if self.mode == "rb+" and not os.path.exists(uri):
+            self.mode = "wb"  # create new file
         if self.mode == "rb" and not os.path.exists(uri):
             raise FileNotFoundError(f"Did not find URI {uri!r}")
 
@@ -55,8 +57,6 @@ class bson(dlite.DLiteStorageBase):
 
             if pybson.is_valid(bson_data):
                 self._data = pybson.decode(bson_data)
-                if not self._data:
-                    raise EOFError(f"Failed to read BSON data from {uri!r}")
             else:
                 raise EOFError(f"Invalid BSON data in source {uri!r}")
 
@@ -66,11 +66,6 @@ class bson(dlite.DLiteStorageBase):
         Assumes the data to store is in JSON format.
         """
         if self.writable:
-            if self.mode == "rb+" and not os.path.exists(self.uri):
-                mode = "wb"
-            else:
-                mode = self.mode
-
             for uuid in self.query():
                 props = self._data[uuid]["properties"]
                 if isinstance(props, dict):  # Metadata props is list
@@ -79,7 +74,7 @@ class bson(dlite.DLiteStorageBase):
                             props[key] = props[key].hex()
                     self._data[uuid]["properties"] = props
 
-            with open(self.uri, mode) as handle:
+            with open(self.uri, "wb") as handle:
                 handle.write(pybson.encode(self._data))
 
     def load(self, uuid: str) -> dlite.Instance:
@@ -92,8 +87,9 @@ class bson(dlite.DLiteStorageBase):
             A DLite Instance corresponding to the given UUID.
 
         """
-        if uuid in self._data:
-            return instance_from_dict(self._data[uuid])
+        for key in uuid, dlite.get_uuid(uuid):
+            if key in self._data:
+                return instance_from_dict(self._data[key])
         raise KeyError(f"Instance with ID '{uuid}' not found")
 
     def save(self, inst: dlite.Instance) -> None:
@@ -123,6 +119,8 @@ class bson(dlite.DLiteStorageBase):
 
         """
         for uuid, data in self._data.items():
-            if pattern and dlite.globmatch(pattern, data["meta"]):
+            if pattern and dlite.globmatch(pattern, data.get(
+                "meta", dlite.ENTITY_SCHEMA
+            )):
                 continue
             yield uuid
-- 
2.43.0


From 73bc61bd3a6b892b916a5b3d296d6429b3f790ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:14 +0000
Subject: [PATCH 147/161] fix: pyrdf storage: append to new file, overwriting
 instances, include_meta and to_bytes()

---
 bindings/python/rdf.py                        | 18 +++++++++++++
 .../python/python-storage-plugins/pyrdf.py    | 26 ++++++++++++-------
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/bindings/python/rdf.py b/bindings/python/rdf.py
index c0943d2..10de2e8 100644
--- a/bindings/python/rdf.py
+++ b/bindings/python/rdf.py
@@ -59,6 +59,21 @@ def _ref(value):
     return URIRef(value) if _is_valid_uri(value) else Literal(value)
 
 
+def _remove(graph, node):
+    """Remove the datamodel description of `node` from `graph`."""
+    for s, p, o in list(graph.triples((node, None, None))):
+        if p.startswith(DM):
+            graph.remove((s, p, o))
+            if p in (
+                DM.hasDimension,
+                DM.hasProperty,
+                DM.hasShape,
+                DM.hasFirst,
+                DM.hasNext,
+            ):
+                _remove(graph, o)
+
+
 def to_graph(
     inst, graph=None, base_uri="", base_prefix=None, include_meta=None
 ):
@@ -92,6 +107,9 @@ def to_graph(
     this = URIRef(_get_uri(inst, base_uri))
     sep = "/" if "#" in this else "#"
 
+    # Replace any old version of `inst`
+    _remove(graph, this)
+
     graph.add((this, DM.hasUUID, Literal(inst.uuid)))
     graph.add((this, DM.instanceOf, URIRef(inst.meta.uri)))
     if inst.is_data:
diff --git a/storages/python/python-storage-plugins/pyrdf.py b/storages/python/python-storage-plugins/pyrdf.py
index 1e0cfac..5295255 100644
--- a/storages/python/python-storage-plugins/pyrdf.py
+++ b/storages/python/python-storage-plugins/pyrdf.py
@@ -1,4 +1,5 @@
 """DLite Python storage plugin for RDF."""
+import os
 from typing import TYPE_CHECKING
 
 import rdflib
@@ -52,7 +53,9 @@ class pyrdf(dlite.DLiteStorageBase):
             else guess_format(location)
         )
         self.graph = rdflib.Graph()
-        if self.options.mode in "ra":
+        if self.options.mode == "r" or (
+            self.options.mode == "a" and os.path.exists(location)
+        ):
             self.graph.parse(location, format=self.format, publicID=PUBLIC_ID)
 
     def close(self) -> None:
@@ -81,10 +84,10 @@ class pyrdf(dlite.DLiteStorageBase):
         to_graph(
             inst,
             self.graph,
-            base_uri=self.options.get("base_uri"),
+            base_uri=self.options.get("base_uri", ""),
             base_prefix=self.options.get("base_prefix"),
             include_meta=(
-                dlite.asbool(self.options)
+                dlite.asbool(self.options.include_meta)
                 if "include_meta" in self.options
                 else None
             ),
@@ -124,21 +127,26 @@ class pyrdf(dlite.DLiteStorageBase):
             New instance.
         """
         opts = Options(options)
-        return from_rdf(data=buffer, id=id, format=opts.get("format"))
+        return from_rdf(
+            data=buffer, id=id, format=opts.get("format", "turtle")
+        )
 
     @classmethod
-    def to_bytes(cls, inst):
+    def to_bytes(cls, inst, options=None):
         """Save instance `inst` to bytes (or bytearray) object.
 
         Arguments:
             inst: Instance to save.
+            options: Options `format`, `base_uri` and `base_prefix` as
+                described for open().
 
         Returns:
             The bytes (or bytearray) object with serialised RDF.
         """
+        opts = Options(options)
         return to_rdf(
             inst,
-            format=self.options.get("format"),
-            base_uri=self.options.get("base_uri"),
-            base_prefix=self.options.get("base_prefix"),
-        )
+            format=opts.get("format", "turtle"),
+            base_uri=opts.get("base_uri", ""),
+            base_prefix=opts.get("base_prefix"),
+        ).encode()
-- 
2.43.0


From 48dee11da0981d97d218143ea8bb65593422e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:14 +0000
Subject: [PATCH 148/161] fix: glob patterns when iterating over json and hdf5
 storages

---
 src/dlite-json.c    | 24 ++++++++++++++++++------
 src/dlite-storage.c | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index d7175a2..e06f3d1 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -9,6 +9,7 @@
 
 #include "utils/err.h"
 #include "utils/compat.h"
+#include "utils/globmatch.h"
 #include "utils/strutils.h"
 
 #include "dlite.h"
@@ -1301,6 +1302,7 @@ const char *dlite_json_next(DLiteJsonIter *iter, int *length)
 struct _DLiteJStoreIter {
   JStoreIter jiter;                    /*!< jstore iterater */
   char metauuid[DLITE_UUID_LENGTH+1];  /*!< UUID of metadata */
+  char *pattern;                       /*!< glob pattern for metadata URI */
   jsmntok_t *tokens;                   /*!< pointer to allocated tokens */
   unsigned int ntokens;                /*!< number of allocated tokens */
 };
@@ -1445,7 +1447,7 @@ DLiteInstance *dlite_jstore_get(JStore *js, const char *id)
 /*
   Initiate iterator `init` from json store `js`.
   If `metaid` is provided, the iterator will only iterate over instances
-  of this metadata.
+  of this metadata.  It may also be a glob pattern matching metadata URIs.
 
   Returns a new iterator or NULL on error.
  */
@@ -1456,8 +1458,12 @@ DLiteJStoreIter *dlite_jstore_iter_create(JStore *js, const char *metaid)
     FAILCODE(dliteMemoryError, "allocation failure");
   if (jstore_iter_init(js, &iter->jiter)) goto fail;
   if (metaid && dlite_get_uuid(iter->metauuid, metaid) < 0) goto fail;
- fail:
+  if (metaid && !(iter->pattern = strdup(metaid)))
+    FAILCODE(dliteMemoryError, "Allocation failure");
   return iter;
+ fail:
+  if (iter) free(iter);
+  return NULL;
 }
 
 /*
@@ -1467,6 +1473,7 @@ int dlite_jstore_iter_free(DLiteJStoreIter *iter)
 {
   jstore_iter_deinit(&iter->jiter);
   if (iter->tokens) free(iter->tokens);
+  if (iter->pattern) free(iter->pattern);
   free(iter);
   return 0;
 }
@@ -1482,9 +1489,9 @@ const char *dlite_jstore_iter_next(DLiteJStoreIter *iter)
   jsmn_parser parser;
   while ((iid = jstore_iter_next(&iter->jiter))) {
     if (iter->metauuid[0]) {
-      char metauuid[DLITE_UUID_LENGTH+1];
+      char metauuid[DLITE_UUID_LENGTH+1], *metauri;
       const char *val = jstore_get(js, iid);
-      int r;
+      int r, match;
 
       jsmn_init(&parser);
       if ((r = jsmn_parse_alloc(&parser, val, strlen(val),
@@ -1495,12 +1502,17 @@ const char *dlite_jstore_iter_next(DLiteJStoreIter *iter)
           err(dliteParseError, "json parse error: \"%s\"", jsmn_strerror(r));
         continue;
       }
-      if (get_meta_uuid(metauuid, val, iter->tokens)) {
+      if (!(metauri = get_meta_uri(val, iter->tokens)) ||
+          dlite_get_uuid(metauuid, metauri) < 0) {
+        if (metauri) free(metauri);
         err(dliteMissingMetadataError,
             "json input has no meta uri: \"%s\"", val);
         continue;
       }
-      if (strcmp(metauuid, iter->metauuid)) continue;
+      match = strcmp(metauuid, iter->metauuid) == 0 ||
+        globmatch(iter->pattern, metauri) == 0;
+      free(metauri);
+      if (!match) continue;
     }
     return iid;
   }
diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index 17f4ab4..e4d453a 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -6,6 +6,7 @@
 #include "utils/compat.h"
 #include "utils/err.h"
 #include "utils/fileutils.h"
+#include "utils/globmatch.h"
 
 #include "config-paths.h"
 
@@ -325,9 +326,24 @@ char **dlite_storage_uuids(const DLiteStorage *s, const char *pattern)
       p = ptr;
       p[n] = NULL;
     }
-  } else if (s->api->getUUIDs)
+  } else if (s->api->getUUIDs) {
     p = s->api->getUUIDs(s);
-  else
+    if (p && pattern) {
+      /* keep only instances whos metadata URI matches `pattern` */
+      char **q, **dest=p;
+      for (q=p; *q; q++) {
+        DLiteDataModel *d = dlite_datamodel(s, *q);
+        char *uri = (d) ? dlite_datamodel_get_meta_uri(d) : NULL;
+        if (uri && globmatch(pattern, uri) == 0)
+          *(dest++) = *q;
+        else
+          free(*q);
+        if (uri) free(uri);
+        if (d) dlite_datamodel_free(d);
+      }
+      *dest = NULL;
+    }
+  } else
     errx(1, "driver '%s' does not support getUUIDs()", s->api->name);
   return p;
 }
-- 
2.43.0


From 1d076e3dfeb234509be113f976b6f6ba737cd424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:47 +0000
Subject: [PATCH 149/161] fix: errors in open() and to_bytes() of Python
 storage plugins are lost or leak the plugin object

---
 storages/python/dlite-plugins-python.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/storages/python/dlite-plugins-python.c b/storages/python/dlite-plugins-python.c
index 6a39083..333f6e1 100644
--- a/storages/python/dlite-plugins-python.c
+++ b/storages/python/dlite-plugins-python.c
@@ -70,7 +70,10 @@ opener(const DLiteStoragePlugin *api, const char *location,
     FAILCODE1(dliteStorageOpenError, "error instantiating Python plugin '%s'",
               classname);
 
-  v = PyObject_CallMethod(obj, "open", "ss", location, options);
+  /* Release `obj` on error before reporting the error, since the error may be
+     cleared when `obj` is released. */
+  if (!(v = PyObject_CallMethod(obj, "open", "ss", location, options)))
+    Py_CLEAR(obj);
   if (dlite_pyembed_err_check("calling open() in Python plugin '%s'%s",
                               classname, failmsg()))
     goto fail;
@@ -108,9 +111,9 @@ opener(const DLiteStoragePlugin *api, const char *location,
 
   retval = (DLiteStorage *)s;
  fail:
-  if (s && !retval) {
-    Py_XDECREF(s->obj);
-    free(s);
+  if (!retval) {
+    if (s) free(s);
+    Py_XDECREF(obj);
   }
   Py_XDECREF(v);
   Py_XDECREF(readable);
@@ -417,6 +420,10 @@ int memsaver(const DLiteStoragePlugin *api, unsigned char *buf, size_t size,
   else
     v = PyObject_CallMethod(class, "to_bytes", "O", pyinst);
 
+  /* Release `pyinst` before reporting errors, since errors may be cleared
+     when `pyinst` is released. */
+  Py_CLEAR(pyinst);
+
   if (dlite_pyembed_err_check("calling to_bytes() in Python plugin '%s'%s",
                               classname, failmsg()))
     goto fail;
-- 
2.43.0


From 7f0b6c21aa847f877990fc17594cb5639082c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 150/161] fix: archive_add() refers to undefined variable

---
 bindings/python/protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index c8dc071..a870c50 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -349,7 +349,8 @@ def archive_extract(data, name):
 def archive_add(data, name, content):
     """If `data` is an archieve, return a new bytes object with
     `content` added to `data` using the given name."""
-    with zipfile.ZipFile(file=archive_check(data), mode="a") as fzip:
+    buf = archive_check(data)
+    with zipfile.ZipFile(file=buf, mode="a") as fzip:
         with fzip.open(name, mode="w") as f:
             f.write(content.encode() if hasattr(content, "encode") else content)
     return buf.getvalue()
-- 
2.43.0


From 21ba8795ae5be284e4558f231e4836c77bb8ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 151/161] fix: unpacking archives with directory entries or
 entries outside the target path

---
 bindings/python/protocol.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index a870c50..fd6cf04 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -295,6 +295,13 @@ def save_path(data, path, overwrite=False, include=None, exclude=None):
                         or (excl and  excl.match(name))):
                         continue
                     filepath = p / name
+                    if not filepath.resolve().is_relative_to(p.resolve()):
+                        raise ValueError(
+                            f"archived file is outside target path: {name}"
+                        )
+                    if name.endswith("/"):
+                        filepath.mkdir(parents=True, exist_ok=True)
+                        continue
                     filepath.parent.mkdir(parents=True, exist_ok=True)
                     if filepath.exists():
                         if not overwrite:
@@ -302,7 +309,7 @@ def save_path(data, path, overwrite=False, include=None, exclude=None):
                         if not filepath.is_file():
                             raise OSError(
                                 "cannot write to existing non-file path: "
-                                f"{filename}"
+                                f"{filepath}"
                             )
                     fzip.extract(name, path=path)
         elif p.exists():
-- 
2.43.0


From e1f4dfd5469d9459907e37ee20d41311aca532fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 152/161] fix: load_path() and save_path() on sockets and
 load_path() on non-existing paths

---
 bindings/python/protocol.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index fd6cf04..9368cb8 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -9,6 +9,7 @@ import inspect
 import io
 import os
 import re
+import socket
 import traceback
 import warnings
 import zipfile
@@ -251,12 +252,16 @@ def load_path(
 
     if p.is_socket():
         buf = []
-        while True:
-            data = path.recv(1024)
-            if data:
-                buf.apend(data)
-            else:
-                return b"".join(buf)
+        with socket.socket(socket.AF_UNIX) as sock:
+            sock.connect(str(p))
+            while True:
+                data = sock.recv(1024)
+                if data:
+                    buf.append(data)
+                else:
+                    return b"".join(buf)
+
+    raise FileNotFoundError(f"no such file, directory or socket: {path}")
 
 
 def save_path(data, path, overwrite=False, include=None, exclude=None):
@@ -314,7 +319,9 @@ def save_path(data, path, overwrite=False, include=None, exclude=None):
                     fzip.extract(name, path=path)
         elif p.exists():
             if p.is_socket():
-                path.sendall(data)
+                with socket.socket(socket.AF_UNIX) as sock:
+                    sock.connect(str(p))
+                    sock.sendall(data)
             elif p.is_file():
                 if overwrite:
                     p.write_bytes(data)
-- 
2.43.0


From 489e609f8b0584c0592da4346012de5d63bc31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 153/161] fix: operations not supported by a protocol plugin
 are silently ignored

---
 bindings/python/protocol.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index 9368cb8..d2e9c0b 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -146,6 +146,10 @@ class Protocol():
             )
         if hasattr(self.conn, method):
             return call(getattr(self.conn, method), *args, **kwargs)
+        if method not in ("open", "close"):
+            raise dlite.DLiteUnsupportedError(
+                f"protocol plugin '{self.protocol}' does not support {method}()"
+            )
 
     def __enter__(self):
         return self
-- 
2.43.0


From 1e958bdf25c80e86b92e22dc9f5e4ad4ec27823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 154/161] fix: deleting a non-existing entry with the file
 protocol copies the directory into itself

---
 bindings/python/python-protocol-plugins/file.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/bindings/python/python-protocol-plugins/file.py b/bindings/python/python-protocol-plugins/file.py
index 49005d9..3393826 100644
--- a/bindings/python/python-protocol-plugins/file.py
+++ b/bindings/python/python-protocol-plugins/file.py
@@ -83,12 +83,6 @@ class file(dlite.DLiteProtocolBase):
         path = self.path/uuid
         if path.exists():
             path.unlink()
-        elif self.path.exists() and self.path.is_dir():
-            save_path(
-                data=load_path(self.path, exclude=uuid),
-                path=path,
-                overwrite=True,
-            )
         else:
             raise dlite.DLiteIOError(f"cannot delete {uuid} in: {self.path}")
 
-- 
2.43.0


From c2028b8f70b452758e4505de359610a85ba12ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 155/161] fix: loading an instance with given id from a file
 with the file protocol

---
 bindings/python/python-protocol-plugins/file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-protocol-plugins/file.py b/bindings/python/python-protocol-plugins/file.py
index 3393826..f99e198 100644
--- a/bindings/python/python-protocol-plugins/file.py
+++ b/bindings/python/python-protocol-plugins/file.py
@@ -54,9 +54,13 @@ class file(dlite.DLiteProtocolBase):
         """Return data loaded from file.
 
         If `location` is a directory, it is returned as a zip archive.
+        If `location` is a file, all of it is returned, also if `uuid`
+        is given.
         """
         self._required_mode("r", "load")
-        path = self.path/uuid if uuid else self.path
+        path = (
+            self.path/uuid if uuid and not self.path.is_file() else self.path
+        )
         return load_path(
             path=path,
             include=self.options.get("include"),
-- 
2.43.0


From 5e6bb59cc91a310243ade6ed70f7a568f65f5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 156/161] fix: yaml to_bytes() loses the identity of instances
 without uri

---
 storages/python/python-storage-plugins/yaml.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/storages/python/python-storage-plugins/yaml.py b/storages/python/python-storage-plugins/yaml.py
index f929208..0eb62e9 100644
--- a/storages/python/python-storage-plugins/yaml.py
+++ b/storages/python/python-storage-plugins/yaml.py
@@ -155,19 +155,21 @@ class yaml(dlite.DLiteStorageBase):
             inst: Instance to save.
             options: Supported options:
             - `soft7`: Whether to structure metadata as SOFT7.
-            - `with_uuid`: Whether to include UUID in the output.
+            - `with_uuid`: Whether to include UUID in the output.  The default
+              is to include it if the instance has no URI.
             - `single`: Whether to include UUID in the output.
 
         Returns:
             The bytes (or bytearray) object that the instance is saved to.
         """
-        opts = Options(
-            options, defaults="soft7=true;with_uuid=false;single=true"
-        )
+        opts = Options(options, defaults="soft7=true;single=true")
         return pyyaml.safe_dump(
             inst.asdict(
                 soft7=dlite.asbool(opts.soft7),
-                uuid=dlite.asbool(opts.with_uuid),
+                uuid=(
+                    dlite.asbool(opts.with_uuid) if "with_uuid" in opts
+                    else None
+                ),
                 single=dlite.asbool(opts.single),
             ),
             default_flow_style=False,
-- 
2.43.0


From f3219e439df45c24da21a0e9ba9e6dc7efca550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 157/161] fix: loading the only instance in a bson storage
 without giving its id

---
 storages/python/python-storage-plugins/bson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/storages/python/python-storage-plugins/bson.py b/storages/python/python-storage-plugins/bson.py
index 1464fbe..270ad33 100644
--- a/storages/python/python-storage-plugins/bson.py
+++ b/storages/python/python-storage-plugins/bson.py
@@ -87,6 +87,8 @@ class bson(dlite.DLiteStorageBase):
             A DLite Instance corresponding to the given UUID.
 
         """
+        if not uuid and len(self._data) == 1:
+            uuid, = self._data
         for key in uuid, dlite.get_uuid(uuid):
             if key in self._data:
                 return instance_from_dict(self._data[key])
-- 
2.43.0


From c6686b3d25433be35764a435416875cda84c9364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 158/161] fix: Instance.load() with drivers lacking
 from_bytes() and Instance.from_url() without fragment

---
 bindings/python/dlite-entity-python.i | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index 175fec2..5dd1b1e 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -503,7 +503,7 @@ def get_instance(
             return cls.from_bytes(
                 driver, buffer, id=id, options=options, metaid=metaid
             )
-        except _dlite.DLiteUnsupportedError:
+        except (_dlite.DLiteAttributeError, _dlite.DLiteUnsupportedError):
             pass
         tmpfile = None
         try:
@@ -551,8 +551,8 @@ def get_instance(
                 )
             location = f"{protocol}://{p.netloc}{p.path}"
             inst = cls.load(
-                protocol, driver, location, options=p.query, id=p.fragment,
-                metaid=metaid
+                protocol, driver, location, options=p.query,
+                id=p.fragment or None, metaid=metaid
             )
         else:
             errclr()  # Clear internal error before calling Instance()
-- 
2.43.0


From 9c15f89524394192917953bec7d08e0526722f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:04 +0000
Subject: [PATCH 159/161] fix: empty id passed on to storage plugins when
 loading an instance

---
 src/dlite-entity.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index abd7fb8..0a6dcc6 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -958,8 +958,11 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   if (!s) FAILCODE(dliteStorageLoadError,
                    "invalid storage, see previous errors");
 
+  /* an empty id is the same as no id */
+  if (id && !*id) id = NULL;
+
   /* check if id is already loaded */
-  if (lookup && id && *id && (inst = _instance_store_get(id))) {
+  if (lookup && id && (inst = _instance_store_get(id))) {
     dlite_instance_incref(inst);
     //warn("trying to load existing instance from storage \"%s\": %s"
     //     " - create a new reference", s->location, id);
-- 
2.43.0


From a2c1896fde6e3e546918cb367cc8d3f3e8606f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:41 +0000
Subject: [PATCH 160/161] fix: Python mapping plugins without cost leave a
 Python exception pending

---
 src/pyembed/dlite-python-mapping.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyembed/dlite-python-mapping.c b/src/pyembed/dlite-python-mapping.c
index 66be677..7a03c9a 100644
--- a/src/pyembed/dlite-python-mapping.c
+++ b/src/pyembed/dlite-python-mapping.c
@@ -393,7 +393,9 @@ const DLiteMappingPlugin *get_dlite_mapping_api(void *state, int *iter)
   if (!PyCallable_Check(map))
     FAIL1("attribute 'map' of '%s' is not callable", classname);
 
-  if ((pcost = PyObject_GetAttrString(cls, "cost")) && PyLong_Check(pcost))
+  if (!(pcost = PyObject_GetAttrString(cls, "cost")))
+    PyErr_Clear();  // cost is optional
+  else if (PyLong_Check(pcost))
     cost = PyLong_AsLong(pcost);
 
   if (!(api = calloc(1, sizeof(DLiteMappingPlugin))))
-- 
2.43.0


From 875d78dec46fe5c48b437b6e40387b0e727ffcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:41 +0000
Subject: [PATCH 161/161] fix: pending Python exceptions and leak after errors
 in Python mapping plugins

---
 src/pyembed/dlite-python-mapping.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyembed/dlite-python-mapping.c b/src/pyembed/dlite-python-mapping.c
index 7a03c9a..8296256 100644
--- a/src/pyembed/dlite-python-mapping.c
+++ b/src/pyembed/dlite-python-mapping.c
@@ -263,6 +263,7 @@ static DLiteInstance *mapper(const DLiteMappingPlugin *api,
 
  fail:
 
+  if (!inst) PyErr_Clear();
   Py_XDECREF(pyuuid);
   Py_XDECREF(outinst);
   Py_XDECREF(insts);
@@ -334,7 +335,7 @@ const void *dlite_python_mapping_get_api(const char *name)
 */
 const DLiteMappingPlugin *get_dlite_mapping_api(void *state, int *iter)
 {
-  int i, n, cost=25;
+  int i, n, ninput=0, cost=25;
   DLiteMappingPlugin *api=NULL, *retval=NULL;
   PyObject *mappings=NULL, *cls=NULL;
   PyObject *name=NULL, *out_uri=NULL, *in_uris=NULL, *map=NULL, *pcost=NULL;
@@ -385,6 +386,7 @@ const DLiteMappingPlugin *get_dlite_mapping_api(void *state, int *iter)
             i, classname);
     }
     input_uris[i] = strdup(PyUnicode_AsUTF8(in_uri));
+    ninput++;
     Py_DECREF(in_uri);
   }
 
@@ -424,8 +426,12 @@ const DLiteMappingPlugin *get_dlite_mapping_api(void *state, int *iter)
   if (!retval) {
     if (apiname) free(apiname);
     if (output_uri) free((char *)output_uri);
-    if (input_uris) free((char **)input_uris);
+    if (input_uris) {
+      for (i=0; i<ninput; i++) free((char *)input_uris[i]);
+      free((char **)input_uris);
+    }
     if (api) free(api);
+    PyErr_Clear();
   }
   return retval;
 }
-- 
2.43.0

