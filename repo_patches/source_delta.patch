From e0e894e8bcae173d659493d1b9e2b918fa2662ee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 01/68] fix: compare version numbers without overflowing the
 signed difference

---
 lib/util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 7a98834..2bd0cbd 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -91,9 +91,10 @@ dc_version_compare (struct disir_version *s1, struct disir_version *s2)
 
     res = 0;
 
-    res = s1->sv_major - s2->sv_major;
+    // Do not subtract; the unsigned difference does not fit the (signed) result.
+    res = (s1->sv_major > s2->sv_major) - (s1->sv_major < s2->sv_major);
     if (res == 0)
-        res = s1->sv_minor - s2->sv_minor;
+        res = (s1->sv_minor > s2->sv_minor) - (s1->sv_minor < s2->sv_minor);
 
     log_debug (8, "s1 (%u.%u) vs s2 (%u.%u) res (%d)",
                     s1->sv_major, s1->sv_minor,
-- 
2.43.0


From 18ea8a346e3c9d1b0f0e8f6ba310d9dd914f8ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:07 +0000
Subject: [PATCH 02/68] fix: refuse version numbers that do not fit the version
 structure

---
 lib/util.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index 2bd0cbd..f71e6a6 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -3,6 +3,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <limits.h>
+#include <stdint.h>
 
 // Public disir interface
 #include <disir/disir.h>
@@ -148,6 +149,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "missing period seperator after major");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "major out of range");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_major = parsed_integer;
 
     // Get minor version
@@ -159,6 +165,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "no int parsed");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT32_MAX)
+    {
+        log_debug (6, "minor out of range");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_minor = parsed_integer;
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From db037bdf07b22b101e26df129844e573e4f854f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 03/68] fix: set a string value without losing, leaking or
 aliasing the stored text

---
 lib/util.c | 45 ++++++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index f71e6a6..9524cb2 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -432,6 +432,8 @@ dx_value_get_float (struct disir_value *value, double *output_double)
 enum disir_status
 dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
 {
+    char *string;
+
     if (value == NULL)
     {
         log_debug (0, "invoked with NULL value pointer.");
@@ -446,40 +448,33 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     }
     if (input == NULL)
     {
-        if (value->dv_size > 0)
-        {
-            free (value->dv_string);
-        }
+        free (value->dv_string);
         value->dv_size = 0;
         value->dv_string = NULL;
         return DISIR_STATUS_OK;
     }
-
-    if (value->dv_string == NULL || value->dv_size - 1 < size)
+    if (size < 0)
     {
-        // Just free the existing memory. We allocate a larger one below
-        if (value->dv_size - 1 < size)
-        {
-            free (value->dv_string);
-            value->dv_string = NULL;
-        }
+        log_debug (0, "invoked with negative string size (%d)", size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
 
-        // Size of requested string + 1 for NULL terminator
-        value->dv_string = calloc (1, size + 1);
-        if (value->dv_string == NULL)
-        {
-            log_error ("failed to allocate sufficient memory for value string (%d)",
-                       size + 1);
-            return DISIR_STATUS_NO_MEMORY;
-        }
+    // Size of requested string + 1 for NULL terminator
+    // The existing string is kept until the new one is complete: the allocation
+    // may fail, and input may refer to (a part of) the existing string.
+    string = calloc (1, (size_t) size + 1);
+    if (string == NULL)
+    {
+        log_error ("failed to allocate sufficient memory for value string (%d)", size);
+        return DISIR_STATUS_NO_MEMORY;
     }
 
-    // Copy the incoming docstring to freely available space
-    memcpy (value->dv_string, input, size);
-    value->dv_size = size;
+    // Copy the incoming docstring. The allocation is already zero terminated.
+    memcpy (string, input, size);
 
-    // Terminate it with a zero terminator. Just to be safe.
-    value->dv_string[size] = '\0';
+    free (value->dv_string);
+    value->dv_string = string;
+    value->dv_size = size;
 
     log_debug (5, "stored string in disir_value (%p) of size (%d): %s\n",
                value, value->dv_size, value->dv_string);
-- 
2.43.0


From c6f17806c367acc7f79de25a1638432e26bfb7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 04/68] fix: release text when a value changes to a type with
 another representation

---
 lib/context.c       |  2 +-
 lib/context_value.c | 10 +++++-----
 lib/include/value.h |  6 ++++++
 lib/util.c          | 27 +++++++++++++++++++++++++++
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 4c0a95d..ad02698 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -932,7 +932,7 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
         context->cx_keyval->kv_mold_equiv = queried;
-        context->cx_keyval->kv_value.dv_type = queried->cx_keyval->kv_value.dv_type;
+        dx_value_set_type (&context->cx_keyval->kv_value, queried->cx_keyval->kv_value.dv_type);
     }
 
     dx_context_incref (queried);
diff --git a/lib/context_value.c b/lib/context_value.c
index f1d0cfa..c40f297 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -111,8 +111,8 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
         // (Makes a correction in the type previously sat wrongfully (on purpose) below.)
         if (context->cx_keyval->kv_mold_equiv)
         {
-            context->cx_keyval->kv_value.dv_type
-                = context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type;
+            dx_value_set_type (&context->cx_keyval->kv_value,
+                               context->cx_keyval->kv_mold_equiv->cx_keyval->kv_value.dv_type);
         }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
@@ -173,7 +173,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                 // context error message already set by set_name
                 status = DISIR_STATUS_INVALID_CONTEXT;
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_set_type (*storage, type);
             }
             // Use-case 3
             // set_name has been called and succeed, but wrong type assigned.
@@ -186,7 +186,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                                       dx_value_type_string (type),
                                       dx_value_type_string ((*storage)->dv_type));
                 // Set storage type to mirror input
-                (*storage)->dv_type = type;
+                dx_value_set_type (*storage, type);
             }
         }
         // Use-case 4
@@ -194,7 +194,7 @@ set_value_input_check (struct disir_context *context, enum disir_value_type type
                  context->CONTEXT_STATE_INVALID)
         {
             // Set storage type to mirror input
-            (*storage)->dv_type = type;
+            dx_value_set_type (*storage, type);
             status = DISIR_STATUS_INVALID_CONTEXT;
         }
         else if (context->CONTEXT_STATE_FINALIZED)
diff --git a/lib/include/value.h b/lib/include/value.h
index f107637..8d592be 100644
--- a/lib/include/value.h
+++ b/lib/include/value.h
@@ -74,6 +74,12 @@ int dx_value_compare (struct disir_value *v1, struct disir_value *v2);
 //! \return DISIR_STATUS_INVALID_ARGUMENT if types for source and destination differ.
 //! \return DISIR_STATUS_OK on success.
 //!
+//! \brief Change the type of value.
+//!
+//! Content stored under a type with another representation is released and cleared.
+//!
+void dx_value_set_type (struct disir_value *value, enum disir_value_type type);
+
 enum disir_status dx_value_copy (struct disir_value *destination, struct disir_value *source);
 
 
diff --git a/lib/util.c b/lib/util.c
index 9524cb2..38fead3 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -293,6 +293,33 @@ dx_value_copy (struct disir_value *destination, struct disir_value *source)
     return DISIR_STATUS_INTERNAL_ERROR;
 }
 
+//! INTERNAL API
+void
+dx_value_set_type (struct disir_value *value, enum disir_value_type type)
+{
+    int was_string;
+    int is_string;
+
+    was_string = (value->dv_type == DISIR_VALUE_TYPE_STRING ||
+                  value->dv_type == DISIR_VALUE_TYPE_ENUM);
+    is_string = (type == DISIR_VALUE_TYPE_STRING || type == DISIR_VALUE_TYPE_ENUM);
+
+    // The content of one type cannot be read as another: the string
+    // types own a pointer to allocated memory.
+    if (was_string != is_string)
+    {
+        if (was_string)
+        {
+            free (value->dv_string);
+        }
+        value->dv_integer = 0;
+        value->dv_string = NULL;
+        value->dv_size = 0;
+    }
+
+    value->dv_type = type;
+}
+
 // INTERNAL API
 enum disir_status
 dx_value_set_integer (struct disir_value *value, int64_t integer)
-- 
2.43.0


From dd0aa705d2d5e5deb0353dfde9d28ac7fbe28a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 05/68] fix: release the storage of empty names and values

---
 lib/context_default.c       | 2 +-
 lib/context_documentation.c | 3 +--
 lib/context_keyval.c        | 8 ++------
 lib/context_section.c       | 5 +----
 4 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index d7ae0a0..162936a 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -146,7 +146,7 @@ dx_default_destroy (struct disir_default **def)
     tmp = *def;
 
     if (tmp->de_value.dv_type == DISIR_VALUE_TYPE_STRING ||
-        tmp->de_value.dv_size > 0)
+        tmp->de_value.dv_type == DISIR_VALUE_TYPE_ENUM)
     {
         free (tmp->de_value.dv_string);
     }
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 8a26350..0c81c8f 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -392,8 +392,7 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     tmp = *documentation;
     queue = NULL;
 
-    if (tmp->dd_value.dv_size > 0)
-        free(tmp->dd_value.dv_string);
+    free (tmp->dd_value.dv_string);
 
     context = (*documentation)->dd_context;
     if (context && context->cx_parent_context)
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index fbc7240..698463b 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -386,15 +386,11 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     }
 
     // Free allocated name
-    if ((*keyval)->kv_name.dv_size != 0)
-    {
-        free ((*keyval)->kv_name.dv_string);
-    }
+    free ((*keyval)->kv_name.dv_string);
 
     // Free allocated value, if string or enum
-    if (((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
+    if ((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
         || (*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_ENUM)
-           && (*keyval)->kv_value.dv_size != 0)
     {
         free ((*keyval)->kv_value.dv_string);
     }
diff --git a/lib/context_section.c b/lib/context_section.c
index a0de3b5..80b686c 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -189,10 +189,7 @@ dx_section_destroy (struct disir_section **section)
     }
 
     // Free allocated name
-    if ((*section)->se_name.dv_size != 0)
-    {
-        free ((*section)->se_name.dv_string);
-    }
+    free ((*section)->se_name.dv_string);
 
     // Decref mold_equiv if set
     if ((*section)->se_mold_equiv)
-- 
2.43.0


From ef1abeef1f2b2785f8ef5695296db3048dc959d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:08 +0000
Subject: [PATCH 06/68] fix: keep stringified text inside a too small output
 buffer

---
 lib/util.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 38fead3..e563f64 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -183,6 +183,7 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
     enum disir_status status;
     int32_t size;
 
+    size = 0;
     status = DISIR_STATUS_OK;
     switch (value->dv_type)
     {
@@ -201,8 +202,14 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
             log_debug (3, "Insufficient buffer provided - decrementing output size by one");
         }
 
-        memcpy (output, value->dv_string, copy_size);
-        output[size] = '\0';
+        if (copy_size > 0)
+        {
+            memcpy (output, value->dv_string, copy_size);
+        }
+        if (copy_size >= 0)
+        {
+            output[copy_size] = '\0';
+        }
         break;
     }
     case DISIR_VALUE_TYPE_INTEGER:
-- 
2.43.0


From a3b383db3d275b658607206d12eead00c6fc41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 07/68] fix: compare values without truncating the difference
 to int

---
 lib/util.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index e563f64..c187a4a 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -250,20 +250,19 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
         return (INT_MIN);
 
     if (v1->dv_size != v2->dv_size)
-        return (v1->dv_size - v2->dv_size);
+        return (v1->dv_size > v2->dv_size) - (v1->dv_size < v2->dv_size);
 
-    // FIXME: There is probably some parts of this
-    //  compare that is sustainable to underflow/overflow..
+    // Do not return the difference; it does not fit the result.
     switch (dx_value_type_sanify (v1->dv_type))
     {
     case DISIR_VALUE_TYPE_ENUM:
         // FALL-THROUGH
     case DISIR_VALUE_TYPE_STRING:
-        return memcmp (v1->dv_string, v2->dv_string, v1->dv_size);
+        return (v1->dv_size == 0 ? 0 : memcmp (v1->dv_string, v2->dv_string, v1->dv_size));
     case DISIR_VALUE_TYPE_INTEGER:
-        return (v1->dv_integer - v2->dv_integer);
+        return (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer);
     case DISIR_VALUE_TYPE_FLOAT:
-        return (int)(v1->dv_float - v2->dv_float);
+        return (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
     default:
-- 
2.43.0


From 5f0ee1a5388f5d8f3bf2fe0349b94aac704e407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 08/68] fix: set enum values and refuse NULL input in
 dc_set_value instead of crashing

---
 lib/context_value.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index c40f297..07981e3 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -247,6 +247,13 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
         goto error;
     }
 
+    if (value == NULL)
+    {
+        dx_context_error_set (context, "Cannot set value from NULL input.");
+        status = DISIR_STATUS_INVALID_ARGUMENT;
+        goto error;
+    }
+
     switch (dc_value_type (context))
     {
     case DISIR_VALUE_TYPE_STRING:
@@ -315,8 +322,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_ENUM:
     {
-        // TODO: Implement dc_set_value enum
-        dx_crash_and_burn ("dc_set_value ENUM NOT HANDLED!");
+        status = dc_set_value_enum (context, value, value_size);
         break;
     }
     case DISIR_VALUE_TYPE_UNKNOWN:
-- 
2.43.0


From 838fedf84276e4aa4bf03f8066b6d5f17c8ea7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 09/68] fix: unhook a destroyed default from its living keyval
 instead of from a dead one

---
 lib/context_default.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index 162936a..0ef5eaf 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -155,7 +155,7 @@ dx_default_destroy (struct disir_default **def)
     if (context && context->cx_parent_context)
     {
         // Don't access parent context type if context is destoyed
-        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED != 0)
+        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
         {
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
-- 
2.43.0


From 8d45171b177f3941182d2f922521af702ac59d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 10/68] fix: report a missing default or mold in dc_get_default
 instead of crashing

---
 lib/context_default.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/context_default.c b/lib/context_default.c
index 0ef5eaf..cd98585 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -543,7 +543,18 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
             return DISIR_STATUS_INTERNAL_ERROR;
         }
 
+        if (keyval == NULL)
+        {
+            dx_log_context (context, "cannot get default of KEYVAL missing mold equivalent.");
+            return DISIR_STATUS_MOLD_MISSING;
+        }
+
         dx_default_get_active (keyval, version, &def);
+        if (def == NULL)
+        {
+            dx_log_context (context, "KEYVAL has no default entry.");
+            return DISIR_STATUS_DEFAULT_MISSING;
+        }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
     {
-- 
2.43.0


From 369bbc53cae39b6d7b42199300086a7e03c666ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 11/68] fix: refuse a NULL collection in
 dc_get_default_contexts as documented

---
 lib/context_default.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/context_default.c b/lib/context_default.c
index cd98585..6bba366 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -584,6 +584,11 @@ dc_get_default_contexts (struct disir_context *context, struct disir_collection
         // Already logged
         return status;
     }
+    if (collection == NULL)
+    {
+        log_debug (0, "invoked with NULL collection pointer.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From 62543aa8d84104a8f23afd42986df6c57974ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 12/68] fix: move a collection's iterator back by every dropped
 entry it has passed

---
 lib/collection.c | 55 +++++++++++-------------------------------------
 1 file changed, 12 insertions(+), 43 deletions(-)

diff --git a/lib/collection.c b/lib/collection.c
index e1fd8a4..bd151d3 100644
--- a/lib/collection.c
+++ b/lib/collection.c
@@ -126,8 +126,7 @@ dx_collection_coalesce (struct disir_collection *collection)
 {
     struct disir_context *context;
     int32_t index;
-    int32_t probe;
-    int32_t invalid_entries_count;
+    int32_t kept;
     int32_t iterator_moveback;
 
     if (collection == NULL)
@@ -136,59 +135,29 @@ dx_collection_coalesce (struct disir_collection *collection)
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-    context = NULL;
-    index = 0;
-    probe = 1;
-    invalid_entries_count = 0;
+    kept = 0;
     iterator_moveback = 0;
-    while (index < collection->cc_numentries)
+    for (index = 0; index < collection->cc_numentries; index++)
     {
         context = collection->cc_collection[index];
-        index++;
+        collection->cc_collection[index] = NULL;
 
         if (context == NULL || context->CONTEXT_STATE_DESTROYED)
         {
+            // Every dropped entry the iterator has passed moves it back one position.
+            if (index < collection->cc_iterator_index)
+                iterator_moveback += 1;
             if (context != NULL)
-            {
                 dx_context_decref (&context);
-                invalid_entries_count += 1;
-                context = collection->cc_collection[index - 1] = NULL;
-            }
-
-            if (probe < index)
-                probe = index;
-
-            // Find next non-valid entry in the collection, move it here.
-            while (probe < collection->cc_numentries)
-            {
-                if (collection->cc_collection[probe]->CONTEXT_STATE_DESTROYED == 0)
-                {
-                    context = collection->cc_collection[probe];
-                    collection->cc_collection[probe] = NULL;
-                    collection->cc_collection[index -1] = context;
-
-                    // Move iterator index if its affected.
-                    if (probe >= collection->cc_iterator_index &&
-                        (index -1) < collection->cc_iterator_index)
-                    {
-                        iterator_moveback  += 1;
-                    }
-                }
-
-                probe++;
-
-                if (context != NULL)
-                    break;
-            }
+            continue;
         }
-    }
 
-    collection->cc_numentries -= invalid_entries_count;
+        collection->cc_collection[kept] = context;
+        kept++;
+    }
 
-    // Take care of the iterator count post-iterate
+    collection->cc_numentries = kept;
     collection->cc_iterator_index -= iterator_moveback;
-    if (collection->cc_iterator_index < 0)
-        collection->cc_iterator_index = 0;
 
     return DISIR_STATUS_OK;
 }
-- 
2.43.0


From 123e326f137afd36630a4ec611d67f7ad203641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 13/68] fix: keep the previous error message when memory runs
 out and record the size of the current one

---
 lib/log.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/log.c b/lib/log.c
index 9db4576..a2f3f1f 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -214,6 +214,7 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
     int message_size;
     int res;
     char dummy[4];
+    char *resized;
     va_list args_copy;
 
     // Make two instances of variadic arguments list
@@ -236,14 +237,15 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
     // Allocate sufficiently large buffer, write message
     if (*error_message_size < message_size + 1)
     {
-        *error_message = realloc (*error_message, message_size + 1);
-        if (*error_message == NULL)
+        resized = realloc (*error_message, message_size + 1);
+        if (resized == NULL)
         {
-            // What should we do!? Throw a tantrum!?
+            // Keep the previous message intact.
             return;
         }
-        *error_message_size = message_size + 1;
+        *error_message = resized;
     }
+    *error_message_size = message_size + 1;
 
     res = vsnprintf (*error_message, message_size + 1, fmt_message, args);
 
-- 
2.43.0


From 5ded7efad17d69b590358bb3bb297138c094023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 14/68] fix: fill the buffer of disir_error_copy up to its size
 and report the message size

---
 lib/error.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/error.c b/lib/error.c
index 62e59e0..41ab8bb 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -75,7 +75,12 @@ disir_error_copy (struct disir_instance *instance,
         return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    size = instance->disir_error_message_size;
+    // The recorded size includes the NUL terminator
+    size = 0;
+    if (instance->disir_error_message != NULL)
+    {
+        size = instance->disir_error_message_size - 1;
+    }
     if (bytes_written)
     {
         // Write the total size of the error message
@@ -85,11 +90,14 @@ disir_error_copy (struct disir_instance *instance,
     }
     if (buffer_size <= size)
     {
-        size -= 4;
+        size = buffer_size - 4;
         status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-    memcpy (buffer, instance->disir_error_message, size);
+    if (size > 0)
+    {
+        memcpy (buffer, instance->disir_error_message, size);
+    }
     if (status == DISIR_STATUS_INSUFFICIENT_RESOURCES)
     {
         sprintf (buffer + size, "...");
-- 
2.43.0


From d1d2fb0ae678471c0d528c9317f3d70b245f451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 15/68] fix: take the newest entry restriction that is active
 at the version

---
 lib/context_restriction.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b5e6680..8cabb11 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1264,9 +1264,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_restriction **q;
     int min = -1;
     int max = -1;
-    int min_closes_match = INT_MIN;
-    int max_closes_match = INT_MIN;
-    int diff;
+    struct disir_version *min_closest = NULL;
+    struct disir_version *max_closest = NULL;
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
@@ -1358,24 +1357,24 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN ||
             entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX)
         {
-            // XXX: This is severely flawed - the diff does not indicate
-            // how great of a version difference
-            diff = dc_version_compare  (&entry->re_introduced, version);
             // entry is newer than target version
-            if (diff > 0)
+            if (dc_version_compare (&entry->re_introduced, version) > 0)
             {
                 entry = entry->next;
                 continue;
             }
 
-            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN && diff > min_closes_match)
+            // The newest entry not newer than the target version is the active one.
+            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN &&
+                (min_closest == NULL || dc_version_compare (&entry->re_introduced, min_closest) > 0))
             {
-                min_closes_match = diff;
+                min_closest = &entry->re_introduced;
                 min = entry->re_value_min;
             }
-            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX && diff > max_closes_match)
+            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX &&
+                (max_closest == NULL || dc_version_compare (&entry->re_introduced, max_closest) > 0))
             {
-                max_closes_match = diff;
+                max_closest = &entry->re_introduced;
                 max = entry->re_value_max;
             }
         }
-- 
2.43.0


From c5800a3d812e624677653250795a59a57eaf29ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 16/68] fix: limit an optional element without a maximum to one
 entry as documented

---
 lib/context_restriction.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 8cabb11..c5235fe 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1383,14 +1383,14 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     // Set max.
     // Maximum default is 1.
     // if minimum is set, and the active maximum is lower, it will equal the minimum.
-    if (max != 0 && max < min)
-    {
-        max = min;
-    }
     if (max == -1)
     {
         max = 1;
     }
+    if (max != 0 && max < min)
+    {
+        max = min;
+    }
 
     // Mimimum entries is 1.
     if (min == -1)
-- 
2.43.0


From 7c9769c6e7fe3b76fdfedb51dae5158ba904582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 17/68] fix: report missing arguments and mold entries in
 restriction queries instead of crashing

---
 lib/context_restriction.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index c5235fe..e1e3e6d 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1269,6 +1269,14 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+        return status;
+    if (output == NULL)
+    {
+        log_debug (0, "invoked with output NULL pointer.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
         return status;
@@ -1283,6 +1291,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_section->se_mold_equiv == NULL)
+                return DISIR_STATUS_MOLD_MISSING;
             q = &context->cx_section->se_mold_equiv->cx_section->se_restrictions_queue;
             element_introduced = &context->cx_section->se_mold_equiv->cx_section->se_introduced;
             element_deprecated = &context->cx_section->se_mold_equiv->cx_section->se_deprecated;
@@ -1300,6 +1310,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         struct disir_keyval *keyval_mold;
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_keyval->kv_mold_equiv == NULL)
+                return DISIR_STATUS_MOLD_MISSING;
             q = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
             keyval_mold = context->cx_keyval->kv_mold_equiv->cx_keyval;
         }
@@ -1479,6 +1491,8 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_section->se_mold_equiv == NULL)
+                return DISIR_STATUS_MOLD_MISSING;
             rcol = &context->cx_section->se_mold_equiv->cx_section->se_restrictions_queue;
         }
         else
@@ -1491,6 +1505,8 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_keyval->kv_mold_equiv == NULL)
+                return DISIR_STATUS_MOLD_MISSING;
             rcol = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
         }
         else
-- 
2.43.0


From 67030f2b7f7b7701f8297de574725056a64902e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 18/68] fix: return when an enum restriction cannot be begun
 instead of using the missing context

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index e1e3e6d..7c6d56b 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -874,7 +874,7 @@ dc_add_restriction_value_enum (struct disir_context *parent, const char *value,
     if (status != DISIR_STATUS_OK)
     {
         // Already logged ?
-        goto error;
+        return status;
     }
 
     status = dc_set_restriction_type (context_restriction, DISIR_RESTRICTION_EXC_VALUE_ENUM);
-- 
2.43.0


From bcbd504ddc8da04990d97e33ddbf0ac21b70fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 19/68] fix: refuse restriction types that do not exist

---
 lib/context_restriction.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 7c6d56b..f5d9096 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -407,6 +407,7 @@ dc_set_restriction_type (struct disir_context *context, enum disir_restriction_t
             break;
         }
         case DISIR_RESTRICTION_UNKNOWN:
+        default:
             return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From f55b227c449913332bbb77adbdcbf99fa7952b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 20/68] fix: stay inside the table of restriction names and
 accept no NULL name

---
 lib/context_restriction.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index f5d9096..3261898 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -37,6 +37,11 @@ const char *disir_restriction_strings[] = {
 const char *
 dc_restriction_enum_string (enum disir_restriction_type restriction)
 {
+    if (restriction > DISIR_RESTRICTION_UNKNOWN)
+    {
+        restriction = DISIR_RESTRICTION_UNKNOWN;
+    }
+
     return disir_restriction_strings[restriction];
 }
 
@@ -78,6 +83,11 @@ dc_restriction_string_to_enum (const char *string)
 {
     int i;
 
+    if (string == NULL)
+    {
+        return DISIR_RESTRICTION_UNKNOWN;
+    }
+
     for (i = 1; i < DISIR_RESTRICTION_UNKNOWN; i++)
     {
         if (strcmp (string, disir_restriction_strings[i]) == 0)
-- 
2.43.0


From 71097c655d2e80406d5e0d6ca72e6cba5a14d345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 21/68] fix: check enum restrictions of keyvals and
 restrictions without text instead of crashing

---
 lib/context_restriction.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 3261898..ef08c85 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1189,7 +1189,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
 
             allowed_written += snprintf (allowed_values + allowed_written,
                                          RESTRICTION_ENTRIES_BUFFER_SIZE - allowed_written,
-                                         "'%s', ", entry->re_value_string);
+                                         "'%s', ", entry->re_value_string ?
+                                                   entry->re_value_string : "");
             if (allowed_written >= RESTRICTION_ENTRIES_BUFFER_SIZE)
             {
                 // Set the written property to the size of the buffer, dis-allowing any
@@ -1197,7 +1198,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
                 allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
             }
 
-            if (strcmp (string_value, entry->re_value_string) == 0)
+            if (string_value != NULL && entry->re_value_string != NULL &&
+                strcmp (string_value, entry->re_value_string) == 0)
             {
                 // QUESTION: Check length aswell ?
                 log_debug (6, "Exclusive_restriction fulfilled (Value (%s) == %s)",
@@ -1240,7 +1242,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
             break;
         case DISIR_VALUE_TYPE_ENUM:
             dx_context_error_set (context, "No exclusive restrictions fulfilled for value %s." \
-                                  " Must be one of: %s", string_value, allowed_values);
+                                  " Must be one of: %s", string_value ? string_value : "",
+                                  allowed_values);
             break;
         default:
             // Do not handle
-- 
2.43.0


From b46f6b9510e53fb1846f80105c5e73ea2525f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 22/68] fix: copy the text of an enum restriction before
 releasing the former one

---
 lib/context_restriction.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index ef08c85..41640e6 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -474,6 +474,7 @@ enum disir_status
 dc_restriction_set_string (struct disir_context *context, const char *value)
 {
     enum disir_status status;
+    char *string;
 
     status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
     if (status != DISIR_STATUS_OK)
@@ -497,11 +498,14 @@ dc_restriction_set_string (struct disir_context *context, const char *value)
     {
     case DISIR_RESTRICTION_EXC_VALUE_ENUM:
     {
-        if (context->cx_restriction->re_value_string)
+        // The value may be the one already stored.
+        string = strdup (value);
+        if (string == NULL)
         {
-            free (context->cx_restriction->re_value_string);
+            return DISIR_STATUS_NO_MEMORY;
         }
-        context->cx_restriction->re_value_string = strdup (value);
+        free (context->cx_restriction->re_value_string);
+        context->cx_restriction->re_value_string = string;
         break;
     }
     default:
-- 
2.43.0


From 9919871bef5040f64a9eec1bf3b4c6f602bf663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 23/68] fix: keep restriction limits outside the integer range
 instead of turning them around

---
 lib/context_restriction.c | 44 +++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 41640e6..4545ac0 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -33,6 +33,33 @@ const char *disir_restriction_strings[] = {
 };
 
 
+//! STATIC API
+//! Drop the fraction of a restriction value on an integer keyval. Values from 2^53 on have none,
+//! and may be outside the range of int64_t (INT64_MAX itself is rounded up to 2^63 as a double).
+static double
+integer_part (double value)
+{
+    if (value > -9007199254740992.0 && value < 9007199254740992.0)
+    {
+        return (double) (int64_t) value;
+    }
+
+    return value;
+}
+
+//! STATIC API
+//! Number of entries, limited to the range of int.
+static int
+entries_limit (double value)
+{
+    if (value > INT_MIN && value < INT_MAX)
+    {
+        return (int) value;
+    }
+
+    return (value > 0 ? INT_MAX : INT_MIN);
+}
+
 //! PUBLIC API
 const char *
 dc_restriction_enum_string (enum disir_restriction_type restriction)
@@ -544,8 +571,8 @@ dc_restriction_set_range (struct disir_context *context, double min, double max)
         // Store restriction value based on keyval type (integer vs float)
         if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
         {
-            context->cx_restriction->re_value_min = (int64_t) min;
-            context->cx_restriction->re_value_max = (int64_t) max;
+            context->cx_restriction->re_value_min = integer_part (min);
+            context->cx_restriction->re_value_max = integer_part (max);
         }
         else
         {
@@ -633,7 +660,7 @@ dc_restriction_set_numeric (struct disir_context *context, double value)
     // XXX if set_numeric is used by entries_max/min, this doesnt make much sense....
     if (dc_value_type (context->cx_parent_context) == DISIR_VALUE_TYPE_INTEGER)
     {
-        value = (int64_t) value;
+        value = integer_part (value);
     }
 
     switch (context->cx_restriction->re_type)
@@ -1127,9 +1154,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
             {
                 allowed_written += snprintf (allowed_values + allowed_written,
                                              RESTRICTION_ENTRIES_BUFFER_SIZE - allowed_written,
-                                             "[%lld, %lld], ",
-                                             (long long int)entry->re_value_min,
-                                             (long long int)entry->re_value_max);
+                                             "[%.0f, %.0f], ",
+                                             entry->re_value_min, entry->re_value_max);
             }
             else if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
             {
@@ -1162,7 +1188,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
             {
                 allowed_written += snprintf (allowed_values + allowed_written,
                                              RESTRICTION_ENTRIES_BUFFER_SIZE - allowed_written,
-                                             "%lld, ", (long long int)entry->re_value_numeric);
+                                             "%.0f, ", entry->re_value_numeric);
             }
             else if (dc_value_type (context) == DISIR_VALUE_TYPE_FLOAT)
             {
@@ -1399,13 +1425,13 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
                 (min_closest == NULL || dc_version_compare (&entry->re_introduced, min_closest) > 0))
             {
                 min_closest = &entry->re_introduced;
-                min = entry->re_value_min;
+                min = entries_limit (entry->re_value_min);
             }
             else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX &&
                 (max_closest == NULL || dc_version_compare (&entry->re_introduced, max_closest) > 0))
             {
                 max_closest = &entry->re_introduced;
-                max = entry->re_value_max;
+                max = entries_limit (entry->re_value_max);
             }
         }
     });
-- 
2.43.0


From 0b2bf277eb138e99d09be9aecd22524fe5ca240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 24/68] fix: name the version of the config, not memory of the
 section, in the message on an invalid element

---
 lib/validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index 2ab0082..81af1e8 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -142,7 +142,7 @@ validate_inclusive_restrictions (struct disir_context *context)
             dx_log_context (context,
                             "%s is not a valid element for version %s",
                             name, dc_version_string(buffer, 50,
-                                                    &(context)->cx_config->cf_version));
+                                                    target_version));
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
         if (size > max && max > 0)
-- 
2.43.0


From b1299517513ae2c076a130c23f450ec098c08ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 25/68] fix: refuse a restriction without type on a finalized
 parent instead of aborting

---
 lib/validate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index 81af1e8..c0a985d 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -478,7 +478,8 @@ validate_restriction (struct disir_context *context)
     if (dx_restriction_type_sanify (res->re_type) == DISIR_RESTRICTION_UNKNOWN)
     {
        dx_log_context (context, "Missing type component for restriction.");
-       return DISIR_STATUS_INVALID_CONTEXT;
+       // Reported as INVALID_CONTEXT when the parent is under construction.
+       return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
     // Validate that the restriction context got a valid type set (belongs to a group)
-- 
2.43.0


From f4545b4e7e8669252c3604bea4571ab93c950fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 26/68] fix: check the restrictions of an enum on the bytes
 that are stored

---
 lib/context_value.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 07981e3..b8b5bd4 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -811,6 +811,7 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
     enum disir_status status;
     enum disir_status invalid;
     struct disir_value *value_storage;
+    char *text;
 
     TRACE_ENTER ("context: %p, value: %s, value_size: %d", context, value, value_size);
 
@@ -824,7 +825,19 @@ dc_set_value_enum (struct disir_context *context, const char *value, int32_t val
 
     if (invalid != DISIR_STATUS_INVALID_CONTEXT)
     {
-        invalid = dx_restriction_exclusive_value_check (context, 0, 0, value);
+        // The value is the first value_size bytes of the input, which may not be terminated.
+        text = NULL;
+        if (value && value_size >= 0)
+        {
+            text = strndup (value, value_size);
+            if (text == NULL)
+            {
+                status = DISIR_STATUS_NO_MEMORY;
+                goto out;
+            }
+        }
+        invalid = dx_restriction_exclusive_value_check (context, 0, 0, text);
+        free (text);
     }
 
      // Do not allow finalized context to change value
-- 
2.43.0


From a55aa528698e79dd8d688931db8cad8d41484c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 27/68] fix: release a refused entry restriction of an element
 under construction

---
 lib/context_restriction.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 4545ac0..ba54951 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1028,6 +1028,11 @@ add_restriction_entries_min_max (struct disir_context *parent, int64_t value,
     status = dc_finalize (&context_restriction);
     if (status != DISIR_STATUS_OK)
     {
+        if (status == DISIR_STATUS_INVALID_CONTEXT)
+        {
+            // Invalid, but finalized: we hold a reference beside that of the parent.
+            dx_context_decref (&context_restriction);
+        }
         goto error;
     }
 
-- 
2.43.0


From 0d3023a1351117ba3c29d0d04a64a4b721b090a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 28/68] fix: release the former mold equivalent of a context
 that is renamed

---
 lib/context.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index ad02698..966c550 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -925,12 +925,21 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    // Release the equivalent of a former name
     if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
     {
+        if (context->cx_section->se_mold_equiv)
+        {
+            dx_context_decref (&context->cx_section->se_mold_equiv);
+        }
         context->cx_section->se_mold_equiv = queried;
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
+        if (context->cx_keyval->kv_mold_equiv)
+        {
+            dx_context_decref (&context->cx_keyval->kv_mold_equiv);
+        }
         context->cx_keyval->kv_mold_equiv = queried;
         dx_value_set_type (&context->cx_keyval->kv_value, queried->cx_keyval->kv_value.dv_type);
     }
-- 
2.43.0


From 3cc9d771bb28f348a5459cc9fa2f2f46fc8dc88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 29/68] fix: look up the name of a config element by the given
 number of bytes

---
 lib/context.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 966c550..0a77b61 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -509,6 +509,7 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     int max;
     int current_entries_count;
     struct disir_collection *collection;
+    char *lookup;
 
     collection = NULL;
     max = 0;
@@ -532,9 +533,23 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-        invalid = dx_set_mold_equiv (context, name, name_size);
+        if (name == NULL || name_size <= 0)
+        {
+            log_debug (0, "invoked with no name (%p) or size (%d)", name, name_size);
+            return DISIR_STATUS_INVALID_ARGUMENT;
+        }
+
+        // The name is the first name_size bytes of the input, which need not be terminated
+        lookup = strndup (name, name_size);
+        if (lookup == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
+
+        invalid = dx_set_mold_equiv (context, lookup, name_size);
         if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_NOT_EXIST)
         {
+            free (lookup);
             return invalid;
         }
         // If NOT EXIST, let it through and set name but mark context as invalid
@@ -548,18 +563,20 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         {
             // check if number of elements in parent exceed size of restriction
             dx_restriction_entries_value (context, DISIR_RESTRICTION_INC_ENTRY_MAX, NULL, &max);
-            dc_find_elements (context->cx_parent_context, name, &collection);
+            dc_find_elements (context->cx_parent_context, lookup, &collection);
             current_entries_count = dc_collection_size (collection);
             dc_collection_finished (&collection);
 
             log_debug (4, "Maximum restriction for entry '%s' = %d (currently at %d",
-                          name, max, current_entries_count);
+                          lookup, max, current_entries_count);
             if (max != 0 && max <= current_entries_count)
             {
                 dx_context_error_set (context, "maximum instances of %d exceeded", max);
+                free (lookup);
                 return DISIR_STATUS_RESTRICTION_VIOLATED;
             }
         }
+        free (lookup);
     }
 
     // QUESTION: Do not allow setting name on finalized context? Only if not invalid
-- 
2.43.0


From f53e1af21bb09ffb422dc9e8a82adef0fba847d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 30/68] fix: refuse to rename an element its parent holds
 instead of leaving it behind under the former name

---
 lib/context.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 0a77b61..683a430 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -530,6 +530,13 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return status;
     }
 
+    // The parent holds the context under its current name.
+    if (context->CONTEXT_STATE_IN_PARENT)
+    {
+        log_debug_context (0, context, "cannot change the name of an element its parent holds");
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-- 
2.43.0


From 245fee24ce5ec194243915cd5795df8bc542f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 31/68] fix: take an element that does not fit in the list out
 of the map again, and report lack of memory

---
 lib/element_storage.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/element_storage.c b/lib/element_storage.c
index 1d342d3..07b1e40 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -189,6 +189,10 @@ dx_element_storage_add (struct disir_element_storage *storage,
         // key in, so we can safely access the key memory even if the appointed context
         // is destroyed whilst in our storage.
         key = malloc (strlen (name) + 1); // XXX: Is there a more safe way to allocate this memory?
+        if (key == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
         memcpy(key, name, strlen (name) + 1);
     }
 
@@ -224,7 +228,8 @@ list_error:
     multimap_remove_value (storage->es_map,
         (keys_in_map ? name : key),
         free, // Free's the allocated memory above, if removing last element with this key name.
-        NULL);
+        context);
+    return status;
 
 map_error:
     if (keys_in_map == 0)
-- 
2.43.0


From f9dbe60245f7a8bbb4bbae1c33b9ed3b1641052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 32/68] fix: refuse an element name that is NULL and report
 lack of memory when elements are fetched

---
 lib/element_storage.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/element_storage.c b/lib/element_storage.c
index 07b1e40..be88fec 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -266,13 +266,24 @@ dx_element_storage_get (struct disir_element_storage *storage,
     struct disir_collection *col;
     struct multimap_value_iterator *iter;
 
+    if (storage == NULL || name == NULL || collection == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s) (storage %p, name %p, collection %p)",
+                   storage, name, collection);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
+    if (multimap_contains_key (storage->es_map, name) == 0)
+    {
+        return DISIR_STATUS_NOT_EXIST;
+    }
     iter = multimap_fetch (storage->es_map, name);
     if (iter == NULL)
     {
-        return DISIR_STATUS_NOT_EXIST;
+        return DISIR_STATUS_NO_MEMORY;
     }
     col = dc_collection_create ();
-    if (collection == NULL)
+    if (col == NULL)
     {
         status = DISIR_STATUS_NO_MEMORY;
         goto error;
-- 
2.43.0


From eeee33c0b86f776d661e3c6c47cef5890d17834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 33/68] fix: keep every element when memory runs out while the
 map of elements grows

---
 3rdparty/void-multimap/multimap.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/3rdparty/void-multimap/multimap.c b/3rdparty/void-multimap/multimap.c
index 113eacd..27c160a 100644
--- a/3rdparty/void-multimap/multimap.c
+++ b/3rdparty/void-multimap/multimap.c
@@ -127,9 +127,8 @@ delete_buckets (struct mapnode **buckets, int nbuckets,
 static void
 resize_map (struct multimap *map)
 {
-  int j;
   int idx, old_nbuckets;
-  struct mapnode *node, **old_buckets;
+  struct mapnode *node, *next, **slot, **old_buckets;
 
   // Save old values
   old_buckets = map->buckets;
@@ -146,22 +145,23 @@ resize_map (struct multimap *map)
     return;
   }
 
-  map->size = 0;
-
-  // Populate new hashmap with old (key, value) tuples
+  // Move every node, with all of its values, to its new bucket
   for (idx = 0; idx < old_nbuckets; idx++)
   {
-    for (node = old_buckets[idx]; node; node = node->next)
+    for (node = old_buckets[idx]; node; node = next)
     {
-      for (j = 0; j < node->value_size; j++)
-      {
-        multimap_push_value (map, node->key, node->value_list[j]);
-      }
+      next = node->next;
+      node->next = NULL;
+
+      slot = &map->buckets[map->hashfunc (node->key) % map->nbuckets];
+      while (*slot)
+        slot = &(*slot)->next;
+      *slot = node;
     }
   }
 
-  // Finally, delete old buckets
-  delete_buckets (old_buckets, old_nbuckets, NULL, NULL);
+  // Finally, release the old array
+  free (old_buckets);
 }
 
 struct multimap *
-- 
2.43.0


From fa4e3a3359bb5f6ee0cd31d8383963abb9b7616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 34/68] fix: resolve the name of an element its parent does not
 hold or that is nested deeply, without looping, overflow or leaks

---
 lib/context.c | 115 ++++++++++++++++----------------------------------
 1 file changed, 37 insertions(+), 78 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 683a430..47d6c66 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -680,14 +680,14 @@ enum disir_status
 dc_resolve_root_name (struct disir_context *context, char **output)
 {
     enum disir_status status;
-    int total_size = 0;
-    const char *reverse_name_index[20];
-    int reverse_name_index_index[20];
-    int current_name_index = -1;
+    int index;
+    int size;
     struct disir_context *current_context = NULL;
+    struct disir_context *queried;
+    struct disir_collection *collection;
     const char *name = NULL;
-    int32_t name_size;
-    char *buffer;
+    char *buffer = NULL;
+    char *extended;
 
     TRACE_ENTER ("context (%p) output (%p)", context, output);
 
@@ -708,102 +708,61 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         goto out;
     }
 
-    current_context = context;
-    while (current_context != NULL)
+    // Prepend the name of each element from context up to, but not including, the root.
+    for (current_context = context;
+         current_context->cx_parent_context != NULL;
+         current_context = current_context->cx_parent_context)
     {
-        current_name_index += 1;
-        reverse_name_index_index[current_name_index] = -1;
-
-        name_size = 0;
-        status = dc_get_name (current_context, &name, &name_size);
-        if (status != DISIR_STATUS_OK)
+        status = dc_get_name (current_context, &name, NULL);
+        if (status != DISIR_STATUS_OK || name == NULL)
         {
             name = "undefined";
-            name_size = 9;
-            reverse_name_index_index[current_name_index] = 0;
         }
 
-        // Add length of name, plus additional characters for separators and index
-        //  e.g., name@12.
-        total_size += name_size;
-        total_size += 10;
-
-        reverse_name_index[current_name_index] = name;
-        if (reverse_name_index_index[current_name_index] == -1)
+        // Position among the elements of the same name. An element that
+        // its parent does not hold is positioned after those.
+        index = 0;
+        collection = NULL;
+        if (dc_find_elements (current_context->cx_parent_context, name,
+                              &collection) == DISIR_STATUS_OK)
         {
-            int i = -1;
-            struct disir_collection *collection;
-            struct disir_context *queried;
-
-            status = dc_find_elements (current_context->cx_parent_context, name, &collection);
-            if (status != DISIR_STATUS_OK)
-                break;
-
-            do
+            while (dc_collection_next (collection, &queried) == DISIR_STATUS_OK)
             {
-                status = dc_collection_next (collection, &queried);
-                if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
-                    break;
-
-                i += 1;
                 if (queried == current_context)
                 {
-                    reverse_name_index_index[current_name_index] = i;
                     dc_putcontext (&queried);
-                    status = DISIR_STATUS_OK;
                     break;
                 }
-
                 dc_putcontext (&queried);
-            } while (1);
-
-            dc_collection_finished (&collection);
-
-            // The context is not found in the parent..
-            if (status != DISIR_STATUS_OK)
-            {
-                break;
+                index += 1;
             }
+            dc_collection_finished (&collection);
         }
 
-        // Resolve parent name
-        current_context = current_context->cx_parent_context;
-        // This is a root context - ignore it
-        if (current_context->cx_parent_context == NULL)
+        // Room for the separator, the index and what is there already
+        //  e.g., name@12.
+        size = strlen (name) + (buffer ? strlen (buffer) : 0) + 16;
+        extended = malloc (size);
+        if (extended == NULL)
         {
-            break;
+            free (buffer);
+            status = DISIR_STATUS_NO_MEMORY;
+            goto out;
         }
-    }
-
-    // Allocate buffer for name
-    buffer = malloc (total_size);
-    if (buffer == NULL)
-        return DISIR_STATUS_NO_MEMORY;
-
-    int i;
-    int written = 0;
-    int res = 0;
-    for (i = current_name_index; i >= 0; i--)
-    {
-        log_debug (1, "Adding reverse name: %s", reverse_name_index[i]);
-        res = snprintf (buffer + written, total_size - written, "%s", reverse_name_index[i]);
-        written += res;
-
-        if (reverse_name_index_index[i] != 0)
+        if (index != 0)
         {
-            res = snprintf (buffer + written, total_size - written,
-                            "@%d", reverse_name_index_index[i]);
-            written += res;
+            snprintf (extended, size, "%s@%d%s%s", name, index,
+                      (buffer ? "." : ""), (buffer ? buffer : ""));
         }
-
-        if (i != 0)
+        else
         {
-            res = snprintf (buffer + written, total_size - written, ".");
-            written += res;
+            snprintf (extended, size, "%s%s%s", name,
+                      (buffer ? "." : ""), (buffer ? buffer : ""));
         }
+        free (buffer);
+        buffer = extended;
     }
 
-
     *output = buffer;
     status = DISIR_STATUS_OK;
 out:
-- 
2.43.0


From dfce66c0973d18292d56216719a225f1d2b3495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 35/68] fix: report an unknown element below a section without
 mold entry instead of crashing

---
 lib/context.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 47d6c66..e190219 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -826,6 +826,11 @@ dx_get_mold_equiv_type (struct disir_context *parent,
     }
     else if (dc_context_type (parent) == DISIR_CONTEXT_SECTION)
     {
+        // An invalid section may have no mold equivalent.
+        if (parent->cx_section->se_mold_equiv == NULL)
+        {
+            return DISIR_STATUS_NOT_EXIST;
+        }
         storage = parent->cx_section->se_mold_equiv->cx_section->se_elements;
     }
     else
-- 
2.43.0


From 2576273cb87be74f849e873fbb9372a0d3070468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 36/68] fix: dc_set_value_type on other contexts is refused,
 and the message for an unknown context names its function

---
 lib/context_util.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index caf6a22..9e0769f 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -289,7 +289,8 @@ dx_context_sp_full_check_log_error (struct disir_context *context, const char *f
 
     if (dx_context_type_sanify(context->cx_type) == DISIR_CONTEXT_UNKNOWN)
     {
-        dx_log_context (context, "%s() invoked on unknown context( %d )", context->cx_type);
+        dx_log_context (context, "%s() invoked on unknown context( %d )",
+                        function_name, context->cx_type);
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
     }
 
@@ -491,8 +492,9 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     }
     default:
     {
-        dx_crash_and_burn ("%s: %s not handled", __func__, dc_context_type_string (context));
-        return DISIR_STATUS_INTERNAL_ERROR; // not reached
+        dx_context_error_set (context, "cannot set value type of %s",
+                              dc_context_type_string (context));
+        status = DISIR_STATUS_WRONG_CONTEXT;
     }
     }
 
-- 
2.43.0


From 80afc1b5cec0f32b8fe18076a53a0722387c08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 37/68] fix: dc_add_keyval_* refuses a missing name,
 documentation or default text

---
 lib/context_keyval.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index 698463b..931bc02 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -157,6 +157,17 @@ add_keyval_generic (struct disir_context *parent, const char *name, const char *
 
     keyval = NULL;
 
+    if (name == NULL || doc == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s) (name %p, doc %p)", name, doc);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+    if (string_input == NULL && (type == DISIR_VALUE_TYPE_STRING || type == DISIR_VALUE_TYPE_ENUM))
+    {
+        log_debug (0, "invoked with NULL pointer default.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     status = dc_begin (parent, DISIR_CONTEXT_KEYVAL, &keyval);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From 85693c757f2b246792c2924401f94b9aa2be708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 38/68] fix: dc_set_name without a name is refused under molds
 as well

---
 lib/context.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index e190219..2dfa931 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -530,6 +530,12 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         return status;
     }
 
+    if (name == NULL || name_size <= 0)
+    {
+        log_debug (0, "invoked with no name (%p) or size (%d)", name, name_size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // The parent holds the context under its current name.
     if (context->CONTEXT_STATE_IN_PARENT)
     {
@@ -540,12 +546,6 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
     // Find the name in the mold
     if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
     {
-        if (name == NULL || name_size <= 0)
-        {
-            log_debug (0, "invoked with no name (%p) or size (%d)", name, name_size);
-            return DISIR_STATUS_INVALID_ARGUMENT;
-        }
-
         // The name is the first name_size bytes of the input, which need not be terminated
         lookup = strndup (name, name_size);
         if (lookup == NULL)
-- 
2.43.0


From a1fbbca785924b480df94a5f4bc4d86b726f9e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 39/68] fix: dc_finalize_keep_reference gives its reference
 back when the context is not finalized

---
 lib/context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index 2dfa931..f697dfa 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -435,7 +435,7 @@ dc_finalize_keep_reference (struct disir_context *context)
     }
 
     status = dc_finalize (&tmp);
-    if (status == DISIR_STATUS_INVALID_CONTEXT && tmp)
+    if (status != DISIR_STATUS_OK && tmp)
     {
         // decref - we have an additional reference acquired above
         dx_context_decref (&context);
-- 
2.43.0


From b9307d9e6d2fc7f16116abff0e884ac473da7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 40/68] fix: sections created for a query that fails are
 destroyed, once

---
 lib/query.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index 3db7537..e527f21 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -274,7 +274,10 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 // TODO: Verify / sanify error message
                 // This should only happend if the variable referenced is a KEYVAL, not a section.
                 dx_context_transfer_logwarn (config, current_context);
-                dc_destroy (&current_context);
+                if (current_context != ancestor_context)
+                {
+                    dc_destroy (&current_context);
+                }
                 break;
             }
 
@@ -283,7 +286,10 @@ dx_query_ensure_ancestors (struct disir_context *config,
             {
                 // This should NOT happend.
                 log_warn ("TODO: HANDLE ERROR MESSAGE: generate_from_config_root");
-                dc_destroy (&current_context);
+                if (current_context != ancestor_context)
+                {
+                    dc_destroy (&current_context);
+                }
                 break;
             }
 
@@ -302,6 +308,11 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 }
             }
         }
+        else if (status != DISIR_STATUS_OK)
+        {
+            log_warn ("unable to find element: %s", disir_status_string (status));
+            break;
+        }
         else
         {
             // Check that our current_context is a section
@@ -331,12 +342,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
     // we need to destroy it.
     if (status != DISIR_STATUS_OK && ancestor_context)
     {
-        // We should only destroy the ancestor if we havent already destroyed
-        // it in our loop above
-        if (ancestor_context != current_context)
-        {
-            dc_destroy (&ancestor_context);
-        }
+        dc_destroy (&ancestor_context);
     }
 
     // Populate the output parameters
-- 
2.43.0


From b847e00f10883cb3ed36e511edb82429a8f6cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 41/68] fix: the index in a query is a decimal number within
 range

---
 lib/query.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index e527f21..ecd4557 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <stdarg.h>
 #include <string.h>
+#include <limits.h>
 
 #include <disir/disir.h>
 
@@ -27,6 +28,7 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
     char *key_seperator;
     char *index_indicator;
     char *endptr;
+    long parsed;
 
     *index = 0;
     name_below = NULL;
@@ -94,8 +96,8 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
         strcat (resolved, name_index);
 
         // Find the index
-        *index = strtol (name_index, &endptr, 10);
-        if (name_index == endptr)
+        parsed = strtol (name_index, &endptr, 10);
+        if (name_index == endptr || *name_index < '0' || *name_index > '9')
         {
             dx_log_context (parent, "'%s' is an invalid index indicator.", resolved);
             return DISIR_STATUS_INVALID_ARGUMENT;
@@ -107,6 +109,13 @@ dx_query_resolve_name (struct disir_context *parent, char *name, char *resolved,
                             resolved);
             return DISIR_STATUS_INVALID_ARGUMENT;
         }
+
+        if (parsed > INT_MAX)
+        {
+            dx_log_context (parent, "'%s' index is out of range.", resolved);
+            return DISIR_STATUS_INVALID_ARGUMENT;
+        }
+        *index = (int) parsed;
     }
 
     // Parsing went a-okay. Populate output parameters
-- 
2.43.0


From 6f4b6ffe6385b7fdf4d4fd2441fc2d0f32750dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 42/68] fix: dc_query_resolve_context refuses a missing name or
 output

---
 lib/query.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index ecd4557..5dad92a 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -573,6 +573,12 @@ dc_query_resolve_context_va (struct disir_context *parent, const char *name,
         return status;
     }
 
+    if (name == NULL || out == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s) (name %p, out %p)", name, out);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // Write out the entire name
     if (vsnprintf (buffer, 2048, name, args) >= 2048)
     {
-- 
2.43.0


From 7de9b30b4097139cd5119f365aaa03c461da0d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 43/68] fix: a keyval begun for a query is destroyed when
 naming it fails

---
 lib/disir_config_query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index d0320b2..e3d35ed 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -237,6 +237,7 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     {
         log_warn ("set_name failed, even though it shouldnt have: %s",
                   disir_status_string (status));
+        dc_destroy (&context);
         return status;
     }
 
-- 
2.43.0


From 3c623ec4a089441a50b7a94d3758588cfe1b25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 44/68] fix: a report that cannot be allocated does not read a
 NULL pointer

---
 lib/compare.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index be1d66d..d4c0416 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -52,10 +52,7 @@ dx_diff_report_create (void)
 
     return report;
 error:
-    if (report->dr_diff_string)
-        free (report->dr_diff_string);
-    if (report)
-        free (report);
+    free (report);
 
     return NULL;
 }
-- 
2.43.0


From 3c31ec4ea42b3b3a4b3e5acede965a235986f640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 45/68] fix: comparing restrictions compares all of them, and
 texts against none

---
 lib/compare.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/compare.c b/lib/compare.c
index d4c0416..4ad3169 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -338,6 +338,7 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
     if (lhs->re_value_numeric != rhs->re_value_numeric
         || lhs->re_value_min != rhs->re_value_min
         || lhs->re_value_max != rhs->re_value_max
+        || (lhs->re_value_string == NULL) != (rhs->re_value_string == NULL)
         || (lhs->re_value_string != NULL
             && rhs->re_value_string != NULL
             && strcmp (lhs->re_value_string, rhs->re_value_string) != 0))
@@ -346,7 +347,8 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
         return DISIR_STATUS_OK;
     }
 
-    return DISIR_STATUS_OK;
+    // recurse to next entry
+    return compare_restriction_queue (lhs->next, rhs->next, report);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From 7e151108f5bb1d29a3a6d574de5fb204c6cd4197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 46/68] fix: a failing comparison of elements is reported and
 keeps nothing

---
 lib/compare.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index 4ad3169..26e560c 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -445,9 +445,8 @@ compare_all_in_name (struct disir_context *lhs, struct disir_context *rhs, const
             continue;
         }
 
-        dc_putcontext (&rhs_entry);
         log_debug (1, "rhs collection next returned: %s", disir_status_string (status));
-        break;
+        goto out;
     } while (1);
 
 
@@ -554,6 +553,11 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         }
     } while (1);
 
+    if (status != DISIR_STATUS_OK)
+    {
+        goto out;
+    }
+
     // Map now contains all entries that exists in lhs.
     // We need to iterate rhs to check if there resides any entries there
     // that is not part of map, e.g., not part of lhs.
@@ -601,6 +605,8 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         dx_diff_report_add (report, "rhs contains entry '%s' not present in lhs.", name);
     } while (1);
 
+    // FALL-THROUGH
+out:
     // Cleanup
     if (map)
     {
@@ -620,8 +626,6 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         dc_putcontext (&element);
     }
 
-    // FALL-THROUGH
-out:
     return status;
 }
 
-- 
2.43.0


From d2108f5ddf893838d62f0fcb7a8330045504fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 47/68] fix: the debug message of dc_compare gets its arguments

---
 lib/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/compare.c b/lib/compare.c
index 26e560c..73c7284 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -803,7 +803,7 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
 
     if (lhs == NULL || rhs == NULL)
     {
-        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)");
+        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)", lhs, rhs);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From f9be494f5187ab0914cae291a43bea418c151bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 48/68] fix: generating a config keeps no reference when it
 fails

---
 lib/generate.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/generate.c b/lib/generate.c
index b43d4a2..4734e2e 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -38,6 +38,10 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
     int min_entries;
     int i;
 
+    collection = NULL;
+    equiv = NULL;
+    context = NULL;
+
     // Get each element from the element storage of mold_parent
     status = dc_get_elements (mold_parent, &collection);
     if (status != DISIR_STATUS_OK)
@@ -45,8 +49,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
         goto error;
     }
 
-    while (dc_collection_next (collection, &equiv) != DISIR_STATUS_EXHAUSTED)
+    while ((status = dc_collection_next (collection, &equiv)) != DISIR_STATUS_EXHAUSTED)
     {
+        if (status != DISIR_STATUS_OK)
+        {
+            goto error;
+        }
 
         status = dx_restriction_entries_value (equiv, DISIR_RESTRICTION_INC_ENTRY_MIN,
                                                version, &min_entries);
@@ -118,6 +126,14 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
 
     status = DISIR_STATUS_OK;
 error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+    if (equiv)
+    {
+        dc_putcontext (&equiv);
+    }
     if (collection)
     {
         dc_collection_finished (&collection);
-- 
2.43.0


From 6b1bc08886d0a8440a981aa536d73f2c49ecfd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 49/68] fix: a failure while generating config elements is
 reported

---
 lib/generate.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index 4734e2e..19f6381 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -99,6 +99,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
                 //
 
                 dx_default_get_active (equiv, version, &def);
+                if (def == NULL)
+                {
+                    log_debug (2, "mold entry %s has no default", name);
+                    status = DISIR_STATUS_DEFAULT_MISSING;
+                    goto error;
+                }
 
                 status = dx_value_copy (&context->cx_keyval->kv_value, &def->de_value);
                 if (status != DISIR_STATUS_OK)
@@ -110,8 +116,13 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
             else if (dc_context_type (equiv) == DISIR_CONTEXT_SECTION)
             {
                 // Send down parent and context -
-                generate_config_from_mold_recursive_step (equiv, context, version,
-                                                          generate_zero_min);
+                status = generate_config_from_mold_recursive_step (equiv, context, version,
+                                                                   generate_zero_min);
+                if (status != DISIR_STATUS_OK)
+                {
+                    // Already logged
+                    goto error;
+                }
             }
 
             status = dc_finalize (&context);
@@ -196,7 +207,13 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         return status;
     }
 
-    generate_config_from_mold_recursive_step (mold->mo_context, config_context, &version, 0);
+    status = generate_config_from_mold_recursive_step (mold->mo_context, config_context,
+                                                       &version, 0);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        goto error;
+    }
 
     status = dc_config_finalize (&config_context, config);
     if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 1e5890c316458445bdf4ddc9b122bbe0e1087025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 50/68] fix: the config context is destroyed when generating a
 config fails early

---
 lib/generate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index 19f6381..0b4ac09 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -188,7 +188,7 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged
-            return status;
+            goto error;
         }
     }
     else
@@ -204,7 +204,7 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-        return status;
+        goto error;
     }
 
     status = generate_config_from_mold_recursive_step (mold->mo_context, config_context,
-- 
2.43.0


From 62ff555c0dbc35dac476d3572caaf394db7ead3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 51/68] fix: validating element counts returns its element when
 it fails

---
 lib/validate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/validate.c b/lib/validate.c
index c0a985d..f562696 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -156,6 +156,11 @@ validate_inclusive_restrictions (struct disir_context *context)
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
     } while (1);
+    if (element)
+    {
+        // Only the case when breaking out on error
+        dc_putcontext (&element);
+    }
     if (mold_collection)
     {
         dc_collection_finished (&mold_collection);
-- 
2.43.0


From 5582699757f013e8afd45f6f7d3178e251d1b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:19 +0000
Subject: [PATCH 52/68] fix: validating a config does not read it as a mold

---
 lib/validate.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index f562696..df943b4 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -603,7 +603,7 @@ validate_context_validity (struct disir_context *context)
     {
     case DISIR_CONTEXT_CONFIG:
     {
-        char buffer[30];
+        char buffer[50];
         log_debug(2, "Validating CONFIG for version %s",
                      dc_version_string(buffer, 50, &(context)->cx_config->cf_version));
 
@@ -616,9 +616,13 @@ validate_context_validity (struct disir_context *context)
     }
     case DISIR_CONTEXT_MOLD:
     {
-        char buffer[30];
-        log_debug(2, "Validating MOLD for version %s",
-                     dc_version_string(buffer, 50, &(context)->cx_mold->mo_version));
+        // CONFIG falls through to here
+        if (dc_context_type (context) == DISIR_CONTEXT_MOLD)
+        {
+            char buffer[50];
+            log_debug(2, "Validating MOLD for version %s",
+                         dc_version_string(buffer, 50, &(context)->cx_mold->mo_version));
+        }
         // TODO: Clear error reports
         status = validate_children (context);
         // Update invalid with new state, if non were already present.
-- 
2.43.0


From 775662b780c6e7bb312b9703f40a0b22f1616ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 53/68] fix: looking for invalid elements reports a failure
 within a section

---
 lib/validate.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index df943b4..89203f2 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -874,7 +874,7 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
 {
     enum disir_status status;
     enum disir_status invalid;
-    struct disir_collection *col;
+    struct disir_collection *col = NULL;
     struct disir_context *element;
 
     invalid = (context->CONTEXT_STATE_INVALID == 1 ? DISIR_STATUS_INVALID_CONTEXT
@@ -929,13 +929,22 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
             {
                 invalid = status;
             }
+            else if (status != DISIR_STATUS_OK)
+            {
+                // Failed to look through the section
+                dc_putcontext (&element);
+                break;
+            }
         }
 
         dc_putcontext (&element);
         status = DISIR_STATUS_OK;
     }
 
-    dc_collection_finished (&col);
+    if (col)
+    {
+        dc_collection_finished (&col);
+    }
 
     return (status == DISIR_STATUS_OK ? invalid : status);
 }
-- 
2.43.0


From 4449ee7083e694c851163ce0db099dfd0088f43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 54/68] fix: the warning about a failing query is given its
 status

---
 lib/disir_config.c | 2 +-
 lib/disir_mold.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index b22b3fe..6423ba8 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -68,7 +68,7 @@ disir_config_read (struct disir_instance *instance, const char *group_id, const
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 9ccf553..0883a54 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -69,7 +69,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
-- 
2.43.0


From fbbaca8ac13bb1ab26196aca96e1cb338d11f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 55/68] fix: removing from a plugin that cannot remove gives
 NO_CAN_DO

---
 lib/disir_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 6423ba8..ba1c673 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -214,7 +214,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
 
     if (plugin)
     {
-        if (plugin->pi_plugin.dp_config_write)
+        if (plugin->pi_plugin.dp_config_remove)
         {
             status = plugin->pi_plugin.dp_config_remove (instance, &plugin->pi_plugin,
                                                          entry_id);
-- 
2.43.0


From 66ee84bc079019e8699118ab0bd5fd3e5287a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 56/68] fix: an empty entry id is not read in front of its
 start

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index ba1c673..fb9e39d 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -127,7 +127,7 @@ disir_config_write (struct disir_instance *instance, const char *group_id, const
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length > 0 && entry_id[entry_id_length - 1] == '/')
     {
         // TODO: Add a better status?
         disir_error_set (instance, "cannot write namespace entry: %s", entry_id);
@@ -194,7 +194,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length > 0 && entry_id[entry_id_length - 1] == '/')
     {
         disir_error_set (instance, "cannot remove namespace entry: %s", entry_id);
         return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From e5caf8ca5e522e9479b3adc6fbbcbc3e6c39f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 57/68] fix: reading and writing molds refuses a NULL group

---
 lib/disir_mold.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 0883a54..276e23a 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -32,7 +32,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s)." \
                       " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
@@ -113,10 +113,11 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
-        log_debug (0, "invoked with NULL argument(s). instance (%p), entry_id (%p), mold (%p)",
-                      instance, entry_id, mold);
+        log_debug (0, "invoked with NULL argument(s)." \
+                      " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
+                      instance, group_id, entry_id, mold);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 81aa5bf17ac708814dc8956a35cdc994cbe6fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 58/68] fix: writing a mold to a plugin that cannot gives
 NO_CAN_DO

---
 lib/disir_mold.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 276e23a..408dea5 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -147,14 +147,13 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
         }
         else
         {
-            // TODO: Change status to something more sensible.
-            status = DISIR_STATUS_INTERNAL_ERROR;;
+            status = DISIR_STATUS_NO_CAN_DO;
             log_debug (1, "Plugin '%s' does not implement mold_write", plugin->pi_io_id);
         }
     }
     else
     {
-        disir_error_set (instance, "No plugin in group '%s' available: '%s'.", group_id);
+        disir_error_set (instance, "No plugin in group '%s' available.", group_id);
         status = DISIR_STATUS_NOT_EXIST;
     }
 
-- 
2.43.0


From bd1574c6c72be8f0a118a01c87f19f0b0cbdbcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 59/68] fix: listing config entries does not fail when a plugin
 does

---
 lib/disir_config.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index fb9e39d..e80db35 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -247,7 +247,6 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
                       struct disir_entry **entries)
 {
     enum disir_status status;
-    enum disir_status retstatus;
     struct multimap *map;
     struct disir_entry *queue;
     struct disir_entry *query;
@@ -256,7 +255,6 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
     queue = NULL;
     query = NULL;
     current = NULL;
-    retstatus = DISIR_STATUS_OK;
 
     if (instance == NULL || group_id == NULL || entries == NULL)
     {
@@ -298,7 +296,6 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
             log_warn ("Plugin '%s' queried for config entries failed with status: %s",
                       entry->pi_io_id, disir_status_string (status));
             entry = entry->next;
-            retstatus = status;
             continue;
         }
 
@@ -327,7 +324,7 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
 
     *entries = queue;
 
-    status = retstatus;
+    status = DISIR_STATUS_OK;
     // FALL-THROUGH
 out:
     if (map)
-- 
2.43.0


From 39e68d68646f5da01cfaa03a3728dc6f5d95a4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 60/68] fix: duplicates are released without following the
 links of moved entries

---
 lib/disir_config.c | 3 +++
 lib/disir_mold.c   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index e80db35..7ee2a01 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -315,6 +315,9 @@ disir_config_entries (struct disir_instance *instance, const char *group_id,
             else
             {
                 // Duplicate entry that a previous plugin provides. Forget about it.
+                // The entries before it are moved to queue already, so it is released by itself.
+                current->next = NULL;
+                current->prev = NULL;
                 disir_entry_finished (&current);
             }
 
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 408dea5..6f61380 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -236,6 +236,9 @@ disir_mold_entries (struct disir_instance *instance,
             else
             {
                 // Duplicate entry that a previous plugin provides. Forget about it.
+                // The entries before it are moved to queue already, so it is released by itself.
+                current->next = NULL;
+                current->prev = NULL;
                 disir_entry_finished (&current);
             }
 
-- 
2.43.0


From e2a0bdd8a42c5cf124f291b52de2772b5b4e4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 61/68] fix: an entry is found whichever plugin of the group
 holds it

---
 lib/disir_config.c | 14 +++++++++-----
 lib/disir_mold.c   | 16 ++++++++++------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 7ee2a01..ae24a81 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -375,19 +375,23 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
         }
 
         plugin = entry;
-    }));
-
-    if (plugin)
-    {
         // QUESTION: Should this abstraction check if there is a mold available before
         // issuing the config query? Or handle it individually in the plugins?
         status = plugin->pi_plugin.dp_config_query (instance, &plugin->pi_plugin,
                                                     entry_id, entry_internal);
-        if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
+        if (status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
                       plugin->pi_io_id, disir_status_string (status));
         }
+    }));
+
+    if (plugin)
+    {
         if (status == DISIR_STATUS_NOT_EXIST)
         {
             disir_error_set (instance, "entry_id '%s' in group '%s' does not exist",
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 6f61380..e24899f 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -296,17 +296,21 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
         }
 
         plugin = entry;
-    }));
-
-    if (plugin)
-    {
         status = plugin->pi_plugin.dp_mold_query (instance, &plugin->pi_plugin,
                                                   entry_id, entry_internal);
-        if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
+        if (status != DISIR_STATUS_NOT_EXIST)
         {
-            log_warn ("Plugin '%s' config_query failed with status: %s",
+            log_warn ("Plugin '%s' mold_query failed with status: %s",
                       plugin->pi_io_id, disir_status_string (status));
         }
+    }));
+
+    if (plugin)
+    {
         if (status == DISIR_STATUS_NOT_EXIST)
         {
             disir_error_set (instance, "entry_id '%s' in group '%s' does not exist",
-- 
2.43.0


From f7913bc038aebc3ec35b61be7ee6c20c0054ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 62/68] fix: a plugin that cannot be registered for lack of
 memory is released without the caller's texts

---
 lib/disir_plugin.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index 5ea240f..f61f3f1 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -44,9 +44,18 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
 
     // Copy the plugin input structure verbatim to our internal copy.
     memcpy (&internal->pi_plugin, plugin, sizeof (*plugin));
+    internal->pi_plugin.dp_name = NULL;
+    internal->pi_plugin.dp_description = NULL;
+    internal->pi_plugin.dp_config_entry_type = NULL;
+    internal->pi_plugin.dp_mold_entry_type = NULL;
 
     internal->pi_io_id = strdup (io_id);
     internal->pi_group_id = strdup (group_id);
+    if (internal->pi_io_id == NULL || internal->pi_group_id == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
 
     // Make actual copies of the strings, since we do not own the strings
     // in the input plugin
@@ -68,24 +77,14 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
     return DISIR_STATUS_OK;
 
 error:
-    if (internal->pi_plugin.dp_name)
+    if (internal)
     {
         free (internal->pi_plugin.dp_name);
-    }
-    if (internal->pi_plugin.dp_description)
-    {
         free (internal->pi_plugin.dp_description);
-    }
-    if (internal->pi_plugin.dp_config_entry_type)
-    {
         free (internal->pi_plugin.dp_config_entry_type);
-    }
-    if (internal->pi_plugin.dp_mold_entry_type)
-    {
         free (internal->pi_plugin.dp_mold_entry_type);
-    }
-    if (internal)
-    {
+        free (internal->pi_io_id);
+        free (internal->pi_group_id);
         free (internal);
     }
 
-- 
2.43.0


From ca76a31d50c1cdb06249295dd25a8f6246209fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 63/68] fix: the list of plugins is whole or NO_MEMORY is
 reported

---
 lib/disir_plugin.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index f61f3f1..39fcc68 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -99,6 +99,8 @@ disir_plugin_registered (struct disir_instance *instance, struct disir_plugin **
     struct disir_register_plugin_internal *internal;
     struct disir_plugin *head, *current;
 
+    head = NULL;
+
     TRACE_ENTER ("instance (%p) plugins (%p)", instance, plugins);
     if (instance == NULL || plugins == NULL)
     {
@@ -106,7 +108,6 @@ disir_plugin_registered (struct disir_instance *instance, struct disir_plugin **
         goto error;
     }
 
-    head = NULL;
     internal = instance->dio_plugin_queue;
     do
     {
@@ -115,19 +116,34 @@ disir_plugin_registered (struct disir_instance *instance, struct disir_plugin **
 
         current = calloc (1, sizeof (struct disir_plugin));
         if (current == NULL)
-            break;
+        {
+            status = DISIR_STATUS_NO_MEMORY;
+            goto error;
+        }
+        MQ_ENQUEUE (head, current);
 
         current->pl_group_id = strdup (internal->pi_group_id);
-        MQ_ENQUEUE (head, current);
+        if (current->pl_group_id == NULL)
+        {
+            status = DISIR_STATUS_NO_MEMORY;
+            goto error;
+        }
 
         internal = internal->next;
     } while (1);
 
     *plugins = head;
+    head = NULL;
     status = DISIR_STATUS_OK;
 
     // FALL-THROUGH
 error:
+    while (head != NULL)
+    {
+        current = MQ_DEQUEUE (head);
+        disir_plugin_finished (&current);
+    }
+
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From 9ad385bf76b4e7aae48c3a70dbc643a138ffdd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 64/68] fix: updating a config does not stop behind its first
 section

---
 lib/update.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/update.c b/lib/update.c
index 7cf2c1b..0cc8caf 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -68,6 +68,10 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     if (context)
         dc_putcontext (&context);
 
+    // Every element is visited - the elements behind a section are yet to be visited.
+    if (status == DISIR_STATUS_EXHAUSTED)
+        status = DISIR_STATUS_OK;
+
     return status;
 }
 
@@ -134,7 +138,7 @@ disir_update_config (struct disir_config *config,
     up->up_collection = dc_collection_create();
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
-    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+    if (status != DISIR_STATUS_OK)
         goto error;
 
     up->up_config_old = config;
-- 
2.43.0


From 841b66dea97b06eabb679b2372c64f8390b073ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 65/68] fix: updates refuse NULL and report lack of memory

---
 lib/update.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 0cc8caf..15b52b5 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -81,7 +81,7 @@ disir_update_config (struct disir_config *config,
                      struct disir_version *target, struct disir_update **update)
 {
     enum disir_status status;
-    struct disir_config *config_at_target;
+    struct disir_config *config_at_target = NULL;
     int res;
     char buffer[512];
     struct disir_update *up;
@@ -127,15 +127,19 @@ disir_update_config (struct disir_config *config,
     }
 
     status = disir_generate_config_from_mold (config->cf_mold, target, &config_at_target);
+    up->up_config_target = config_at_target;
     if (status != DISIR_STATUS_OK)
     {
         log_error ("failed to generate config from mold\n");
         goto error;;
     }
 
-    up->up_config_target = config_at_target;
-
     up->up_collection = dc_collection_create();
+    if (up->up_collection == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
     if (status != DISIR_STATUS_OK)
@@ -290,7 +294,7 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
     struct disir_context *context_keyval = NULL;
 
     TRACE_ENTER ("");
-    if (update == NULL)
+    if (update == NULL || resolve == NULL)
     {
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
@@ -339,6 +343,11 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
 
     TRACE_ENTER ("");
 
+    if (update == NULL || *update == NULL)
+    {
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     up = *update;
 
     if (config)
@@ -350,7 +359,10 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
         disir_config_finished (&up->up_config_target);
     }
 
-    dc_collection_finished (&up->up_collection);
+    if (up->up_collection)
+    {
+        dc_collection_finished (&up->up_collection);
+    }
     if (up->up_config_value)
     {
         free (up->up_config_value);
-- 
2.43.0


From 7fb923971fd0bee9ab42697576472a1d57e9bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 66/68] fix: the values of an update conflict are given whole

---
 lib/update.c | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 15b52b5..3cd30d1 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -75,6 +75,31 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     return status;
 }
 
+//! STATIC FUNCTION
+//! The whole text of the value, NULL if there is no memory for it.
+static char *
+value_text (struct disir_value *value)
+{
+    char *text;
+    int32_t size;
+
+    size = 0;
+    text = malloc (512);
+    if (text == NULL)
+        return NULL;
+
+    dx_value_stringify (value, 512, text, &size);
+    if (size < 512)
+        return text;
+
+    free (text);
+    text = malloc ((size_t) size + 1);
+    if (text != NULL)
+        dx_value_stringify (value, size + 1, text, &size);
+
+    return text;
+}
+
 //! PUBLIC API
 enum disir_status
 disir_update_config (struct disir_config *config,
@@ -163,7 +188,6 @@ disir_update_continue (struct disir_update *update)
     struct disir_keyval *keyval;
     struct disir_default *config_def;
     struct disir_default *target_def;
-    int32_t size;
     int res;
 
     config_keyval = NULL;
@@ -236,13 +260,19 @@ disir_update_continue (struct disir_update *update)
             // from config default. Manual resolution is in order.
             update->up_keyval = keyval;
 
-            update->up_config_value = malloc (512); // XXX Handle allocation better
-            dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
-
-            update->up_mold_value = malloc (512); // XXX: Handle allocation better
-            dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
-            // XXX Handle buffer overflow / insufficient buffer
+            update->up_config_value = value_text (&keyval->kv_value);
+            update->up_mold_value = value_text (&target_def->de_value);
+            if (update->up_config_value == NULL || update->up_mold_value == NULL)
+            {
+                free (update->up_config_value);
+                update->up_config_value = NULL;
+                free (update->up_mold_value);
+                update->up_mold_value = NULL;
+                update->up_keyval = NULL;
+                update->up_context_keyval = NULL;
+                dc_putcontext (&config_keyval);
+                return DISIR_STATUS_NO_MEMORY;
+            }
 
             // Signal that manual resolution is required.
             return DISIR_STATUS_CONFLICT;
-- 
2.43.0


From 53ac7a09b4100cceb8068834f0e5e4aabfc623ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 67/68] fix: an update keeps the values it does not change

---
 lib/update.c | 125 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 101 insertions(+), 24 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 3cd30d1..c1819c0 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -75,6 +75,61 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     return status;
 }
 
+//! STATIC FUNCTION
+//! Give the corresponding keyval of the target config the value of the old config's keyval.
+//! What does not exist or is not allowed at the target version keeps what the target holds.
+static enum disir_status
+keep_value (struct disir_update *update, struct disir_context *context)
+{
+    enum disir_status status;
+    struct disir_value *value;
+    char *name;
+
+    value = &context->cx_keyval->kv_value;
+
+    status = dc_resolve_root_name (context, &name);
+    if (status != DISIR_STATUS_OK)
+        return status;
+
+    switch (value->dv_type)
+    {
+    case DISIR_VALUE_TYPE_STRING:
+        if (value->dv_string != NULL)
+            status = disir_config_set_keyval_string (update->up_config_target, value->dv_string,
+                                                     "%s", name);
+        break;
+    case DISIR_VALUE_TYPE_ENUM:
+        if (value->dv_string != NULL)
+            status = disir_config_set_keyval_enum (update->up_config_target, value->dv_string,
+                                                   "%s", name);
+        break;
+    case DISIR_VALUE_TYPE_INTEGER:
+        status = disir_config_set_keyval_integer (update->up_config_target, value->dv_integer,
+                                                  "%s", name);
+        break;
+    case DISIR_VALUE_TYPE_FLOAT:
+        status = disir_config_set_keyval_float (update->up_config_target, value->dv_float,
+                                                "%s", name);
+        break;
+    case DISIR_VALUE_TYPE_BOOLEAN:
+        status = disir_config_set_keyval_boolean (update->up_config_target, value->dv_boolean,
+                                                  "%s", name);
+        break;
+    default:
+        break;
+    }
+
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_NO_MEMORY)
+    {
+        log_warn ("value of %s is not kept by the update: %s",
+                  name, disir_status_string (status));
+        status = DISIR_STATUS_OK;
+    }
+
+    free (name);
+    return status;
+}
+
 //! STATIC FUNCTION
 //! The whole text of the value, NULL if there is no memory for it.
 static char *
@@ -188,7 +243,7 @@ disir_update_continue (struct disir_update *update)
     struct disir_keyval *keyval;
     struct disir_default *config_def;
     struct disir_default *target_def;
-    int res;
+    int conflict;
 
     config_keyval = NULL;
 
@@ -222,38 +277,51 @@ disir_update_continue (struct disir_update *update)
 
         // Get keyval default of target version - if version is less or equal to current
         // Do nothing
+        target_def = NULL;
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
-        res = dc_version_compare (&target_def->de_introduced,
-                                  &update->up_config_old->cf_version);
-        if (res <= 0)
+        if (target_def == NULL ||
+            dc_version_compare (&target_def->de_introduced,
+                                &update->up_config_old->cf_version) <= 0)
         {
             // Do nothing - mold default value for target is older or equal to config version
-            continue;
+            conflict = 0;
         }
         // We might get lucky and have the current config value equal the target default value
-        res = dx_value_compare (&keyval->kv_value, &target_def->de_value);
-        if (res == 0)
+        else if (dx_value_compare (&keyval->kv_value, &target_def->de_value) == 0)
         {
             // Phew - Lucky,
             // TODO: Add update report entry
-            continue;
+            conflict = 0;
+        }
+        else
+        {
+            // Two cases:
+            //  * Update config if value of default at config version equals entry in config
+            //  * Conflict if default at config version differ from entry in config
+            dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
+                                   &config_def);
+            conflict = dx_value_compare (&keyval->kv_value, &config_def->de_value);
+            if (conflict == 0)
+            {
+                // Config has not changed since its last update value.
+                // We can safely update the stored value in config with new default
+                status = dx_value_copy (&keyval->kv_value, &target_def->de_value);
+                // TODO: Add update report entry
+                if (status == DISIR_STATUS_OK)
+                    update->up_updated++;
+            }
         }
 
-        // Two cases:
-        //  * Update config if value of default at config version equals entry in config
-        //  * Conflict if default at config version differ from entry in config
-        dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
-                               &config_def);
-        res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
-        if (res == 0)
+        if (status == DISIR_STATUS_OK)
+            status = keep_value (update, config_keyval);
+        if (status != DISIR_STATUS_OK)
         {
-            // Config has not changed since its last update value.
-            // We can safely update the stored value in config with new default
-            dx_value_copy (&keyval->kv_value, &target_def->de_value);
-            // TODO: Add update report entry
-            update->up_updated++;
+            update->up_context_keyval = NULL;
+            dc_putcontext (&config_keyval);
+            return status;
         }
-        else
+
+        if (conflict)
         {
             // Oh-oh - We have a conflict
             // Target default is higher version than config value. Config value differ
@@ -322,6 +390,7 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
 {
     enum disir_status status;
     struct disir_context *context_keyval = NULL;
+    char *name;
 
     TRACE_ENTER ("");
     if (update == NULL || resolve == NULL)
@@ -335,8 +404,13 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
         return DISIR_STATUS_NO_CAN_DO;
     }
 
+    status = dc_resolve_root_name (update->up_context_keyval, &name);
+    if (status != DISIR_STATUS_OK)
+        goto out;
+
     status = dc_query_resolve_context (update->up_config_target->cf_context,
-                                       update->up_keyval->kv_name.dv_string, &context_keyval);
+                                       "%s", &context_keyval, name);
+    free (name);
     if (status != DISIR_STATUS_OK)
         goto out;
 
@@ -426,7 +500,7 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
     const char *mold;
 
     status = disir_update_config (*config, &(*config)->cf_mold->mo_version, &update);
-    if (status != DISIR_STATUS_CONFLICT)
+    if (status != DISIR_STATUS_CONFLICT && status != DISIR_STATUS_OK)
         goto error;
 
     do
@@ -453,7 +527,10 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
 
     }
     while (1);
-   
+
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
     c = *config;
 
     disir_update_finished (&update, config);
-- 
2.43.0


From 4ffbd37bac839e44a1c0bfbb65ffb238c0bc704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:59 +0000
Subject: [PATCH 68/68] fix: an update conflict that cannot be resolved ends
 the update

---
 lib/update.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index c1819c0..73a0700 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -513,12 +513,11 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
             goto error;
 
         status = disir_update_resolve (update, keyval);
-        if (status != DISIR_STATUS_OK &&
-            status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
+        if (status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
         {
             status = disir_update_resolve (update, mold);
         }
-        else if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK)
         {
             goto error;
         }
-- 
2.43.0

