From db7dd5e11fdfd2a0b199fc9372525b96dcc39d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 01/91] fix: compare core frame build ID offsets without
 truncating them

The difference of two 64-bit offsets was stored in an int, so frames whose
offsets differ by a multiple of 2^32 compared as equal and others compared
with the wrong sign.
---
 lib/core_frame.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 84661c0..b9497d7 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -166,9 +166,8 @@ sr_core_frame_cmp(struct sr_core_frame *frame1,
         return build_id;
 
     /* Build ID offset */
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
-    if (build_id_offset != 0)
-        return build_id_offset;
+    if (frame1->build_id_offset != frame2->build_id_offset)
+        return frame1->build_id_offset > frame2->build_id_offset ? 1 : -1;
 
     /* Function name. */
     int function_name = g_strcmp0(frame1->function_name,
@@ -203,7 +202,8 @@ sr_core_frame_cmp_distance(struct sr_core_frame *frame1,
     int build_id = g_strcmp0(frame1->build_id,
                               frame2->build_id);
 
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = (frame1->build_id_offset > frame2->build_id_offset)
+                        - (frame1->build_id_offset < frame2->build_id_offset);
 
     if (build_id == 0 && build_id_offset == 0)
         return 0;
-- 
2.43.0


From 7f7190d054656f73eb5f38db8024a04c15f43a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 02/91] fix: compare 64-bit kerneloops frame fields without
 truncating them

The differences of 64-bit addresses, offsets and lengths were returned as an
int, so frames differing by a multiple of 2^32 in one of them compared as
equal (hiding also the differences in the fields compared after it).
---
 lib/koops_frame.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 56b3cae..f98e294 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -127,9 +127,8 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
                    struct sr_koops_frame *frame2)
 {
     /* Address. */
-    int address = frame2->address - frame1->address;
-    if (address != 0)
-        return address;
+    if (frame1->address != frame2->address)
+        return frame1->address < frame2->address ? 1 : -1;
 
     /* Reliable. */
     int reliable = (int)frame2->reliable - (int)frame1->reliable;
@@ -144,14 +143,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return function_name;
 
     /* Function offset. */
-    int64_t function_offset = frame2->function_offset - frame1->function_offset;
-    if (function_offset != 0)
-        return function_offset;
+    if (frame1->function_offset != frame2->function_offset)
+        return frame1->function_offset < frame2->function_offset ? 1 : -1;
 
     /* Function length. */
-    int64_t function_length = frame2->function_length - frame1->function_length;
-    if (function_length != 0)
-        return function_length;
+    if (frame1->function_length != frame2->function_length)
+        return frame1->function_length < frame2->function_length ? 1 : -1;
 
     /* Module name. */
     int module_name = g_strcmp0(frame1->module_name,
@@ -161,9 +158,8 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return module_name;
 
     /* From address. */
-    int from_address = frame2->from_address - frame1->from_address;
-    if (from_address != 0)
-        return from_address;
+    if (frame1->from_address != frame2->from_address)
+        return frame1->from_address < frame2->from_address ? 1 : -1;
 
     /* From function name. */
     int from_function_name = g_strcmp0(frame1->from_function_name,
@@ -173,14 +169,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return from_function_name;
 
     /* From function offset. */
-    int64_t from_function_offset = frame2->from_function_offset - frame1->from_function_offset;
-    if (from_function_offset != 0)
-        return from_function_offset;
+    if (frame1->from_function_offset != frame2->from_function_offset)
+        return frame1->from_function_offset < frame2->from_function_offset ? 1 : -1;
 
     /* From function length. */
-    int64_t from_function_length = frame2->from_function_length - frame1->from_function_length;
-    if (from_function_length != 0)
-        return from_function_length;
+    if (frame1->from_function_length != frame2->from_function_length)
+        return frame1->from_function_length < frame2->from_function_length ? 1 : -1;
 
     /* From module name. */
     int from_module_name = g_strcmp0(frame1->from_module_name,
-- 
2.43.0


From 1b147a0bf95f0f5249942384a0ffa206ed19f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 03/91] fix: order 32-bit frame and thread numbers without
 integer overflow

Line numbers, columns and levels are unsigned 32-bit numbers, with UINT32_MAX
standing for an unknown one. Returning their difference as an int is wrong
when it does not fit: the order was not antisymmetric or transitive.
The order of values that worked (unknown before known) is kept.
---
 lib/gdb_frame.c      |  4 ++--
 lib/gdb_thread.c     |  2 +-
 lib/internal_utils.h | 10 ++++++++++
 lib/java_frame.c     |  2 +-
 lib/js_frame.c       |  6 +++---
 lib/python_frame.c   |  2 +-
 lib/ruby_frame.c     |  6 +++---
 7 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1a87d41..c2d1c19 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -203,7 +203,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
         return source_file;
 
     /* Sourceline. */
-    int source_line = frame1->source_line - frame2->source_line;
+    int source_line = cmp_uint32(frame1->source_line, frame2->source_line);
     if (source_line != 0)
         return source_line;
 
@@ -216,7 +216,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
     /* Frame number. */
     if (compare_number)
     {
-        int number = frame1->number - frame2->number;
+        int number = cmp_uint32(frame1->number, frame2->number);
         if (number != 0)
             return number;
     }
diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 26c8f7d..85320db 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -121,7 +121,7 @@ int
 sr_gdb_thread_cmp(struct sr_gdb_thread *thread1,
                   struct sr_gdb_thread *thread2)
 {
-    int number = thread1->number - thread2->number;
+    int number = cmp_uint32(thread1->number, thread2->number);
     if (number != 0)
         return number;
 
diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index bb66cac..55eb769 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -55,6 +55,16 @@ warn(const char *fmt, ...) __sr_printf(1, 2);
 #define DEFINE_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_GETTER(name, next, abstract_t, concrete_t, abstract_t)
 #define DEFINE_SET_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_SETTER(name, next, abstract_t, concrete_t, abstract_t)
 
+/* Orders two 32-bit numbers (lines, columns, levels...) without overflow.  The
+ * "unknown" value UINT32_MAX comes before all the others. */
+static inline int
+cmp_uint32(uint32_t a, uint32_t b)
+{
+    a ^= UINT32_C(0x80000000);
+    b ^= UINT32_C(0x80000000);
+    return (a > b) - (a < b);
+}
+
 /* beware the side effects */
 #define OR_UNKNOWN(s) ((s) ? (s) : "<unknown>")
 
diff --git a/lib/java_frame.c b/lib/java_frame.c
index 19a0c26..7a19ffc 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -180,7 +180,7 @@ sr_java_frame_cmp(struct sr_java_frame *frame1,
     if (frame1->is_native != frame2->is_native)
         return frame1->is_native ? 1 : -1;
 
-    return frame1->file_line - frame2->file_line;
+    return cmp_uint32(frame1->file_line, frame2->file_line);
 }
 
 int
diff --git a/lib/js_frame.c b/lib/js_frame.c
index c0be8ba..3d7ef29 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -132,12 +132,12 @@ sr_js_frame_cmp(struct sr_js_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = cmp_uint32(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
     /* line_column */
-    int line_column = frame1->line_column - frame2->line_column;
+    int line_column = cmp_uint32(frame1->line_column, frame2->line_column);
     if (line_column != 0)
         return line_column;
 
@@ -149,7 +149,7 @@ sr_js_frame_cmp_distance(struct sr_js_frame *frame1,
                          struct sr_js_frame *frame2)
 {
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = cmp_uint32(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/python_frame.c b/lib/python_frame.c
index a454127..0e10ebf 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -130,7 +130,7 @@ sr_python_frame_cmp(struct sr_python_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = cmp_uint32(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index b4233db..6be76a7 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -127,7 +127,7 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = cmp_uint32(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
@@ -137,12 +137,12 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return special_function;
 
     /* block_level */
-    int block_level = frame1->block_level - frame2->block_level;
+    int block_level = cmp_uint32(frame1->block_level, frame2->block_level);
     if (block_level != 0)
             return block_level;
 
     /* rescue_level */
-    int rescue_level = frame1->rescue_level - frame2->rescue_level;
+    int rescue_level = cmp_uint32(frame1->rescue_level, frame2->rescue_level);
     if (rescue_level != 0)
             return rescue_level;
 
-- 
2.43.0


From d322f7f1033bdd49800f4793c38ebfaa40248068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 04/91] fix: do not skip the first frame when creating core
 stacktrace from gdb text

sr_core_stacktrace_create() advanced to the next frame before using the
current one, losing the topmost frame of each thread and dereferencing NULL
past the last one.
---
 lib/core_stacktrace.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a22b469..e2fc2b1 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -341,8 +341,6 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
         struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
         while (gdb_frame)
         {
-            gdb_frame = gdb_frame->next;
-
             struct sr_core_frame *core_frame = sr_core_frame_new();
             core_frame->address = gdb_frame->address;
 
@@ -364,6 +362,7 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
             }
 
             core_thread->frames = sr_core_frame_append(core_thread->frames, core_frame);
+            gdb_frame = gdb_frame->next;
         }
 
         core_stacktrace->threads =
-- 
2.43.0


From c666a609dbcc0d4e89ca672fdcfdd907ad83dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 05/91] fix: make the copy of a core stacktrace refer to its
 own crash thread

sr_core_stacktrace_dup() left crash_thread pointing into the original, which
dangles once the original is released and is not one of the copy's threads.
---
 lib/core_stacktrace.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index e2fc2b1..1776b85 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -114,6 +114,20 @@ sr_core_stacktrace_dup(struct sr_core_stacktrace *stacktrace)
 
     if (stacktrace->threads)
         result->threads = sr_core_thread_dup(stacktrace->threads, true);
+
+    /* Point to the copy of the crash thread, not to the original. */
+    struct sr_core_thread *thread = stacktrace->threads,
+        *thread_copy = result->threads;
+    result->crash_thread = NULL;
+    while (thread)
+    {
+        if (thread == stacktrace->crash_thread)
+            result->crash_thread = thread_copy;
+
+        thread = thread->next;
+        thread_copy = thread_copy->next;
+    }
+
     if (stacktrace->executable)
         result->executable = g_strdup(stacktrace->executable);
 
-- 
2.43.0


From df5d82f04d46a7a7946ef0610d50f456b5ca53ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 06/91] fix: compare all frames of java threads, not only the
 first ones

sr_java_thread_cmp() is documented to compare also the frames, but it only
looked at the topmost one, so threads that differ below it compared as equal.
---
 lib/java_thread.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/java_thread.c b/lib/java_thread.c
index fa054db..f79ba18 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -127,12 +127,20 @@ sr_java_thread_cmp(struct sr_java_thread *thread1,
     struct sr_java_frame *frame1 = thread1->frames;
     struct sr_java_frame *frame2 = thread2->frames;
 
-    if (frame1 && !frame2)
-        return 1;
-    else if (frame2 && !frame1)
-        return -1;
-    else if (frame1 && frame2)
-        return sr_java_frame_cmp(frame1, frame2);
+    do {
+        if (frame1 && !frame2)
+            return 1;
+        else if (frame2 && !frame1)
+            return -1;
+        else if (frame1 && frame2)
+        {
+            int frames = sr_java_frame_cmp(frame1, frame2);
+            if (frames != 0)
+                return frames;
+            frame1 = frame1->next;
+            frame2 = frame2->next;
+        }
+    } while (frame1 || frame2);
 
     return 0;
 }
-- 
2.43.0


From ccb5f087782b0b35caca5939126501a21d2228a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:00 +0000
Subject: [PATCH 07/91] fix: let threads with a single frame match in the
 Jaro-Winkler measure

The maximum distance of matching frames, frame_count/2 - 1, is -1 when the
longer thread has one frame, so two identical single-frame threads were given
0 ("no similarity") instead of 1.
---
 lib/distance.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/distance.c b/lib/distance.c
index 43c4d59..1287c33 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -46,6 +46,12 @@ distance_jaro_winkler(struct sr_thread *thread1,
     if (max_frame_count < frame1_count)
         max_frame_count = frame1_count;
 
+    /* How far from each other the matching frames may be. A negative distance
+     * would not let threads with single frame match at all. */
+    int max_distance = max_frame_count / 2 - 1;
+    if (max_distance < 0)
+        max_distance = 0;
+
     int prefix_len = 0;
     bool still_prefix = true;
     float trans_count = 0, match_count = 0;
@@ -67,7 +73,7 @@ distance_jaro_winkler(struct sr_thread *thread1,
              * other and if functions aren't both unpaired unknown
              * functions.
              */
-            if (abs(i - j) <= max_frame_count / 2 - 1 &&
+            if (abs(i - j) <= max_distance &&
                 0 == sr_frame_cmp_distance(curr_frame, curr_frame2))
             {
                 match = true;
-- 
2.43.0


From e5c0621987bcba4db66bc11d6f61d8905a03e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:05 +0000
Subject: [PATCH 08/91] fix: gdb_sharedlib: don't read past the end of input

When the list of shared libraries is not terminated by a newline, the
parser stepped over the terminating NUL of the input.
---
 lib/gdb_sharedlib.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 2123f3c..c046847 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -243,8 +243,9 @@ sr_gdb_sharedlib_parse(const char *input)
         current->symbols = symbols;
         current->soname = g_string_free(buf, FALSE);
 
-        /* we are on '\n' character, jump to next line */
-        ++tmp;
+        /* we are on '\n' character (or at the end of input), jump to next line */
+        if (*tmp)
+            ++tmp;
     }
 
     return first;
-- 
2.43.0


From a687f9f74fe259534731586c89b8ce58eead8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:06 +0000
Subject: [PATCH 09/91] fix: gdb_thread: don't dereference missing soname

A shared library object can have no soname (sr_gdb_sharedlib_new), setting
library names of frames crashed on it.
---
 lib/gdb_thread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 85320db..9541164 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -529,7 +529,7 @@ sr_gdb_thread_set_libnames(struct sr_gdb_thread *thread, struct sr_gdb_sharedlib
     {
         struct sr_gdb_sharedlib *lib = sr_gdb_sharedlib_find_address(libs,
                                                                      frame->address);
-        if (lib)
+        if (lib && lib->soname)
         {
             char *s1, *s2;
 
-- 
2.43.0


From ece75c674f9f9394c4539f94f5b94132cb3d0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:54 +0000
Subject: [PATCH 10/91] fix: gdb_frame: append_to_str method was called without
 its argument

The generic method has two arguments, sr_gdb_frame_append_to_str three: the
text of a frame depended on an indeterminate value.
---
 lib/gdb_frame.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index c2d1c19..28fc4de 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -48,9 +48,15 @@ frame_cmp_without_number(struct sr_gdb_frame *frame1, struct sr_gdb_frame *frame
     return sr_gdb_frame_cmp(frame1, frame2, false);
 }
 
+static void
+append_to_str_verbose(struct sr_gdb_frame *frame, GString *str)
+{
+    sr_gdb_frame_append_to_str(frame, str, true);
+}
+
 struct frame_methods gdb_frame_methods =
 {
-    .append_to_str = (append_to_str_fn_t) sr_gdb_frame_append_to_str,
+    .append_to_str = (append_to_str_fn_t) append_to_str_verbose,
     .next = (next_frame_fn_t) gdb_next,
     .set_next = (set_next_frame_fn_t) gdb_set_next,
     .cmp = (frame_cmp_fn_t) frame_cmp_without_number,
-- 
2.43.0


From 4e29a0424004fd7486da32ba20a268be2fb95ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 11/91] fix: read the whole range of unsigned numbers from JSON

Numbers above INT64_MAX (addresses) and above INT32_MAX (line numbers) were
silently clamped.
---
 lib/json_utils.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 4492a22..495d4a7 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -38,8 +38,20 @@
 
 #define NOOP
 
-DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, int64, NOOP)
-DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int, NOOP)
+/* json-c clamps the numbers that do not fit the type asked for. */
+static uint64_t
+json_object_get_any64(json_object *object)
+{
+    int64_t value = json_object_get_int64(object);
+#if defined(JSON_C_VERSION_NUM) && JSON_C_VERSION_NUM >= ((0 << 16) | (14 << 8))
+    if (value >= 0)
+        return json_object_get_uint64(object);
+#endif
+    return value;
+}
+
+DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, any64, NOOP)
+DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int64, NOOP)
 DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int, NOOP)
 DEFINE_JSON_READ(json_read_string, char *, json_type_string, string, g_strdup)
 DEFINE_JSON_READ(json_read_bool, bool, json_type_boolean, boolean, NOOP)
-- 
2.43.0


From bea733265ca9a2f3f2fb934b4387d218d8d31835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 12/91] fix: escape control characters in JSON strings

---
 lib/json_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 495d4a7..740db74 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -109,7 +109,11 @@ sr_json_escape(const char *text)
             g_string_append(strbuf, "\\t");
             break;
         default:
-            g_string_append_c(strbuf, *c);
+            /* JSON doesn't allow any other control character to stand for itself. */
+            if ((unsigned char)*c < 0x20)
+                g_string_append_printf(strbuf, "\\u%04x", (unsigned char)*c);
+            else
+                g_string_append_c(strbuf, *c);
         }
 
         ++c;
-- 
2.43.0


From 01b40b15df9a0cac0d361a4ff0f2f879c62cf211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 13/91] fix: write an empty JSON object for a frame with
 nothing known

Python, Ruby and JavaScript frames without any field were written as "}".
---
 lib/js_frame.c     | 6 +++++-
 lib/python_frame.c | 6 +++++-
 lib/ruby_frame.c   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index 3d7ef29..65dd772 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -456,7 +456,11 @@ sr_js_frame_to_json(struct sr_js_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/python_frame.c b/lib/python_frame.c
index 0e10ebf..f291851 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -397,7 +397,11 @@ sr_python_frame_to_json(struct sr_python_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 6be76a7..0811c29 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -390,7 +390,11 @@ sr_ruby_frame_to_json(struct sr_ruby_frame *frame)
     }
 
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
-- 
2.43.0


From 4b719d302def14229f12f529918f9daf335a100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 14/91] fix: write valid JSON for a core stacktrace without
 threads

---
 lib/core_stacktrace.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 1776b85..f1b3fcc 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -285,6 +285,9 @@ sr_core_stacktrace_to_json(struct sr_core_stacktrace *stacktrace)
     g_string_append(strbuf, ",   \"stacktrace\":\n");
 
     struct sr_core_thread *thread = stacktrace->threads;
+    if (!thread)
+        g_string_append(strbuf, "      [");
+
     while (thread)
     {
         if (thread == stacktrace->threads)
-- 
2.43.0


From 4f2828cc687fea4a491cd39aac605152c20ce4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 15/91] fix: mark the crash thread in JSON even if it has no
 frames

---
 lib/core_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 3522846..96b0e30 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -257,6 +257,8 @@ sr_core_thread_to_json(struct sr_core_thread *thread, bool is_crash_thread)
         g_string_append(strbuf, " ]\n");
         g_string_append(strbuf, "}");
     }
+    else if (is_crash_thread)
+        g_string_append(strbuf, "{   \"crash_thread\": true }");
     else
         g_string_append(strbuf, "{}");
 
-- 
2.43.0


From 4ff5a4e5d8d45677d71ab7b93c940ba2642c9739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 16/91] fix: koops_stacktrace: memory safety of reading modules
 from JSON

The array was resized to bytes instead of elements, and it was freed without
its terminator when a later part of the document was invalid.
---
 lib/koops_stacktrace.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 593cdee..5813fc4 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -696,7 +696,7 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
         array_length = json_object_array_length(modules);
 
         size_t allocated = 128;
-        result->modules = g_malloc_n(allocated, sizeof(char*));
+        result->modules = g_malloc0_n(allocated, sizeof(char*));
 
         for (i = 0; i < array_length; i++)
         {
@@ -714,9 +714,10 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
             if (i + 1 == allocated)
             {
                 allocated *= 2;
-                result->modules = g_realloc(result->modules, allocated);
+                result->modules = g_realloc_n(result->modules, allocated, sizeof(char*));
             }
             result->modules[i] = g_strdup(module);
+            result->modules[i + 1] = NULL;
         }
 
         result->modules[i] = NULL;
-- 
2.43.0


From f53d2a496a23fa661ef9dd147d999e8a1ade5310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 17/91] fix: js_stacktrace: the error message is optional when
 reading JSON

---
 lib/js_stacktrace.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 6b21672..376157d 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -337,9 +337,17 @@ sr_js_stacktrace_from_json(json_object *root, char **error_message)
 
     if (json_object_object_get_ex(root, "platform", &platform))
     {
-        result->platform = sr_js_platform_from_json(platform, error_message);
-        if (*error_message)
+        char *platform_error = NULL;
+
+        result->platform = sr_js_platform_from_json(platform, &platform_error);
+        if (platform_error)
+        {
+            if (error_message)
+                *error_message = platform_error;
+            else
+                g_free(platform_error);
             goto fail;
+        }
     }
 
     return result;
-- 
2.43.0


From b4d14fe67a4b60f987bd3c21feb36ffc1316e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 18/91] fix: js_platform: do not swap runtime and engine when
 reading JSON

---
 lib/js_platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 738b59f..4d85182 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -231,7 +231,7 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     }
 
     platform = sr_js_platform_new();
-    sr_js_platform_init(platform, engine, runtime);
+    sr_js_platform_init(platform, runtime, engine);
 
 fail:
     g_free(engine_str);
-- 
2.43.0


From 99f984d4f9e86d3772ca1d87ba55be34a2811b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:49 +0000
Subject: [PATCH 19/91] fix: gdb_stacktrace: the error message is optional when
 reading JSON

---
 lib/gdb_stacktrace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 3380b67..6aa6314 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -48,7 +48,8 @@ gdb_return_null(struct sr_stacktrace *stacktrace)
 static struct sr_gdb_stacktrace *
 gdb_from_json(json_object *root, char **error_message)
 {
-    *error_message = g_strdup("Not implemented");
+    if (error_message)
+        *error_message = g_strdup("Not implemented");
     return NULL;
 }
 
-- 
2.43.0


From 3717af31ff6475134a51d968c32b33b1ba0a26b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 20/91] fix: report: read the user from the problem object,
 where it is written

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 2e3a9de..a19653e 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -378,7 +378,7 @@ sr_report_from_json(json_object *root, char **error_message)
         /* User. */
         json_object *user;
 
-        if (json_object_object_get_ex(root, "user", &user))
+        if (json_object_object_get_ex(problem, "user", &user))
         {
             success =
                 json_check_type(user, json_type_object, "user", error_message) &&
-- 
2.43.0


From ff2a0e3f366393131ddbf47945cfc499aa664c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 21/91] fix: operating_system: read the CPE name from JSON

---
 lib/operating_system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index ae9a08f..429c4cb 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -137,6 +137,7 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_STRING(root, "name", &result->name) &&
         JSON_READ_STRING(root, "version", &result->version) &&
         JSON_READ_STRING(root, "architecture", &result->architecture) &&
+        JSON_READ_STRING(root, "cpe", &result->cpe) &&
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-- 
2.43.0


From ab22bd1c411fff8050200ca62a5389bddee28e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 22/91] fix: operating_system: do not report an error that is
 not fatal

The caller got both a result and an error message, or the message of the
fatal error was overwritten.
---
 lib/operating_system.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 429c4cb..4983cde 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -141,9 +141,9 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-    JSON_READ_STRING(root, "desktop", &result->desktop);
+    json_read_string(root, "desktop", &result->desktop, NULL);
     /* variant is optional - failure is not fatal */
-    JSON_READ_STRING(root, "variant", &result->variant);
+    json_read_string(root, "variant", &result->variant, NULL);
 
     if (!success)
     {
-- 
2.43.0


From 71efa716a7a5e8c3b54d338ae77dd54a0caacc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 23/91] fix: report: do not report an error for a skipped auth
 entry

---
 lib/report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index a19653e..3948944 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -431,7 +431,8 @@ sr_report_from_json(json_object *root, char **error_message)
             child_name = lh_entry_k(entry);
             child_value = lh_entry_v(entry);
 
-            if (!json_check_type(child_value, json_type_string, child_name, error_message))
+            /* entries that are not text are skipped, it's not an error */
+            if (!json_check_type(child_value, json_type_string, child_name, NULL))
                 continue;
 
             string = json_object_get_string(child_value);
-- 
2.43.0


From 63ef4c4bf73c28d3e4ebbf103e858386860554b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 24/91] fix: report: escape name and version of the reporter

---
 lib/report.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 3948944..17f2799 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -209,9 +209,12 @@ sr_report_to_json(struct sr_report *report)
     assert(report->reporter_name);
     assert(report->reporter_version);
 
-    char *reporter = g_strdup_printf("{   \"name\": \"%s\"\n,   \"version\": \"%s\"\n}",
-                                 report->reporter_name,
-                                 report->reporter_version);
+    GString *reporter_buf = g_string_new("{   \"name\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_name);
+    g_string_append(reporter_buf, "\n,   \"version\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_version);
+    g_string_append(reporter_buf, "\n}");
+    char *reporter = g_string_free(reporter_buf, FALSE);
     char *reporter_indented = sr_indent_except_first_line(reporter, strlen(",   \"reporter\": "));
     g_free(reporter);
     g_string_append_printf(strbuf,
-- 
2.43.0


From 171124a15f16630989e68a4906cf8ec3ab91a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 25/91] fix: report: read stacktraces of JavaScript reports

---
 lib/report.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/report.c b/lib/report.c
index 17f2799..77bd1d3 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -404,6 +404,7 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_KERNELOOPS:
         case SR_REPORT_JAVA:
         case SR_REPORT_RUBY:
+        case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
             break;
         default:
-- 
2.43.0


From 13cf033ac312cf039d9e5daac2314f406fbdb9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 26/91] fix: report: refuse a report with an invalid stacktrace

---
 lib/report.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/report.c b/lib/report.c
index 77bd1d3..3e81540 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -406,6 +406,8 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_RUBY:
         case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
+            if (!report->stacktrace)
+                goto fail;
             break;
         default:
             /* Invalid report type -> no stacktrace. */
-- 
2.43.0


From 179278ff86847cf154ae705edf63f31b6ecae304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 27/91] fix: report: write valid JSON for an empty or
 unsupported stacktrace

An empty stacktrace left a stray comma behind, and a gdb one hit an assertion.
---
 lib/report.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 3e81540..e848a05 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -158,8 +158,12 @@ problem_object_string(struct sr_report *report, const char *report_type)
     if (report->stacktrace)
     {
         char *stacktrace = sr_stacktrace_to_json(report->stacktrace);
-        dismantle_object(stacktrace);
-        g_string_append(strbuf, stacktrace);
+        /* some types cannot be written, and there may be nothing to write */
+        if (stacktrace && 0 != strcmp(stacktrace, "{}"))
+        {
+            dismantle_object(stacktrace);
+            g_string_append(strbuf, stacktrace);
+        }
         g_free(stacktrace);
     }
 
-- 
2.43.0


From 71d95723b0585142f4dbe1b50da4b74e16a0d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 28/91] fix: report: do not crash when writing a report without
 a stacktrace

---
 lib/report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index e848a05..402d2ad 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -200,7 +200,8 @@ sr_report_to_json(struct sr_report *report)
     case SR_REPORT_RUBY:
     case SR_REPORT_JAVASCRIPT:
         report_type = sr_report_type_to_string(report->report_type);
-        reason = sr_stacktrace_get_reason(report->stacktrace);
+        reason = report->stacktrace ? sr_stacktrace_get_reason(report->stacktrace)
+                                    : g_strdup("invalid");
         break;
     }
 
-- 
2.43.0


From 4e9607a0e88f8072a9f0a3610a7fa436ecff652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 29/91] fix: do not use a missing file name in the reason

---
 lib/js_stacktrace.c     | 3 ++-
 lib/python_stacktrace.c | 3 ++-
 lib/ruby_stacktrace.c   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 376157d..26c5b6a 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -367,7 +367,8 @@ sr_js_stacktrace_get_reason(struct sr_js_stacktrace *stacktrace)
     struct sr_js_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
         column = frame->line_column;
     }
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index ce913a1..1230030 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -335,7 +335,8 @@ sr_python_stacktrace_get_reason(struct sr_python_stacktrace *stacktrace)
 
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
     }
 
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 109ad7d..28452f1 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -371,7 +371,8 @@ sr_ruby_stacktrace_get_reason(struct sr_ruby_stacktrace *stacktrace)
     struct sr_ruby_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
     }
 
-- 
2.43.0


From da10c96c24f74ccdfa7eb1f6cdb46dc73748a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 30/91] fix: compare package epochs and install times without
 overflow

---
 lib/rpm.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 5488d73..8bbeed0 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -77,9 +77,8 @@ sr_rpm_package_cmp(struct sr_rpm_package *package1,
         return nevra;
 
     /* Install time. */
-    int64_t install_time = package1->install_time - package2->install_time;
-    if (install_time != 0)
-        return install_time;
+    if (package1->install_time != package2->install_time)
+        return package1->install_time < package2->install_time ? -1 : 1;
 
     /* Consistency. */
     int consistency = sr_rpm_consistency_cmp_recursive(package1->consistency,
@@ -100,9 +99,8 @@ sr_rpm_package_cmp_nevra(struct sr_rpm_package *package1,
         return nvr;
 
     /* Epoch. */
-    int32_t epoch = package1->epoch - package2->epoch;
-    if (epoch != 0)
-        return epoch;
+    if (package1->epoch != package2->epoch)
+        return package1->epoch < package2->epoch ? -1 : 1;
 
     /* Architecture. */
     int architecture = g_strcmp0(package1->architecture,
-- 
2.43.0


From 6b3d5a11b4fb31969efd0b364e0d9f076588bf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 31/91] fix: sorting an empty list of packages

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 8bbeed0..dcd921b 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -172,6 +172,9 @@ sr_rpm_package_count(struct sr_rpm_package *packages)
 struct sr_rpm_package *
 sr_rpm_package_sort(struct sr_rpm_package *packages)
 {
+    if (!packages)
+        return NULL;
+
     size_t count = sr_rpm_package_count(packages);
     struct sr_rpm_package **array = g_malloc_n(count, sizeof(struct sr_rpm_package*));
 
-- 
2.43.0


From e380a71f946effb08af9f75d2aa9271e11b3ebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 32/91] fix: JSON of an empty list of packages

---
 lib/rpm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index dcd921b..d56c411 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -472,11 +472,10 @@ sr_rpm_package_to_json(struct sr_rpm_package *package,
     if (recursive)
     {
         struct sr_rpm_package *p = package;
+        g_string_append(strbuf, "[ ");
         while (p)
         {
-            if (p == package)
-                g_string_append(strbuf, "[ ");
-            else
+            if (p != package)
                 g_string_append(strbuf, ", ");
 
             char *package_json = sr_rpm_package_to_json(p, false);
-- 
2.43.0


From 0890150ee1e0f8c2ff08e42c994c151108160ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 33/91] fix: report a failure to read a single package from
 JSON

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index d56c411..442054e 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -625,7 +625,7 @@ sr_rpm_package_from_json(struct sr_rpm_package **rpm_package, json_object *json,
     if (!recursive)
     {
         *rpm_package = single_rpm_package_from_json(json, error_message);
-        return 0;
+        return *rpm_package ? 0 : -2;
     }
     else
     {
-- 
2.43.0


From c06f41b3ec43b97bf16e97e6c269212d3801e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 34/91] fix: a package without release or architecture

---
 lib/rpm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 442054e..5e48bf1 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -669,7 +669,7 @@ sr_rpm_package_parse_nvr(const char *text,
     if (!last_dash)
         return false;
 
-    if (0 == strlen(last_dash))
+    if (0 == strlen(last_dash + 1))
         return false;
 
     char *last_but_one_dash = last_dash;
@@ -708,7 +708,7 @@ sr_rpm_package_parse_nevra(const char *text,
                            char **architecture)
 {
     char *last_dot = strrchr(text, '.');
-    if (!last_dot || 0 == strlen(last_dot))
+    if (!last_dot || 0 == strlen(last_dot + 1))
         return false;
 
     char *last_dash = strrchr(text, '-');
-- 
2.43.0


From 92dd45c6cbb3cf119663903d165eebc9697c65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 35/91] fix: double free after a package with an invalid epoch

---
 lib/rpm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 5e48bf1..52942d4 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -764,8 +764,10 @@ sr_rpm_package_parse_nevra(const char *text,
         if (failure)
         {
             g_free(epoch_str);
+            g_free(*version);
             g_free(*release);
             g_free(*architecture);
+            *version = *release = *architecture = NULL;
             return false;
         }
 
-- 
2.43.0


From 4161b8c2714df4abd3f7ab39dc6fab8554b2c3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 36/91] fix: installed packages without an epoch

---
 lib/rpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 52942d4..9de55b3 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -329,7 +329,9 @@ header_to_rpm_info(Header header,
         return NULL;
     }
 
-    bool success = header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch);
+    /* Most packages have no epoch. */
+    bool success = !headerIsEntry(header, RPMTAG_EPOCH) ||
+                   header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch);
     if (!success)
     {
         *error_message = g_strdup_printf("Failed to find package epoch.");
-- 
2.43.0


From c5d07bb8146c24cca6379e1a5b784151e1ab0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 37/91] fix: problem directories of type JavaScript

---
 lib/abrt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 2ed28d4..efaae92 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -853,6 +853,9 @@ sr_abrt_type_from_type(const char *type)
         return SR_REPORT_PYTHON;
     else if (0 == strncmp(type, "Kerneloops", 10))
         return SR_REPORT_KERNELOOPS;
+    /* Before Java, which is its prefix. */
+    else if (0 == strncmp(type, "JavaScript", 10))
+        return SR_REPORT_JAVASCRIPT;
     else if (0 == strncmp(type, "Java", 4))
         return SR_REPORT_JAVA;
     else if (0 == strncmp(type, "Ruby", 4))
-- 
2.43.0


From a6ad2e9852416513f38de3c7ba5a193fcd6dbe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 38/91] fix: lines of a DSO list

---
 lib/abrt.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index efaae92..63e25af 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -208,20 +208,27 @@ sr_abrt_parse_dso_list(const char *text)
     const char *pos = text;
     while (pos && *pos)
     {
+        // Do not look beyond the end of the line.
+        const char *eol = strchrnul(pos, '\n');
+        const char *next_line = (*eol ? eol + 1 : eol);
+
         // Skip dynamic library name.
-        pos = strchr(pos, ' ');
+        pos = memchr(pos, ' ', eol - pos);
 
         if (!pos)
+        {
+            pos = next_line;
             continue;
+        }
 
         // Skip the space.
         ++pos;
 
         // Find the package NEVRA.
-        char *end = strchr(pos, ' ');
+        char *end = memchr(pos, ' ', eol - pos);
         if (!end || end - pos <= 1)
         {
-            pos = strchr(pos, '\n');
+            pos = next_line;
             continue;
         }
 
@@ -241,23 +248,16 @@ sr_abrt_parse_dso_list(const char *text)
         if (!success)
         {
             sr_rpm_package_free(dso_package, true);
-            pos = strchr(pos, '\n');
+            pos = next_line;
             continue;
         }
 
         // Find the package install time.
-        char *eol = strchr(pos, '\n');
-        if (!eol)
-        {
-            sr_rpm_package_free(dso_package, true);
-            break;
-        }
-
         char *line = g_strndup(pos, eol - pos);
         pos = strrchr(line, ' ');
         if (!pos)
         {
-            pos = eol;
+            pos = next_line;
             sr_rpm_package_free(dso_package, true);
             g_free(line);
             continue;
@@ -272,14 +272,14 @@ sr_abrt_parse_dso_list(const char *text)
 
         if (len <= 0)
         {
-            pos = eol;
+            pos = next_line;
             sr_rpm_package_free(dso_package, true);
             continue;
         }
 
         // Append the package to the list.
         packages = sr_rpm_package_append(packages, dso_package);
-        pos = eol;
+        pos = next_line;
     }
 
     return packages;
-- 
2.43.0


From 88c7eddf5ccd1cc3c7df7bdd7c1e618206e39750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 39/91] fix: refuse an epoch that is not a number

---
 lib/abrt.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 63e25af..aa80f33 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -303,10 +303,15 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     {
         return NULL;
     }
-    unsigned long epoch = strtoul(epoch_str, NULL, 10);
-    if (epoch == ULONG_MAX)
+    strip_newline(epoch_str);
+    char *endptr = NULL;
+    errno = 0;
+    unsigned long epoch = strtoul(epoch_str, &endptr, 10);
+    if (errno || endptr == epoch_str || *endptr || epoch > UINT32_MAX)
     {
         *error_message = g_strdup_printf("Epoch '%s' is not a number", epoch_str);
+        g_free(epoch_str);
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
     g_free(epoch_str);
-- 
2.43.0


From ab2218a1b4c00d1a4b562a0b47cddcd0692f3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 40/91] fix: a DSO list without packages

---
 lib/abrt.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index aa80f33..7156767 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -341,29 +341,28 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     return packages;
 }
 
-static struct sr_rpm_package *
-rpm_dso_list_from_dir(struct sr_rpm_package *packages,
+static bool
+rpm_dso_list_from_dir(struct sr_rpm_package **packages,
                       const char *directory,
                       char **error_message)
 {
     char *dso_list_contents = file_contents(directory, "dso_list",
                                             error_message);
-    if (dso_list_contents)
-    {
-        struct sr_rpm_package *dso_packages =
-            sr_abrt_parse_dso_list(dso_list_contents);
+    if (!dso_list_contents)
+        return false;
 
-        if (dso_packages)
-        {
-            packages = sr_rpm_package_append(packages, dso_packages);
-            packages = sr_rpm_package_sort(packages);
-            packages = sr_rpm_package_uniq(packages);
-        }
+    struct sr_rpm_package *dso_packages =
+        sr_abrt_parse_dso_list(dso_list_contents);
 
-        g_free(dso_list_contents);
+    if (dso_packages)
+    {
+        *packages = sr_rpm_package_append(*packages, dso_packages);
+        *packages = sr_rpm_package_sort(*packages);
+        *packages = sr_rpm_package_uniq(*packages);
     }
 
-    return packages;
+    g_free(dso_list_contents);
+    return true;
 }
 
 static struct sr_rpm_package *
@@ -428,8 +427,7 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
     /* if dso_list doesn't exist, do not attach it */
     if (file_exist(directory, "dso_list"))
     {
-        *packages = rpm_dso_list_from_dir(*packages, directory, error_message);
-        if (!*packages)
+        if (!rpm_dso_list_from_dir(packages, directory, error_message))
             return -2;
     }
 
-- 
2.43.0


From 53d063618011df0df62b5ee81823c111ba87c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 41/91] fix: count 0 after an earlier failed call

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 7156767..e4f1fcc 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -482,6 +482,7 @@ occurrences_from_dir(const char *directory,
 
     char *endptr = NULL;
     bool result = false;
+    errno = 0;
     const long count = strtol(count_contents, &endptr , 10);
 
     /* Check for various possible errors */
-- 
2.43.0


From fa65696f9dc91f527dd85b8660571a45453460fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 42/91] fix: no error message for files that need not be there

---
 lib/abrt.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index e4f1fcc..0a4451f 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -51,6 +51,17 @@ file_contents(const char *directory, const char *file, char **error_message)
     return contents;
 }
 
+/* A file that need not be there: failure to read it is not an error. */
+static char*
+optional_file_contents(const char *directory, const char *file)
+{
+    char *error_message = NULL;
+    char *contents = file_contents(directory, file, &error_message);
+
+    g_free(error_message);
+    return contents;
+}
+
 bool
 sr_abrt_print_report_from_dir(const char *directory,
                                char **error_message)
@@ -370,8 +381,7 @@ rpm_interpreter_from_dir(struct sr_rpm_package *packages,
                          const char *directory,
                          char **error_message)
 {
-    char *interpreter_str = file_contents(directory, "interpreter",
-                                          error_message);
+    char *interpreter_str = optional_file_contents(directory, "interpreter");
     if (interpreter_str)
     {
         struct sr_rpm_package *interpreter_package = sr_rpm_package_new();
@@ -442,7 +452,7 @@ static char *
 desktop_from_dir(const char *directory,
                     char **error_message)
 {
-    char *environ_contents = file_contents(directory, "environ", error_message);
+    char *environ_contents = optional_file_contents(directory, "environ");
     if (!environ_contents)
         return NULL;
 
@@ -524,12 +534,12 @@ get_component(const char *directory,
               char **error_message)
 {
     if (is_packaged(directory))
-        return file_contents(directory, "component", error_message);
+        return optional_file_contents(directory, "component");
 
     /* create component from executable basename concatenated with '-unpackaged' str */
     if (file_exist(directory, "executable"))
     {
-        char *executable = file_contents(directory, "executable", error_message);
+        char *executable = optional_file_contents(directory, "executable");
         if (executable)
         {
             const char *basename = strrchr(executable, '/');
@@ -555,7 +565,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     bool success = false;
     struct sr_operating_system *os = sr_operating_system_new();
 
-    char *osinfo_contents = file_contents(directory, "os_info", error_message);
+    char *osinfo_contents = optional_file_contents(directory, "os_info");
     if (osinfo_contents)
     {
         success = sr_operating_system_parse_etc_os_release(osinfo_contents, os);
@@ -565,8 +575,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     /* fall back to os_release if parsing os_info fails */
     if (!success)
     {
-        char *release_contents = file_contents(directory, "os_release",
-                                               error_message);
+        char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
             success = sr_operating_system_parse_etc_system_release(release_contents,
-- 
2.43.0


From 39824834306c47ce485202f616a1b210a68a84b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:57 +0000
Subject: [PATCH 43/91] fix: DESKTOP_SESSION after a variable whose name ends
 with it

---
 lib/abrt.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 0a4451f..4bdf8df 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -457,15 +457,13 @@ desktop_from_dir(const char *directory,
         return NULL;
 
     char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
-    if (!desktop)
-    {
-        g_free(environ_contents);
-        return NULL;
-    }
 
     /* avoid prefixes - DESKTOP_SESSION= must either be
        the very first variable or preceeded by a newline */
-    if (desktop != environ_contents && *(desktop - 1) != '\n')
+    while (desktop && desktop != environ_contents && *(desktop - 1) != '\n')
+        desktop = strstr(desktop + 1, "DESKTOP_SESSION=");
+
+    if (!desktop)
     {
         g_free(environ_contents);
         return NULL;
-- 
2.43.0


From 439807ca53c57e5a5c84cb0985235cbbf22e31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 44/91] fix: cause after suppressed exceptions is lost

---
 lib/java_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 7a19ffc..deee7ea 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -339,7 +339,7 @@ sr_java_frame_parse_exception(const char **input,
 
         /* Suppressed exceptions follow after the end of current exception */
         if (strncmp("Suppressed: ", cursor, strlen("Suppressed: ")) == 0)
-            goto current_exception_done;
+            goto skip_suppressed;
 
         /* The top most exception does not have '...' at its end */
         if (strncmp("Caused by: ", cursor, strlen("Caused by: ")) == 0)
@@ -376,6 +376,7 @@ current_exception_done:
     cursor = sr_skip_whitespace(mark);
     sr_location_add(location, 0, cursor - mark);
 
+skip_suppressed:
     if (strncmp("Suppressed: ", cursor, strlen("Suppressed: ")) == 0)
     {
         /* Skip all lines related to the suppressed exception. We can do
-- 
2.43.0


From 730a6ba3b6e373367cfe739f7307216aa73f1dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 45/91] fix: frame taken for an empty exception message

---
 lib/java_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index deee7ea..a44c75b 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -300,8 +300,7 @@ sr_java_frame_parse_exception(const char **input,
         mark = cursor;
 
         /* foo */
-        cursor = sr_skip_whitespace(mark);
-        sr_location_add(location, 0, cursor - mark);
+        sr_location_add(location, 0, sr_skip_char_span(&cursor, " \t"));
         mark = cursor;
 
         sr_location_add(location, 0, sr_skip_char_cspan(&cursor, "\n"));
-- 
2.43.0


From 5bc4e2723c2cdf111f95d3fde1d0d2c233897abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:08 +0000
Subject: [PATCH 46/91] fix: blank lines at the end of Java stack traces

---
 lib/java_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index a44c75b..0a9452e 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -332,6 +332,10 @@ sr_java_frame_parse_exception(const char **input,
         cursor = sr_skip_whitespace(mark);
         sr_location_add(location, 0, cursor - mark);
 
+        /* Blank lines may follow the last frame */
+        if (*cursor == '\0')
+            break;
+
         /* Each inner exception has '...' at its end */
         if (strncmp("... ", cursor, strlen("... ")) == 0)
             goto current_exception_done;
-- 
2.43.0


From b029d82bb303b89aa96e5f06a1b33bd54d60376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:06 +0000
Subject: [PATCH 47/91] fix: reading past the end of Python stack traces

---
 lib/python_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index f291851..e67daac 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -236,7 +236,7 @@ sr_python_frame_parse(const char **input,
     {
         /* Skip the error location line */
         sr_skip_char_cspan(&local_input, "\n");
-        ++local_input;
+        sr_skip_char(&local_input, '\n');
         *input = local_input;
     }
 
-- 
2.43.0


From c8e29e69d8d18211ca30bd9c0fa375ce37a4f25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:06 +0000
Subject: [PATCH 48/91] fix: operators in Ruby stack traces

---
 lib/ruby_frame.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 0811c29..a25acc5 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -298,29 +298,25 @@ sr_ruby_frame_parse(const char **input,
         location->column += len + strlen(" levels) in ");
     }
 
-    if (sr_skip_char(&local_input, '<'))
-    {
-        location->column++;
-        frame->special_function = true;
-    }
-
-    if (!sr_parse_char_cspan(&local_input, "'>", &frame->function_name))
+    if (!sr_parse_char_cspan(&local_input, "'", &frame->function_name))
     {
         location->message = g_strdup("Unable to find the \"'\" character "
                                       "delimiting the function name.");
         goto fail;
     }
-    location->column += strlen(frame->function_name);
+    size_t name_len = strlen(frame->function_name);
+    location->column += name_len;
 
-    if (frame->special_function)
+    /* Names like <main> and <class:Foo> are special, operators such as <=>,
+     * << and > are not.
+     */
+    if (name_len > 2 && frame->function_name[0] == '<' &&
+        isalpha((unsigned char)frame->function_name[1]) &&
+        frame->function_name[name_len - 1] == '>')
     {
-        if (!sr_skip_char(&local_input, '>'))
-        {
-            location->message = g_strdup("Unable to find the \">\" character "
-                                          "delimiting the function name.");
-            goto fail;
-        }
-        location->column++;
+        frame->special_function = true;
+        memmove(frame->function_name, frame->function_name + 1, name_len - 2);
+        frame->function_name[name_len - 2] = '\0';
     }
 
     if (!sr_skip_char(&local_input, '\''))
-- 
2.43.0


From 408de1352eec10dfd061719c164edfcbae7065e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:06 +0000
Subject: [PATCH 49/91] fix: tabs in messages of Ruby exceptions, last newline

---
 lib/ruby_stacktrace.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 28452f1..45178a4 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -157,7 +157,9 @@ sr_ruby_stacktrace_parse(const char **input,
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      *                                ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
      */
-    if (!sr_parse_char_cspan(&local_input, "\t", &message_and_class))
+    const char *next_frame = strstr(local_input, "\n\tfrom ");
+    size_t l = next_frame ? (size_t)(next_frame - local_input) + 1 : strlen(local_input);
+    if (l == 0)
     {
         location->message = g_strdup("Unable to find the exception type and message.");
         goto fail;
@@ -166,17 +168,14 @@ sr_ruby_stacktrace_parse(const char **input,
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      *                                                                    ^^
      */
-    size_t l = strlen(message_and_class);
+    message_and_class = g_strndup(local_input, l);
+    local_input += l;
     location->column += l;
 
-    char *p = message_and_class + l - 1;
-    if (p < message_and_class || *p != '\n')
-    {
-        location->column--;
-        location->message = g_strdup("Unable to find the new line character after "
-                                      "the end of exception class");
-        goto fail;
-    }
+    /* The newline may be missing at the end of the stack trace. */
+    char *p = message_and_class + l;
+    if (p[-1] == '\n')
+        p--;
 
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      *                                                                   ^
-- 
2.43.0


From b8c673721c24ce13b05746d1e3891dfdef8b2774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:45 +0000
Subject: [PATCH 50/91] fix: line after the instruction pointer is skipped

---
 lib/koops_stacktrace.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 5813fc4..31c3d24 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -244,7 +244,7 @@ parse_IP(const char **input)
             return NULL;
 
         /* The address is there twice, skip the first one */
-        if (!sr_skip_char_cspan(&local_input, " \t"))
+        if (!sr_skip_char_cspan(&local_input, " \t\n"))
             return NULL;
 
         if (!sr_skip_char_span(&local_input, " \t"))
@@ -253,6 +253,10 @@ parse_IP(const char **input)
         frame = sr_koops_frame_parse(&local_input);
         if (!frame)
             return NULL;
+
+        /* The frame includes the end of line */
+        *input = local_input;
+        return frame;
     }
     else if(sr_skip_string(&local_input, "EIP:"))
     {
-- 
2.43.0


From 3f0182cda80b54b9f757ad916343527ae52c3d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:31 +0000
Subject: [PATCH 51/91] fix: address taken from text that is no address

---
 lib/koops_frame.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index f98e294..531bdd4 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -471,7 +471,8 @@ sr_koops_parse_address(const char **input, uint64_t *address)
 
     bool angle = sr_skip_char(&local_input, '<');
 
-    int len = sr_parse_hexadecimal_uint64(&local_input, address);
+    uint64_t value;
+    int len = sr_parse_hexadecimal_uint64(&local_input, &value);
     if (!len)
         return false;
 
@@ -481,6 +482,7 @@ sr_koops_parse_address(const char **input, uint64_t *address)
     if (!sr_skip_char(&local_input, ']'))
         return false;
 
+    *address = value;
     *input = local_input;
     return true;
 }
-- 
2.43.0


From 16b9161e7e4df156cf095c822bf7643ac523e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:47 +0000
Subject: [PATCH 52/91] fix: do not read past the end of a gdb frame cut after
 an operator or a parenthesis

---
 lib/gdb_frame.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 28fc4de..3eb7492 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -435,6 +435,8 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
         {
             /* Space is allowed after operator even when it
                is not normally allowed. */
+            if (*local_input == '\0')
+                break;
             if (sr_skip_char(&local_input, ' '))
             {
                 /* ...but if ( follows, it is not allowed. */
@@ -820,7 +822,7 @@ sr_gdb_frame_skip_function_args(const char **input,
     int depth = 0;
     bool string = false;
     bool escape = false;
-    do
+    while (*local_input)
     {
         /* Sometimes function args would be too long so printer
          * truncates them. See frame #33 in rhbz#803600.
@@ -859,7 +861,6 @@ sr_gdb_frame_skip_function_args(const char **input,
         sr_location_eat_char(location, *local_input);
         ++local_input;
     }
-    while (*local_input);
 
     if (depth != 0 || string || escape)
     {
-- 
2.43.0


From 98a43bc1bcb62104b9aa8e33586e59628e113899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 53/91] fix: read gdb frames of functions whose name starts
 with vtable

---
 lib/gdb_frame.c | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 3eb7492..e01667c 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -970,34 +970,16 @@ sr_gdb_frame_parse_address_in_function(const char **input,
             return false;
         }
 
-        /* C++ specific case for "0xfafa in vtable for function ()" */
-        chars = sr_skip_string(&local_input, "vtable");
-        location->column += chars;
-        if (0 <  chars)
+        /* C++ specific case for "0xfafa in vtable for function ()",
+           not to be confused with a function called vtable. */
+        const char *vtable_input = local_input;
+        if (sr_skip_string(&vtable_input, "vtable")
+            && sr_skip_char_sequence(&vtable_input, ' ')
+            && sr_skip_string(&vtable_input, "for")
+            && sr_skip_char_sequence(&vtable_input, ' '))
         {
-            chars = sr_skip_char_sequence(&local_input, ' ');
-            location->column += chars;
-            if (0 == chars)
-            {
-                location->message = "Space expected after 'vtable'.";
-                return false;
-            }
-
-            chars = sr_skip_string(&local_input, "for");
-            location->column += chars;
-            if (0 == chars)
-            {
-                location->message = "Keyword \"for\" expected.";
-                return false;
-            }
-
-            chars = sr_skip_char_sequence(&local_input, ' ');
-            location->column += chars;
-            if (0 == chars)
-            {
-                location->message = "Space expected after 'for'.";
-                return false;
-            }
+            location->column += vtable_input - local_input;
+            local_input = vtable_input;
         }
     }
 
-- 
2.43.0


From f446d53d9a657631c4e04510e10808aad02e68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 54/91] fix: read gdb frames of typed functions whose name
 starts with const

---
 lib/gdb_frame.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index e01667c..a3d2c1f 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -603,6 +603,20 @@ sr_gdb_frame_parse_function_name_template(const char **input, char **target)
     return total_char_count;
 }
 
+/* Skips the suffix "const"; a longer word that starts with it is not the
+ * suffix. */
+static int
+skip_const_suffix(const char **input)
+{
+    const char *local_input = *input;
+    int chars = sr_skip_string(&local_input, "const");
+    if (0 == chars || strspn(local_input, SR_space) == 0)
+        return 0;
+
+    *input = local_input;
+    return chars;
+}
+
 bool
 sr_gdb_frame_parse_function_name(const char **input,
                                  char **function_name,
@@ -699,7 +713,7 @@ sr_gdb_frame_parse_function_name(const char **input,
 
     /* Some C++ function names and function types might contain suffix
        " const". */
-    int chars = sr_skip_string(&local_input, "const");
+    int chars = skip_const_suffix(&local_input);
     if (0 < chars)
     {
         g_string_append_c(buf0, space);
@@ -769,7 +783,7 @@ sr_gdb_frame_parse_function_name(const char **input,
     }
 
     /* Again, some C++ function names might contain suffix " const" */
-    chars = sr_skip_string(&local_input, "const");
+    chars = skip_const_suffix(&local_input);
     if (0 < chars)
     {
         GString *buf = buf1 ? buf1 : buf0;
-- 
2.43.0


From 957d198fd2b295e50380b913be9a18689d4a259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:06 +0000
Subject: [PATCH 55/91] fix: do not take a character literal in gdb parameters
 for a quote or a parenthesis

---
 lib/gdb_frame.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index a3d2c1f..23ee215 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -860,7 +860,14 @@ sr_gdb_frame_skip_function_args(const char **input,
         }
         else
         {
-            if (*local_input == '"')
+            /* Character literals such as '"' or ')' stand for themselves. */
+            if (*local_input == '\'' && local_input[1] != '\\'
+                && local_input[1] != '\0' && local_input[2] == '\'')
+            {
+                sr_location_eat_char(location, *local_input++);
+                sr_location_eat_char(location, *local_input++);
+            }
+            else if (*local_input == '"')
                 string = true;
             else if (*local_input == '(')
                 ++depth;
-- 
2.43.0


From 476d63e4806770fa95c26f831661243d0b6e6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:14 +0000
Subject: [PATCH 56/91] fix: do not read past the end of a gdb frame cut after
 an operator and a space

---
 lib/gdb_frame.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 23ee215..6d07a39 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -435,8 +435,6 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
         {
             /* Space is allowed after operator even when it
                is not normally allowed. */
-            if (*local_input == '\0')
-                break;
             if (sr_skip_char(&local_input, ' '))
             {
                 /* ...but if ( follows, it is not allowed. */
@@ -448,6 +446,9 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
                 else
                     g_string_append_c(buf, ' ');
             }
+
+            if (*local_input == '\0')
+                break;
         }
 
         if (strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
-- 
2.43.0


From dcd9be7e3dd1772718ed3bd6af3a05964f892ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:33 +0000
Subject: [PATCH 57/91] fix: do not skip the terminator of a text as one of
 allowed characters

---
 lib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index 50b22dc..272bdd5 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -260,6 +260,8 @@ sr_skip_char(const char **input, char c)
 bool
 sr_skip_char_limited(const char **input, const char *allowed)
 {
+    if (**input == '\0')
+        return false;
     if (strchr(allowed, **input) == NULL)
         return false;
     ++*input;
-- 
2.43.0


From 7ed13c58e4ef95c7c916840796efc7ff0a52d0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:33 +0000
Subject: [PATCH 58/91] fix: parse the largest 64-bit number

---
 lib/utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 272bdd5..ba6f213 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -438,8 +438,7 @@ sr_parse_uint64(const char **input, uint64_t *result)
     char *endptr;
     errno = 0;
     unsigned long long result_tmp = strtoull(numstr, &endptr, 10);
-    bool failure = (errno || numstr == endptr || *endptr != '\0'
-                    || result_tmp == UINT64_MAX);
+    bool failure = (errno || numstr == endptr || *endptr != '\0');
     g_free(numstr);
     if (failure) /* number too big or some other error */
         return 0;
-- 
2.43.0


From 3de798ce184477b90d1878a8fbac00086cd7161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:33 +0000
Subject: [PATCH 59/91] fix: find characters above 127 in sr_strchr_location

---
 lib/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils.c b/lib/utils.c
index ba6f213..45dd7a1 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -99,7 +99,7 @@ sr_strchr_location(const char *s, int c, int *line, int *column)
         sr_location_eat_char_ext(line, column, *s);
         ++s;
     }
-    return ((*s == c) ? (char*)s : NULL);
+    return ((*s == (char)c) ? (char*)s : NULL);
 }
 
 char *
-- 
2.43.0


From b9d47881670343c267ea7ea36ff6a66a26e7a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:47 +0000
Subject: [PATCH 60/91] fix: Do not use the old frames, threads, libraries and
 packages once the list is empty

---
 python/py_base_stacktrace.c | 3 +++
 python/py_base_thread.c     | 3 +++
 python/py_gdb_stacktrace.c  | 4 ++++
 python/py_report.c          | 3 +++
 4 files changed, 13 insertions(+)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index a2f60ad..f324f09 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -185,6 +185,9 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
     PyObject *item;
     struct sr_py_base_thread *current = NULL, *prev = NULL;
 
+    /* the threads of the last call may not exist any more */
+    sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
+
     for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
     {
         item = PyList_GetItem(stacktrace->threads, i);
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index a61348d..03d970c 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -119,6 +119,9 @@ frames_prepare_linked_list(struct sr_py_base_thread *thread)
     PyObject *item;
     struct sr_py_base_frame *current = NULL, *prev = NULL;
 
+    /* the frames of the last call may not exist any more */
+    sr_thread_set_frames(thread->thread, NULL);
+
     for (i = 0; i < PyList_Size(thread->frames); ++i)
     {
         item = PyList_GetItem(thread->frames, i);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 35d9d65..f105a6a 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -148,6 +148,10 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
     int i;
     PyObject *item;
     struct sr_py_gdb_sharedlib *currentlib = NULL, *prevlib = NULL;
+
+    /* the libraries of the last call may not exist any more */
+    stacktrace->stacktrace->libs = NULL;
+
     for (i = 0; i < PyList_Size(stacktrace->libs); ++i)
     {
         item = PyList_GetItem(stacktrace->libs, i);
diff --git a/python/py_report.c b/python/py_report.c
index e2286ae..6251e5d 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -179,6 +179,9 @@ rpms_prepare_linked_list(struct sr_py_report *report)
     PyObject *item;
     struct sr_py_rpm_package *current = NULL, *prev = NULL;
 
+    /* the packages of the last call may not exist any more */
+    report->report->rpm_packages = NULL;
+
     for (i = 0; i < PyList_Size(report->packages); ++i)
     {
         item = PyList_GetItem(report->packages, i);
-- 
2.43.0


From d87cd2f8941f04b57c2bc3cdcf3052ec678b5286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:47 +0000
Subject: [PATCH 61/91] fix: Do not release a thread or a library twice when
 its successor in the list has a wrong type

---
 python/py_base_stacktrace.c | 6 +++++-
 python/py_gdb_stacktrace.c  | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index f324f09..70e953c 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -197,7 +197,7 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         Py_INCREF(item);
         if (!PyObject_TypeCheck(item, stacktrace->thread_type))
         {
-            Py_XDECREF(current);
+            Py_XDECREF(item);
             Py_XDECREF(prev);
             PyErr_Format(PyExc_TypeError,
                          "threads must be a list of %s objects",
@@ -208,7 +208,11 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         /* Note: this line is not present in frames_prepare_linked_list. */
         current = (struct sr_py_base_thread*)item;
         if (frames_prepare_linked_list(current) < 0)
+        {
+            Py_XDECREF(item);
+            Py_XDECREF(prev);
             return -1;
+        }
 
         if (i == 0)
             sr_stacktrace_set_threads(stacktrace->stacktrace, current->thread);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index f105a6a..af72cf7 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -161,7 +161,7 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
         Py_INCREF(item);
         if (!PyObject_TypeCheck(item, &sr_py_gdb_sharedlib_type))
         {
-            Py_XDECREF(currentlib);
+            Py_XDECREF(item);
             Py_XDECREF(prevlib);
             PyErr_SetString(PyExc_TypeError,
                             "libs must be a list of satyr.Sharedlib objects");
-- 
2.43.0


From d8423fd5c6dbf08cb56e75c007bf93fe500634fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:40 +0000
Subject: [PATCH 62/91] fix: Lists of frames, threads, libraries and packages
 cannot be deleted or replaced with something else

---
 python/py_base_stacktrace.c | 13 +++++-------
 python/py_base_thread.c     | 13 +++++++-----
 python/py_common.c          | 40 +++++++++++++++++++++++++++++++++++++
 python/py_common.h          |  9 +++++++++
 python/py_gdb_stacktrace.c  | 13 ++++++++++--
 python/py_report.c          | 26 ++++++++++++------------
 6 files changed, 86 insertions(+), 28 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 70e953c..54f1724 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -107,13 +107,6 @@ PyTypeObject sr_py_single_stacktrace_type = {
     NULL,                           /* tp_weaklist */
 };
 
-static PyMemberDef
-multi_members[] =
-{
-    { (char *)"threads", T_OBJECT_EX, offsetof(struct sr_py_multi_stacktrace, threads), 0, (char *)threads_doc },
-    { NULL },
-};
-
 static PyMethodDef
 multi_methods[] =
 {
@@ -123,9 +116,13 @@ multi_methods[] =
     { NULL },
 };
 
+static struct getset_offsets
+gsoff_threads = { .c_struct_offset = offsetof(struct sr_py_multi_stacktrace, threads) };
+
 static PyGetSetDef
 multi_getset[] =
 {
+    { (char *)"threads", sr_py_getter_object, sr_py_setter_list, (char *)threads_doc, &gsoff_threads },
     { (char *)"crash_thread", sr_py_multi_stacktrace_get_crash, sr_py_multi_stacktrace_set_crash, (char *)crash_thread_doc, NULL },
     { NULL },
 };
@@ -159,7 +156,7 @@ PyTypeObject sr_py_multi_stacktrace_type = {
     NULL,                           /* tp_iter */
     NULL,                           /* tp_iternext */
     multi_methods,                  /* tp_methods */
-    multi_members,                  /* tp_members */
+    NULL,                           /* tp_members */
     multi_getset,                   /* tp_getset */
     NULL,                           /* tp_base */
     NULL,                           /* tp_dict */
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 03d970c..27b3a5d 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -54,10 +54,13 @@ thread_methods[] =
     { NULL },
 };
 
-static PyMemberDef
-thread_members[] =
+static struct getset_offsets
+gsoff_frames = { .c_struct_offset = offsetof(struct sr_py_base_thread, frames) };
+
+static PyGetSetDef
+thread_getset[] =
 {
-    { (char *)"frames", T_OBJECT_EX, offsetof(struct sr_py_base_thread, frames), 0, (char *)frames_doc },
+    { (char *)"frames", sr_py_getter_object, sr_py_setter_list, (char *)frames_doc, &gsoff_frames },
     { NULL },
 };
 
@@ -92,8 +95,8 @@ sr_py_base_thread_type =
     NULL,                       /* tp_iter */
     NULL,                       /* tp_iternext */
     thread_methods,             /* tp_methods */
-    thread_members,             /* tp_members */
-    NULL,                       /* tp_getset */
+    NULL,                       /* tp_members */
+    thread_getset,              /* tp_getset */
     NULL,                       /* tp_base */
     NULL,                       /* tp_dict */
     NULL,                       /* tp_descr_get */
diff --git a/python/py_common.c b/python/py_common.c
index 40129b3..0342117 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -198,6 +198,46 @@ sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data)
     return 0;
 }
 
+PyObject *
+sr_py_getter_object(PyObject *self, void *data)
+{
+    struct getset_offsets *gsoff = data;
+
+    PyObject *object = MEMB_T(PyObject*, self, gsoff->c_struct_offset);
+    Py_INCREF(object);
+    return object;
+}
+
+int
+sr_py_setter_object(PyObject *self, PyObject *rhs, void *data)
+{
+    if (rhs == NULL)
+    {
+        PyErr_SetString(PyExc_TypeError, "Cannot delete this attribute.");
+        return -1;
+    }
+
+    struct getset_offsets *gsoff = data;
+
+    PyObject *old = MEMB_T(PyObject*, self, gsoff->c_struct_offset);
+    Py_INCREF(rhs);
+    MEMB_T(PyObject*, self, gsoff->c_struct_offset) = rhs;
+    Py_XDECREF(old);
+    return 0;
+}
+
+int
+sr_py_setter_list(PyObject *self, PyObject *rhs, void *data)
+{
+    if (rhs != NULL && !PyList_Check(rhs))
+    {
+        PyErr_SetString(PyExc_TypeError, "Value must be a list.");
+        return -1;
+    }
+
+    return sr_py_setter_object(self, rhs, data);
+}
+
 int
 sr_py_setter_readonly(PyObject *self, PyObject *rhs, void *data)
 {
diff --git a/python/py_common.h b/python/py_common.h
index f8bd726..fb575dc 100644
--- a/python/py_common.h
+++ b/python/py_common.h
@@ -128,6 +128,15 @@ PyObject *sr_py_getter_uint64(PyObject *self, void *data);
 /* NOTE: when rhs is None, the attribute is set to UINT64_MAX */
 int sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data);
 
+/*
+ * Getter and setters for Python objects stored directly in the Python object,
+ * at c_struct_offset. The member is never NULL: it cannot be deleted.
+ */
+PyObject *sr_py_getter_object(PyObject *self, void *data);
+int sr_py_setter_object(PyObject *self, PyObject *rhs, void *data);
+/* Only accepts a list. */
+int sr_py_setter_list(PyObject *self, PyObject *rhs, void *data);
+
 /* Just throws an exception. */
 int
 sr_py_setter_readonly(PyObject *self, PyObject *rhs, void *data);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index af72cf7..02a630b 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -85,7 +85,16 @@ static PyMemberDef
 gdb_stacktrace_members[] =
 {
     { (char *)"crashframe",  T_OBJECT_EX, offsetof(struct sr_py_gdb_stacktrace, crashframe),  READONLY, b_crashframe_doc  },
-    { (char *)"libs",        T_OBJECT_EX, offsetof(struct sr_py_gdb_stacktrace, libs),        0,        b_libs_doc        },
+    { NULL },
+};
+
+static struct getset_offsets
+gsoff_libs = { .c_struct_offset = offsetof(struct sr_py_gdb_stacktrace, libs) };
+
+static PyGetSetDef
+gdb_stacktrace_getset[] =
+{
+    { (char *)"libs", sr_py_getter_object, sr_py_setter_list, b_libs_doc, &gsoff_libs },
     { NULL },
 };
 
@@ -119,7 +128,7 @@ PyTypeObject sr_py_gdb_stacktrace_type = {
     NULL,                           /* tp_iternext */
     gdb_stacktrace_methods,               /* tp_methods */
     gdb_stacktrace_members,               /* tp_members */
-    NULL,                           /* tp_getset */
+    gdb_stacktrace_getset,          /* tp_getset */
     &sr_py_multi_stacktrace_type,   /* tp_base */
     NULL,                           /* tp_dict */
     NULL,                           /* tp_descr_get */
diff --git a/python/py_report.c b/python/py_report.c
index 6251e5d..b8fd9d3 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -58,6 +58,11 @@ GSOFF_MEMBER(component_name),
 GSOFF_MEMBER(serial)
 GSOFF_END
 
+static struct getset_offsets
+gsoff_stacktrace = { .c_struct_offset = offsetof(struct sr_py_report, stacktrace) },
+gsoff_operating_system = { .c_struct_offset = offsetof(struct sr_py_report, operating_system) },
+gsoff_packages = { .c_struct_offset = offsetof(struct sr_py_report, packages) };
+
 static PyGetSetDef
 report_getset[] =
 {
@@ -70,18 +75,13 @@ report_getset[] =
     { (char*)"report_version", sr_py_report_get_version, sr_py_setter_readonly, (char*)"Version of the report (int)", NULL },
     { (char*)"report_type", sr_py_report_get_type, sr_py_report_set_type, (char*)"Report type (string)", NULL },
     { (char*)"auth",        sr_py_report_get_auth, sr_py_report_set_auth, (char*)auth_doc, NULL               },
-    { NULL },
-};
-
-static PyMemberDef
-report_members[] =
-{
-    { (char*)"stacktrace", T_OBJECT_EX, offsetof(struct sr_py_report, stacktrace), 0,
-      (char*)"Problem stacktrace (:class:`SingleThreadStacktrace` or :class:`MultiThreadStacktrace` object)" },
-    { (char*)"operating_system", T_OBJECT_EX, offsetof(struct sr_py_report, operating_system), 0,
-      (char *)"Operating system (:class:`OperatingSystem` object)" },
-    { (char*)"packages", T_OBJECT_EX, offsetof(struct sr_py_report, packages), 0,
-      (char *)"List of packages (currently a list of :class:`RpmPackage` objects)" },
+    { (char*)"stacktrace", sr_py_getter_object, sr_py_setter_object,
+      (char*)"Problem stacktrace (:class:`SingleThreadStacktrace` or :class:`MultiThreadStacktrace` object)",
+      &gsoff_stacktrace },
+    { (char*)"operating_system", sr_py_getter_object, sr_py_setter_object,
+      (char *)"Operating system (:class:`OperatingSystem` object)", &gsoff_operating_system },
+    { (char*)"packages", sr_py_getter_object, sr_py_setter_list,
+      (char *)"List of packages (currently a list of :class:`RpmPackage` objects)", &gsoff_packages },
     { NULL },
 };
 
@@ -123,7 +123,7 @@ sr_py_report_type =
     NULL,                       /* tp_iter */
     NULL,                       /* tp_iternext */
     report_methods,             /* tp_methods */
-    report_members,             /* tp_members */
+    NULL,                       /* tp_members */
     report_getset,              /* tp_getset */
     NULL,                       /* tp_base */
     NULL,                       /* tp_dict */
-- 
2.43.0


From 4579d6c8b6a44fb7c038301aeafba1f9e21b5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:40 +0000
Subject: [PATCH 63/91] fix: Keep a reference to the crash frame of a gdb stack
 trace, and copy it as a frame

---
 python/py_gdb_stacktrace.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 02a630b..67ef68d 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -304,6 +304,7 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
 
     bo->thread_type = &sr_py_gdb_thread_type;
     bo->frame_type = &sr_py_gdb_frame_type;
+    Py_INCREF(Py_None);
     bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
     if (str)
     {
@@ -341,6 +342,7 @@ sr_py_gdb_stacktrace_free(PyObject *object)
     /* the list will decref all of its elements */
     Py_DECREF(this->threads);
     Py_DECREF(this->libs);
+    Py_DECREF(this->crashframe);
     this->stacktrace->threads = NULL;
     this->stacktrace->libs = NULL;
     sr_gdb_stacktrace_free(this->stacktrace);
@@ -392,12 +394,15 @@ sr_py_gdb_stacktrace_dup(PyObject *self, PyObject *args)
 
     if (PyObject_TypeCheck(this->crashframe, &sr_py_gdb_frame_type))
     {
-        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_thread_dup((PyObject*)this->crashframe, PyTuple_New(0));
+        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_frame_dup((PyObject*)this->crashframe, NULL);
         if (!bo->crashframe)
             return NULL;
     }
     else
+    {
+        Py_INCREF(Py_None);
         bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    }
 
     return (PyObject*)bo;
 }
@@ -427,15 +432,17 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     }
 
     result->frame = frame;
-    this->crashframe = result;
 
     if (stacktrace_rebuild_thread_python_list(this) < 0)
     {
-        sr_gdb_frame_free(frame);
         Py_DECREF(result);
         return NULL;
     }
 
+    Py_INCREF(result);
+    Py_DECREF(this->crashframe);
+    this->crashframe = result;
+
     return (PyObject *)result;
 }
 
-- 
2.43.0


From 0979fb0d8b1248ebab94e5409680a99065bfb37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 64/91] fix: Limit the depth of a gdb stack trace without
 freeing the frames of Python objects

---
 python/py_gdb_stacktrace.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 67ef68d..2985007 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -457,9 +457,25 @@ sr_py_gdb_stacktrace_limit_frame_depth(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &depth))
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
-    sr_gdb_stacktrace_limit_frame_depth(this->stacktrace, depth);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
+    if (depth <= 0)
+    {
+        PyErr_SetString(PyExc_ValueError, "Depth must be positive.");
+        return NULL;
+    }
+
+    /* frees some frames, which belong to python objects: use a copy and
+     * rebuild python list */
+    struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
+    sr_gdb_stacktrace_limit_frame_depth(tmp, depth);
+    /* the list will decref all of its elements */
+    Py_DECREF(this->threads);
+
+    this->stacktrace->threads = tmp->threads;
+    tmp->threads = NULL;
+    sr_gdb_stacktrace_free(tmp);
+
+    this->threads = thread_linked_list_to_python_list(this->stacktrace);
+    if (!this->threads)
         return NULL;
 
     Py_RETURN_NONE;
-- 
2.43.0


From 6f451e738435464661e911b92ab33ac12faebf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 65/91] fix: Asking a gdb stack trace for a text or for the
 crash frame does not replace its threads

---
 python/py_gdb_stacktrace.c | 34 +---------------------------------
 1 file changed, 1 insertion(+), 33 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 2985007..abe3eb8 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -250,27 +250,6 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
     return result;
 }
 
-/* XXX Why GDB stacktrace needs this function while other types do not? Is it
- * because the methods here modify the linked lists and other types have no
- * such methods? Shouldn't we do a copy of the linked list *before* we call the
- * C function on it?
- */
-int
-stacktrace_rebuild_thread_python_list(struct sr_py_gdb_stacktrace *stacktrace)
-{
-    struct sr_gdb_thread *newlinkedlist = sr_gdb_thread_dup(stacktrace->stacktrace->threads, true);
-    if (!newlinkedlist)
-        return -1;
-
-    /* the list will decref all of its elements */
-    Py_DECREF(stacktrace->threads);
-
-    stacktrace->stacktrace->threads = newlinkedlist;
-    stacktrace->threads = threads_to_python_list((struct sr_stacktrace *)stacktrace->stacktrace,
-                                                 &sr_py_gdb_thread_type, &sr_py_gdb_frame_type);
-    return 0;
-}
-
 int
 stacktrace_rebuild_sharedlib_python_list(struct sr_py_gdb_stacktrace *stacktrace)
 {
@@ -414,7 +393,7 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
+    /* does not destroy the linked list */
     struct sr_gdb_frame *frame = sr_gdb_stacktrace_get_crash_frame(this->stacktrace);
     if (!frame)
     {
@@ -433,12 +412,6 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
 
     result->frame = frame;
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-    {
-        Py_DECREF(result);
-        return NULL;
-    }
-
     Py_INCREF(result);
     Py_DECREF(this->crashframe);
     this->crashframe = result;
@@ -547,8 +520,6 @@ sr_py_gdb_stacktrace_set_libnames(PyObject *self, PyObject *args)
 
     /* does not destroy the linked list */
     sr_gdb_stacktrace_set_libnames(this->stacktrace);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
 
     Py_RETURN_NONE;
 }
@@ -600,9 +571,6 @@ sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
         return NULL;
     }
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
-
     PyObject *result = PyString_FromString(text);
 
     g_free(text);
-- 
2.43.0


From 6ac74db052508c513af94165ea28c5f68b51c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 66/91] fix: format_funs() uses the current list of frames

---
 python/py_gdb_thread.c  | 9 ++++++++-
 python/py_java_thread.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 6201738..44c6fcb 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -231,5 +231,12 @@ sr_py_gdb_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_gdb_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_gdb_thread_format_funs(((struct sr_py_gdb_thread *)self)->thread));
+    struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *str = sr_gdb_thread_format_funs(this->thread);
+    PyObject *result = Py_BuildValue("s", str);
+    g_free(str);
+    return result;
 }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 99d44f7..2c764e2 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -222,5 +222,12 @@ sr_py_java_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_java_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_java_thread_format_funs(((struct sr_py_java_thread *)self)->thread));
+    struct sr_py_java_thread *this = (struct sr_py_java_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *str = sr_java_thread_format_funs(this->thread);
+    PyObject *result = Py_BuildValue("s", str);
+    g_free(str);
+    return result;
 }
-- 
2.43.0


From 3ffbb93997b75c4bf82c3483a03443bd5ec91cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 67/91] fix: Report a wrong object in the list of frames when
 threads are compared

---
 python/py_base_thread.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 27b3a5d..6ae7267 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -219,8 +219,12 @@ sr_py_base_thread_equals(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "O!", &sr_py_base_thread_type, &other))
         return NULL;
 
-    if (sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
-                              (struct sr_py_base_thread *)other) == 0)
+    int cmp = sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
+                                    (struct sr_py_base_thread *)other);
+    if (PyErr_Occurred())
+        return NULL;
+
+    if (cmp == 0)
         Py_RETURN_TRUE;
     else
         Py_RETURN_FALSE;
-- 
2.43.0


From 0aa1634ec09311dcd330212018d2f1f71fa54563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 68/91] fix: Refuse numbers that do not fit in an attribute

---
 python/py_common.c | 11 +++++++----
 python/py_common.h |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/py_common.c b/python/py_common.c
index 0342117..6e3d60f 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -118,9 +118,9 @@ sr_py_setter_uint32(PyObject *self, PyObject *rhs, void *data)
     if (PyErr_Occurred())
         return -1;
 
-    if (newvalue < 0)
+    if (newvalue < 0 || newvalue > UINT32_MAX)
     {
-        PyErr_SetString(PyExc_ValueError, "Value must not be negative.");
+        PyErr_SetString(PyExc_ValueError, "Negative or too large value.");
         return -1;
     }
 
@@ -149,7 +149,10 @@ sr_py_setter_bool(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    bool newvalue = PyObject_IsTrue(rhs);
+    int newvalue = PyObject_IsTrue(rhs);
+    if (newvalue < 0)
+        return -1;
+
     MEMB_T(bool, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = newvalue;
 
     return 0;
@@ -188,7 +191,7 @@ sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data)
     }
     else
     {
-        newvalue = (uint64_t)PyInt_AsUnsignedLongLongMask(rhs);
+        newvalue = (uint64_t)PyInt_AsUnsignedLongLong(rhs);
         if (PyErr_Occurred())
             return -1;
     }
diff --git a/python/py_common.h b/python/py_common.h
index fb575dc..1687d36 100644
--- a/python/py_common.h
+++ b/python/py_common.h
@@ -153,7 +153,7 @@ int normalize_cmp(int n);
 #define PyString_FromFormat PyUnicode_FromFormat
 #define PyInt_FromLong PyLong_FromLong
 #define PyInt_AsLong PyLong_AsLong
-#define PyInt_AsUnsignedLongLongMask PyLong_AsUnsignedLongLongMask
+#define PyInt_AsUnsignedLongLong PyLong_AsUnsignedLongLong
 #endif
 
 #ifdef __cplusplus
-- 
2.43.0


From b77f43bbaaef097a676d4918d91432cddbf6c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 69/91] fix: Find the libraries in the upper half of the
 address space

---
 python/py_gdb_stacktrace.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index abe3eb8..8e07537 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -485,8 +485,12 @@ sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    unsigned long long address;
-    if (!PyArg_ParseTuple(args, "l", &address))
+    PyObject *number;
+    if (!PyArg_ParseTuple(args, "O!", &PyLong_Type, &number))
+        return NULL;
+
+    unsigned long long address = PyLong_AsUnsignedLongLong(number);
+    if (PyErr_Occurred())
         return NULL;
 
     if (address == (unsigned long long) -1)
-- 
2.43.0


From ddbbccd4e5bfa59e59e36d77133399eafe2a1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 70/91] fix: Keep the stack trace of JavaScript reports in
 Python

---
 python/py_report.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index b8fd9d3..b0050b9 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -29,6 +29,7 @@
 #include "py_koops_stacktrace.h"
 #include "py_java_stacktrace.h"
 #include "py_ruby_stacktrace.h"
+#include "py_js_stacktrace.h"
 
 #include "report.h"
 #include "operating_system.h"
@@ -293,6 +294,10 @@ report_prepare_subobjects(struct sr_py_report *report)
             if (stacktrace_prepare(report, &sr_py_ruby_stacktrace_type, false) < 0)
                 return -1;
             break;
+        case SR_REPORT_JAVASCRIPT:
+            if (stacktrace_prepare(report, &sr_py_js_stacktrace_type, false) < 0)
+                return -1;
+            break;
         default:
             report->report->stacktrace = NULL;
             break;
@@ -360,6 +365,10 @@ report_to_python_obj(struct sr_report *report)
             ro->stacktrace = ruby_stacktrace_to_python_obj(
                     (struct sr_ruby_stacktrace *)report->stacktrace);
             break;
+        case SR_REPORT_JAVASCRIPT:
+            ro->stacktrace = js_stacktrace_to_python_obj(
+                    (struct sr_js_stacktrace *)report->stacktrace);
+            break;
         default:
             Py_INCREF(Py_None);
             ro->stacktrace = Py_None;
-- 
2.43.0


From 75bc71581b3476a7ce9a557456508607675107cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 71/91] fix: Write the current threads and frames of the stack
 trace of a report

---
 python/py_report.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index b0050b9..223d99b 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -23,6 +23,7 @@
 #include "py_rpm_package.h"
 #include "py_operating_system.h"
 
+#include "py_base_thread.h"
 #include "py_base_stacktrace.h"
 #include "py_core_stacktrace.h"
 #include "py_python_stacktrace.h"
@@ -229,11 +230,17 @@ stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_t
 
     if (multi_thread)
     {
+        if (threads_prepare_linked_list((struct sr_py_multi_stacktrace *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             ((struct sr_py_multi_stacktrace *)report->stacktrace)->stacktrace;
     }
     else
     {
+        if (frames_prepare_linked_list((struct sr_py_base_thread *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             (struct sr_stacktrace *)((struct sr_py_base_thread *)report->stacktrace)->thread;
     }
-- 
2.43.0


From aef25493c880145b925db02b45ccc8f266183847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 72/91] fix: Refuse positions out of the range of the merge
 levels of a dendrogram

---
 python/py_cluster.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index 30cdce1..a9d1c67 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -159,7 +159,8 @@ sr_py_dendrogram_get_merge_level(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &i))
         return NULL;
 
-    if (i < 0 || i > this->dendrogram->size)
+    /* there is one merge less than objects */
+    if (i < 0 || i >= this->dendrogram->size - 1)
     {
         PyErr_SetString(PyExc_ValueError, "Merge level position out of range");
         return NULL;
-- 
2.43.0


From 3269d8c4ed52de92bb4491c7d2b4bf007f63a9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 73/91] fix: Check the number of distances in a pickled part of
 a distance matrix

---
 python/py_metrics.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 5eb09a9..2a5165a 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -439,6 +439,12 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     if (PyList_Check(dist_list))
     {
+        if ((size_t)PyList_Size(dist_list) != part->len)
+        {
+            PyErr_SetString(PyExc_ValueError, "wrong number of distances");
+            goto error;
+        }
+
         part->distances = g_malloc_n(sizeof(float), part->len);
         int i;
         for (i = 0; i < PyList_Size(dist_list); i++)
-- 
2.43.0


From e11170d78e060d0462977ebcc1f6a1778ec70362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 74/91] fix: Merging no parts of a distance matrix is an error
 of the caller

---
 python/py_metrics.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 2a5165a..d4f2844 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -402,7 +402,11 @@ sr_py_distances_merge_parts(PyObject *self, PyObject *args)
 
     struct sr_distances_part *parts = parts_prepare_linked_list(part_list);
     if (!parts)
+    {
+        if (!PyErr_Occurred())
+            PyErr_SetString(PyExc_ValueError, "No distance matrix parts to merge");
         return NULL;
+    }
 
     struct sr_distances *dist = sr_distances_part_merge(parts);
     if (!dist)
-- 
2.43.0


From a8a79f1c1303250d15cc5a8d71bef23294c901fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 75/91] fix: Raise an exception when there is no crash thread,
 or no stack trace to fill from JSON

---
 python/py_base_stacktrace.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 54f1724..1ff3a0e 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -297,7 +297,10 @@ sr_py_multi_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->stacktrace, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
@@ -427,6 +430,8 @@ sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
     PyObject *noargs = PyTuple_New(0);
     PyObject *result = PyObject_CallObject(class, noargs);
     Py_DECREF(noargs);
+    if (!result)
+        return NULL;
 
     /* Free the C structure and thread list */
     struct sr_py_base_thread *this = (struct sr_py_base_thread*)result;
@@ -443,6 +448,7 @@ sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
     if (!this->thread)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
         return NULL;
     }
     this->frames = frames_to_python_list((struct sr_thread *)this->thread, this->frame_type);
@@ -461,6 +467,8 @@ sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
     PyObject *noargs = PyTuple_New(0);
     PyObject *result = PyObject_CallObject(class, noargs);
     Py_DECREF(noargs);
+    if (!result)
+        return NULL;
 
     /* Free the C structure and thread list */
     struct sr_py_multi_stacktrace *this = (struct sr_py_multi_stacktrace*)result;
@@ -475,6 +483,7 @@ sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
     if (!this->stacktrace)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
         return NULL;
     }
     this->threads = threads_to_python_list(this->stacktrace, this->thread_type, this->frame_type);
-- 
2.43.0


From 1d492a3ffb2f06980887797a5117d9a4a4551db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 76/91] fix: Initialize the epoch of an empty RpmPackage

---
 python/py_rpm_package.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 3bd907a..87a6791 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -122,7 +122,7 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     rpm->rpm_package = sr_rpm_package_new();
 
-    unsigned int epoch;
+    unsigned int epoch = 0;
     const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
         return NULL;
-- 
2.43.0


From ebc640fcbc1321d649f3ec617a73dba4a7b1e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:20 +0000
Subject: [PATCH 77/91] fix: Refuse a text that is not a kernel oops frame

---
 python/py_koops_frame.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index b564f9f..768039d 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -150,6 +150,12 @@ sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (str)
     {
         fo->frame = sr_koops_frame_parse(&str);
+
+        if (!fo->frame)
+        {
+            PyErr_SetString(PyExc_ValueError, "Not a kernel oops frame.");
+            return NULL;
+        }
     }
     else
         fo->frame = sr_koops_frame_new();
-- 
2.43.0


From 33bce1461f046d724ceaf83f7ce4a490eedffd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:12 +0000
Subject: [PATCH 78/91] fix: Forget the crash thread of a core stack trace when
 it is removed from its threads

---
 python/py_base_stacktrace.c |  6 ++++++
 python/py_core_stacktrace.c | 36 ++++++++++++++++++++++++++++++++++++
 python/py_core_stacktrace.h |  6 ++++++
 3 files changed, 48 insertions(+)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 1ff3a0e..16aad4e 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -20,6 +20,7 @@
 #include <glib.h>
 #include "py_common.h"
 #include "py_base_stacktrace.h"
+#include "py_core_stacktrace.h"
 
 #include "stacktrace.h"
 #include "thread.h"
@@ -226,6 +227,9 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         Py_XDECREF(current);
     }
 
+    if (stacktrace->stacktrace->type == SR_REPORT_CORE)
+        core_stacktrace_check_crash_thread((struct sr_py_core_stacktrace *)stacktrace);
+
     return 0;
 }
 
@@ -487,6 +491,8 @@ sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
         return NULL;
     }
     this->threads = threads_to_python_list(this->stacktrace, this->thread_type, this->frame_type);
+    if (this->threads && type == SR_REPORT_CORE)
+        core_stacktrace_keep_crash_thread((struct sr_py_core_stacktrace *)this);
 
     return result;
 }
diff --git a/python/py_core_stacktrace.c b/python/py_core_stacktrace.c
index 1feea4c..84b1adc 100644
--- a/python/py_core_stacktrace.c
+++ b/python/py_core_stacktrace.c
@@ -112,6 +112,38 @@ PyTypeObject sr_py_core_stacktrace_type = {
     NULL,                           /* tp_weaklist */
 };
 
+void
+core_stacktrace_keep_crash_thread(struct sr_py_core_stacktrace *stacktrace)
+{
+    Py_CLEAR(stacktrace->crash_thread);
+
+    Py_ssize_t i;
+    for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
+    {
+        PyObject *item = PyList_GetItem(stacktrace->threads, i);
+        if (((struct sr_py_core_thread *)item)->thread == stacktrace->stacktrace->crash_thread)
+        {
+            Py_INCREF(item);
+            stacktrace->crash_thread = item;
+            return;
+        }
+    }
+}
+
+void
+core_stacktrace_check_crash_thread(struct sr_py_core_stacktrace *stacktrace)
+{
+    Py_ssize_t i;
+    for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
+    {
+        if (PyList_GetItem(stacktrace->threads, i) == stacktrace->crash_thread)
+            return;
+    }
+
+    stacktrace->stacktrace->crash_thread = NULL;
+    Py_CLEAR(stacktrace->crash_thread);
+}
+
 PyObject *
 core_stacktrace_to_python_obj(struct sr_core_stacktrace *stacktrace)
 {
@@ -129,6 +161,9 @@ core_stacktrace_to_python_obj(struct sr_core_stacktrace *stacktrace)
     if (!bo->threads)
         return NULL;
 
+    bo->crash_thread = NULL;
+    core_stacktrace_keep_crash_thread(bo);
+
     return (PyObject *)bo;
 }
 
@@ -168,6 +203,7 @@ sr_py_core_stacktrace_free(PyObject *object)
     struct sr_py_core_stacktrace *this = (struct sr_py_core_stacktrace*)object;
     /* the list will decref all of its elements */
     Py_DECREF(this->threads);
+    Py_XDECREF(this->crash_thread);
     this->stacktrace->threads = NULL;
     sr_core_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
diff --git a/python/py_core_stacktrace.h b/python/py_core_stacktrace.h
index 6d91e40..1ec2a07 100644
--- a/python/py_core_stacktrace.h
+++ b/python/py_core_stacktrace.h
@@ -47,9 +47,15 @@ struct sr_py_core_stacktrace
     PyObject *threads;
     PyTypeObject *thread_type;
     PyTypeObject *frame_type;
+    /* the thread stacktrace->crash_thread belongs to, or NULL */
+    PyObject *crash_thread;
 };
 
 /* helpers */
+/* Keeps the thread object of the crash thread. */
+void core_stacktrace_keep_crash_thread(struct sr_py_core_stacktrace *stacktrace);
+/* Forgets the crash thread if it has been removed from the list of threads. */
+void core_stacktrace_check_crash_thread(struct sr_py_core_stacktrace *stacktrace);
 PyObject *core_stacktrace_to_python_obj(struct sr_core_stacktrace *stacktrace);
 
 /* constructor */
-- 
2.43.0


From a46847140466ec264abc38d182c6f289212659a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:12 +0000
Subject: [PATCH 79/91] fix: Refuse strings with null characters in attributes

---
 python/py_common.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/py_common.c b/python/py_common.c
index 6e3d60f..e1b9bec 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -50,10 +50,17 @@ sr_py_setter_string(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    const char *newvalue = PyUnicode_AsUTF8(rhs);
+    Py_ssize_t size;
+    const char *newvalue = PyUnicode_AsUTF8AndSize(rhs, &size);
     if (!newvalue)
         return -1;
 
+    if (strlen(newvalue) != (size_t)size)
+    {
+        PyErr_SetString(PyExc_ValueError, "embedded null character");
+        return -1;
+    }
+
     char *str = MEMB_T(char*, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset);
     g_free(str);
     MEMB_T(char*, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = g_strdup(newvalue);
-- 
2.43.0


From 5d537328a8ace472bc86c3697ce69242cf04301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:40 +0000
Subject: [PATCH 80/91] fix: Release the objects in lists made by the Python
 module

---
 python/py_base_stacktrace.c  | 1 +
 python/py_base_thread.c      | 1 +
 python/py_cluster.c          | 7 ++++++-
 python/py_gdb_stacktrace.c   | 2 ++
 python/py_koops_stacktrace.c | 9 ++++++++-
 python/py_metrics.c          | 2 ++
 python/py_report.c           | 2 ++
 7 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 16aad4e..d31aeb3 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -257,6 +257,7 @@ threads_to_python_list(struct sr_stacktrace *stacktrace, PyTypeObject *thread_ty
 
         if (PyList_Append(result, (PyObject*)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         thread = sr_thread_next(thread);
     }
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 6ae7267..9fb6dec 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -184,6 +184,7 @@ frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
         item->frame = frame;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         frame = sr_frame_next(frame);
     }
diff --git a/python/py_cluster.c b/python/py_cluster.c
index a9d1c67..139a5bf 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -189,8 +189,13 @@ sr_py_dendrogram_cut(PyObject *self, PyObject *args)
     {
         listc = PyList_New(0);
         for (i = 0; i < cluster->size; i++)
-            PyList_Append(listc, PyInt_FromLong(cluster->objects[i]));
+        {
+            PyObject *object = PyInt_FromLong(cluster->objects[i]);
+            PyList_Append(listc, object);
+            Py_DECREF(object);
+        }
         PyList_Append(list, listc);
+        Py_DECREF(listc);
 
         cl = cluster;
         cluster = cluster->next;
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 8e07537..60fc54c 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -219,6 +219,7 @@ thread_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
 
         if (PyList_Append(result, (PyObject*)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         thread = thread->next;
     }
@@ -243,6 +244,7 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
         item->sharedlib = sharedlib;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         sharedlib = sharedlib->next;
     }
diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 0faa5a7..ae75b16 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -115,7 +115,14 @@ sr_py_koops_stacktrace_get_modules(PyObject *self, void *data)
 
     while(iter && *iter)
     {
-      PyList_Append(result, Py_BuildValue("s", *iter++));
+      PyObject *module = Py_BuildValue("s", *iter++);
+      if (!module || PyList_Append(result, module) < 0)
+      {
+          Py_XDECREF(module);
+          Py_DECREF(result);
+          return NULL;
+      }
+      Py_DECREF(module);
     }
 
     return result;
diff --git a/python/py_metrics.c b/python/py_metrics.c
index d4f2844..6af53b8 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -530,6 +530,7 @@ sr_py_distances_part_reduce(PyObject *self, PyObject *args)
                 Py_XDECREF(dist_list);
                 return NULL;
             }
+            Py_DECREF(f);
         }
     }
     else
@@ -584,6 +585,7 @@ sr_py_distances_part_create(PyObject *self, PyObject *args, PyObject *kwds)
             sr_distances_part_free(it, true);
             return NULL;
         }
+        Py_DECREF(py_part);
     }
 
     return part_list;
diff --git a/python/py_report.c b/python/py_report.c
index 223d99b..58127a9 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -161,6 +161,7 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
         item->rpm_package = rpm;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         rpm = rpm->next;
     }
@@ -540,6 +541,7 @@ sr_py_report_get_auth(PyObject *self, void *data)
 
         if (PyDict_SetItemString(auth, ae->key, val) == -1)
             return NULL;
+        Py_DECREF(val);
     }
 
     return auth;
-- 
2.43.0


From 6882593b20c2b048fbcdd75497698b119560697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:58 +0000
Subject: [PATCH 81/91] fix: Compare threads of single threaded stack traces

---
 lib/generic_thread.c    | 22 ++++++++++++++++++++++
 lib/generic_thread.h    |  3 +++
 lib/js_stacktrace.c     |  2 +-
 lib/koops_stacktrace.c  |  2 +-
 lib/python_stacktrace.c |  2 +-
 lib/ruby_stacktrace.c   |  2 +-
 6 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/lib/generic_thread.c b/lib/generic_thread.c
index 4d2fc96..0473d51 100644
--- a/lib/generic_thread.c
+++ b/lib/generic_thread.c
@@ -99,6 +99,28 @@ thread_remove_frames_above(struct sr_thread *thread, struct sr_frame *frame)
     return true;
 }
 
+int
+thread_cmp_frames(struct sr_thread *thread1, struct sr_thread *thread2)
+{
+    struct sr_frame *frame1 = sr_thread_frames(thread1);
+    struct sr_frame *frame2 = sr_thread_frames(thread2);
+
+    while (frame1 && frame2)
+    {
+        int cmp = sr_frame_cmp(frame1, frame2);
+        if (cmp != 0)
+            return cmp;
+
+        frame1 = sr_frame_next(frame1);
+        frame2 = sr_frame_next(frame2);
+    }
+
+    if (frame1)
+        return 1;
+
+    return frame2 ? -1 : 0;
+}
+
 struct sr_thread *
 thread_no_next_thread(struct sr_thread *thread)
 {
diff --git a/lib/generic_thread.h b/lib/generic_thread.h
index 93d71ca..b4ac7ff 100644
--- a/lib/generic_thread.h
+++ b/lib/generic_thread.h
@@ -77,6 +77,9 @@ extern struct thread_methods core_thread_methods, python_thread_methods,
 int
 thread_frame_count(struct sr_thread *thread);
 
+int
+thread_cmp_frames(struct sr_thread *thread1, struct sr_thread *thread2);
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame);
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 26c5b6a..ff6a06c 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -46,7 +46,7 @@ struct thread_methods js_thread_methods =
 {
     .frames = (frames_fn_t) js_frames,
     .set_frames = (set_frames_fn_t) js_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 31c3d24..8bc7719 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -70,7 +70,7 @@ struct thread_methods koops_thread_methods =
 {
     .frames = (frames_fn_t) koops_frames,
     .set_frames = (set_frames_fn_t) koops_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index 1230030..73119a4 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -45,7 +45,7 @@ struct thread_methods python_thread_methods =
 {
     .frames = (frames_fn_t) python_frames,
     .set_frames = (set_frames_fn_t) python_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 45178a4..44eb492 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -44,7 +44,7 @@ struct thread_methods ruby_thread_methods =
 {
     .frames = (frames_fn_t) ruby_frames,
     .set_frames = (set_frames_fn_t) ruby_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
-- 
2.43.0


From c767e01e23400fd62ce1e3d62bdc5c6e683066c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 82/91] fix: Link the libraries whenever a GdbStacktrace is
 used

get_bthash and crash_thread used the libraries of the last call that linked
them, which need not exist any more.
---
 python/py_base_stacktrace.c | 3 +++
 python/py_gdb_stacktrace.c  | 8 +++++---
 python/py_gdb_stacktrace.h  | 3 +++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index d31aeb3..872c2b5 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -21,6 +21,7 @@
 #include "py_common.h"
 #include "py_base_stacktrace.h"
 #include "py_core_stacktrace.h"
+#include "py_gdb_stacktrace.h"
 
 #include "stacktrace.h"
 #include "thread.h"
@@ -229,6 +230,8 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
 
     if (stacktrace->stacktrace->type == SR_REPORT_CORE)
         core_stacktrace_check_crash_thread((struct sr_py_core_stacktrace *)stacktrace);
+    else if (stacktrace->stacktrace->type == SR_REPORT_GDB)
+        return libs_prepare_linked_list((struct sr_py_gdb_stacktrace *)stacktrace);
 
     return 0;
 }
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 60fc54c..2e917ef 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -150,10 +150,12 @@ PyTypeObject sr_py_gdb_stacktrace_type = {
 static int
 gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
 {
-    if (threads_prepare_linked_list((struct sr_py_multi_stacktrace *) stacktrace) < 0)
-        return -1;
+    return threads_prepare_linked_list((struct sr_py_multi_stacktrace *) stacktrace);
+}
 
-    /* sharedlib */
+int
+libs_prepare_linked_list(struct sr_py_gdb_stacktrace *stacktrace)
+{
     int i;
     PyObject *item;
     struct sr_py_gdb_sharedlib *currentlib = NULL, *prevlib = NULL;
diff --git a/python/py_gdb_stacktrace.h b/python/py_gdb_stacktrace.h
index 6c977be..d57be2a 100644
--- a/python/py_gdb_stacktrace.h
+++ b/python/py_gdb_stacktrace.h
@@ -51,6 +51,9 @@ struct sr_py_gdb_stacktrace
     PyObject *libs;
 };
 
+/* helpers */
+int libs_prepare_linked_list(struct sr_py_gdb_stacktrace *stacktrace);
+
 /* constructor */
 PyObject *sr_py_gdb_stacktrace_new(PyTypeObject *object,
                                    PyObject *args,
-- 
2.43.0


From 20c0626ae6a1401651a52de7a7fb8581ce263bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 83/91] fix: Refuse Python lists that contain an object twice

The objects are linked to each other when a method is called, which made a
circle of them, or took frames away from another thread.
---
 python/py_base_stacktrace.c | 27 +++++++++++++++++++++++++++
 python/py_base_thread.c     | 26 ++++++++++++++++++++++++++
 python/py_base_thread.h     |  2 ++
 python/py_gdb_stacktrace.c  | 13 +++++++++++++
 python/py_metrics.c         | 22 +++++++++++++++++++---
 python/py_report.c          | 13 +++++++++++++
 6 files changed, 100 insertions(+), 3 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 872c2b5..badf702 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -177,6 +177,26 @@ PyTypeObject sr_py_multi_stacktrace_type = {
     NULL,                           /* tp_weaklist */
 };
 
+static bool
+threads_linked_as_listed(struct sr_py_multi_stacktrace *stacktrace)
+{
+    int i;
+    struct sr_thread *thread = sr_stacktrace_threads(stacktrace->stacktrace);
+
+    for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
+    {
+        struct sr_py_base_thread *item =
+            (struct sr_py_base_thread *)PyList_GetItem(stacktrace->threads, i);
+
+        if (thread != item->thread || !frames_linked_as_listed(item))
+            return false;
+
+        thread = sr_thread_next(thread);
+    }
+
+    return thread == NULL;
+}
+
 int
 threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
 {
@@ -228,6 +248,13 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         Py_XDECREF(current);
     }
 
+    if (!threads_linked_as_listed(stacktrace))
+    {
+        PyErr_SetString(PyExc_ValueError,
+                        "threads must not contain a thread or a frame more than once");
+        return -1;
+    }
+
     if (stacktrace->stacktrace->type == SR_REPORT_CORE)
         core_stacktrace_check_crash_thread((struct sr_py_core_stacktrace *)stacktrace);
     else if (stacktrace->stacktrace->type == SR_REPORT_GDB)
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 9fb6dec..786faa5 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -115,6 +115,26 @@ sr_py_base_thread_type =
 };
 
 /* helpers */
+
+/* A frame that is in the list several times, or in the list of another thread
+ * too, can be linked in one place only. */
+bool
+frames_linked_as_listed(struct sr_py_base_thread *thread)
+{
+    int i;
+    struct sr_frame *frame = sr_thread_frames(thread->thread);
+
+    for (i = 0; i < PyList_Size(thread->frames); ++i)
+    {
+        if (frame != ((struct sr_py_base_frame *)PyList_GetItem(thread->frames, i))->frame)
+            return false;
+
+        frame = sr_frame_next(frame);
+    }
+
+    return frame == NULL;
+}
+
 int
 frames_prepare_linked_list(struct sr_py_base_thread *thread)
 {
@@ -158,6 +178,12 @@ frames_prepare_linked_list(struct sr_py_base_thread *thread)
         Py_DECREF(current);
     }
 
+    if (!frames_linked_as_listed(thread))
+    {
+        PyErr_SetString(PyExc_ValueError, "frames must not contain a frame more than once");
+        return -1;
+    }
+
     return 0;
 }
 
diff --git a/python/py_base_thread.h b/python/py_base_thread.h
index 95cce02..dad73bc 100644
--- a/python/py_base_thread.h
+++ b/python/py_base_thread.h
@@ -29,6 +29,7 @@
 extern "C" {
 #endif
 
+#include <stdbool.h>
 #include <Python.h>
 #include <structmember.h>
 
@@ -44,6 +45,7 @@ struct sr_py_base_thread
 
 /* helpers */
 int frames_prepare_linked_list(struct sr_py_base_thread *thread);
+bool frames_linked_as_listed(struct sr_py_base_thread *thread);
 PyObject *frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type);
 
 PyObject *sr_py_base_thread_equals(PyObject *self, PyObject *args);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 2e917ef..6c9fe36 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -195,6 +195,19 @@ libs_prepare_linked_list(struct sr_py_gdb_stacktrace *stacktrace)
         Py_XDECREF(currentlib);
     }
 
+    /* a library can be linked in one place only */
+    struct sr_gdb_sharedlib *lib = stacktrace->stacktrace->libs;
+    for (i = 0; i < PyList_Size(stacktrace->libs); ++i)
+    {
+        if (lib != ((struct sr_py_gdb_sharedlib *)PyList_GetItem(stacktrace->libs, i))->sharedlib)
+        {
+            PyErr_SetString(PyExc_ValueError, "libs must not contain a library more than once");
+            return -1;
+        }
+
+        lib = lib->next;
+    }
+
     return 0;
 }
 
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 6af53b8..473491d 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -387,10 +387,26 @@ parts_prepare_linked_list(PyObject *part_list)
         Py_DECREF(current);
     }
 
-    if (PyList_Size(part_list) > 0)
-        return ((struct sr_py_distances_part*)PyList_GetItem(part_list, 0))->distances_part;
-    else
+    if (PyList_Size(part_list) == 0)
         return NULL;
+
+    struct sr_distances_part *first =
+        ((struct sr_py_distances_part*)PyList_GetItem(part_list, 0))->distances_part;
+
+    /* a part can be linked in one place only */
+    struct sr_distances_part *part = first;
+    for (i = 0; i < PyList_Size(part_list); ++i)
+    {
+        if (part != ((struct sr_py_distances_part*)PyList_GetItem(part_list, i))->distances_part)
+        {
+            PyErr_SetString(PyExc_ValueError, "a distance matrix part is given more than once");
+            return NULL;
+        }
+
+        part = part->next;
+    }
+
+    return first;
 }
 
 PyObject *
diff --git a/python/py_report.c b/python/py_report.c
index 58127a9..a0f4578 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -217,6 +217,19 @@ rpms_prepare_linked_list(struct sr_py_report *report)
         Py_DECREF(current);
     }
 
+    /* a package can be linked in one place only */
+    struct sr_rpm_package *package = report->report->rpm_packages;
+    for (i = 0; i < PyList_Size(report->packages); ++i)
+    {
+        if (package != ((struct sr_py_rpm_package *)PyList_GetItem(report->packages, i))->rpm_package)
+        {
+            PyErr_SetString(PyExc_ValueError, "packages must not contain a package more than once");
+            return -1;
+        }
+
+        package = package->next;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From f373c804cdad6753ccfb80784594031d045e395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 84/91] fix: Compare threads that have frames in common

The frames of the second thread were linked before those of the first one
were used, so that the first thread lost frames or got those of the second.
---
 python/py_base_thread.c | 23 +++++++++++++++++++----
 python/py_metrics.c     | 21 ++++++++++++++++++++-
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 786faa5..4784308 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -228,14 +228,20 @@ sr_py_base_thread_cmp(struct sr_py_base_thread *self, struct sr_py_base_thread *
         return normalize_cmp(Py_TYPE(self) - Py_TYPE(other));
     }
 
-    if (frames_prepare_linked_list(self) < 0
-        || frames_prepare_linked_list(other) < 0)
+    if (frames_prepare_linked_list(self) < 0)
     {
         /* exception is already set */
         return -1;
     }
 
-    return normalize_cmp(sr_thread_cmp(self->thread, other->thread));
+    /* frames that are in both threads are linked to those of the other one next */
+    struct sr_thread *copy = sr_thread_dup(self->thread);
+    int result = -1;
+    if (frames_prepare_linked_list(other) == 0)
+        result = normalize_cmp(sr_thread_cmp(copy, other->thread));
+
+    sr_thread_free(copy);
+    return result;
 }
 
 PyObject *
@@ -290,7 +296,16 @@ sr_py_base_thread_distance(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
-    float dist = sr_distance(dist_type, t1->thread, t2->thread);
+    /* frames that are in both threads are linked to those of the second one only */
+    struct sr_thread *copy = sr_thread_dup(t2->thread);
+    if (frames_prepare_linked_list(t1) < 0)
+    {
+        sr_thread_free(copy);
+        return NULL;
+    }
+
+    float dist = sr_distance(dist_type, t1->thread, copy);
+    sr_thread_free(copy);
     return PyFloat_FromDouble((double)dist);
 }
 
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 473491d..f994d28 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -3,6 +3,7 @@
 #include "py_common.h"
 #include "utils.h"
 #include "distance.h"
+#include "thread.h"
 #include <glib.h>
 
 #define distances_doc "satyr.Distances - class representing distances between objects\n\n" \
@@ -186,6 +187,16 @@ validate_distance_params(int m, int n, int dist_type)
     return false;
 }
 
+static void
+free_thread_array(struct sr_thread *threads[], int n)
+{
+    int i;
+    for (i = 0; i < n; i++)
+        sr_thread_free(threads[i]);
+}
+
+/* The threads are copies: the original ones may have frames in common, and
+ * these are linked to those of one thread only. */
 static bool
 prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
 {
@@ -198,6 +209,7 @@ prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
         if (!PyObject_TypeCheck(obj, &sr_py_base_thread_type))
         {
             PyErr_SetString(PyExc_TypeError, "Must be a list of satyr.BaseThread objects");
+            free_thread_array(threads, i);
             return false;
         }
 
@@ -205,15 +217,19 @@ prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
         if (thread_type && obj->ob_type != thread_type)
         {
             PyErr_SetString(PyExc_TypeError, "All threads in the list must have the same type");
+            free_thread_array(threads, i);
             return false;
         }
         thread_type = obj->ob_type;
 
         struct sr_py_base_thread *to = (struct sr_py_base_thread*)obj;
         if (frames_prepare_linked_list(to) < 0)
+        {
+            free_thread_array(threads, i);
             return false;
+        }
 
-        threads[i] = (struct sr_thread*)to->thread;
+        threads[i] = sr_thread_dup(to->thread);
     }
 
     return true;
@@ -247,6 +263,7 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
             return NULL;
 
         o->distances = sr_threads_compare(threads, m, n, dist_type);
+        free_thread_array(threads, n);
     }
     else if (PyArg_ParseTuple(args, "ii", &m, &n))
     {
@@ -625,9 +642,11 @@ sr_py_distances_part_compute(PyObject *self, PyObject *args)
     if (n != this->distances_part->n)
     {
         PyErr_SetString(PyExc_ValueError, "Wrong number of threads provided");
+        free_thread_array(threads, n);
         return NULL;
     }
 
     sr_distances_part_compute(this->distances_part, threads);
+    free_thread_array(threads, n);
     Py_RETURN_NONE;
 }
-- 
2.43.0


From cba1e453de189d6f2b1f5a0cebc0bd880c14f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 85/91] fix: Compare the name in GdbFrame.calls_func

sr_gdb_frame_calls_func() without names of source files never succeeds.
---
 python/py_gdb_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/py_gdb_frame.c b/python/py_gdb_frame.c
index 647b509..cb7edce 100644
--- a/python/py_gdb_frame.c
+++ b/python/py_gdb_frame.c
@@ -260,7 +260,8 @@ sr_py_gdb_frame_calls_func(PyObject *self, PyObject *args)
         return NULL;
 
     struct sr_gdb_frame *frame = ((struct sr_py_gdb_frame*)self)->frame;
-    return Py_BuildValue("i", sr_gdb_frame_calls_func(frame, func_name, NULL));
+    bool calls = frame->function_name && strcmp(frame->function_name, func_name) == 0;
+    return Py_BuildValue("i", calls);
 }
 
 PyObject *
-- 
2.43.0


From 3c3324a7cc775dd8480f8d404fa6e66cabb1a1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 86/91] fix: Refuse report types with null characters

What followed the null character was ignored.
---
 python/py_report.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/py_report.c b/python/py_report.c
index a0f4578..3ec31e2 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -508,10 +508,17 @@ int sr_py_report_set_type(PyObject *self, PyObject *rhs, void *data)
         return -1;
     }
 
-    const char *type_str = PyUnicode_AsUTF8(rhs);
+    Py_ssize_t size;
+    const char *type_str = PyUnicode_AsUTF8AndSize(rhs, &size);
     if (!type_str)
         return -1;
 
+    if (strlen(type_str) != (size_t)size)
+    {
+        PyErr_SetString(PyExc_ValueError, "embedded null character");
+        return -1;
+    }
+
     enum sr_report_type type = sr_report_type_from_string(type_str);
     if (type == SR_REPORT_INVALID)
     {
-- 
2.43.0


From 448ef95d4ddf93d749ea4fdfae85f7c61e0a6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:56 +0000
Subject: [PATCH 87/91] fix: Allocate the default name of the reporter

The default name and version were not allocated, so that setting another one
from Python freed a string constant.
---
 lib/report.c       | 22 ++++++++++++++++++----
 python/py_report.c |  4 ++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 402d2ad..7a6eb2a 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -59,8 +59,8 @@ sr_report_init(struct sr_report *report)
 {
     report->report_version = 2;
     report->report_type = SR_REPORT_INVALID;
-    report->reporter_name = PACKAGE_NAME;
-    report->reporter_version = PACKAGE_VERSION;
+    report->reporter_name = g_strdup(PACKAGE_NAME);
+    report->reporter_version = g_strdup(PACKAGE_VERSION);
     report->user_root = false;
     report->user_local = true;
     report->operating_system = NULL;
@@ -337,10 +337,24 @@ sr_report_from_json(json_object *root, char **error_message)
 
     if (json_object_object_get_ex(root, "reporter", &reporter))
     {
+        char *name = NULL, *version = NULL;
+
         success =
             json_check_type(reporter, json_type_object, "reporter", error_message) &&
-            JSON_READ_STRING(reporter, "name", &report->reporter_name) &&
-            JSON_READ_STRING(reporter, "version", &report->reporter_version);
+            JSON_READ_STRING(reporter, "name", &name) &&
+            JSON_READ_STRING(reporter, "version", &version);
+
+        if (name)
+        {
+            g_free(report->reporter_name);
+            report->reporter_name = name;
+        }
+
+        if (version)
+        {
+            g_free(report->reporter_version);
+            report->reporter_version = version;
+        }
 
         if (!success)
             goto fail;
diff --git a/python/py_report.c b/python/py_report.c
index 3ec31e2..22660cf 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -456,6 +456,10 @@ sr_py_report_free(PyObject *object)
     this->report->operating_system = NULL;
     this->report->stacktrace = NULL;
 
+    /* sr_report_free() leaves these two to the caller */
+    g_free(this->report->reporter_name);
+    g_free(this->report->reporter_version);
+
     sr_report_free(this->report);
     PyObject_Del(object);
 }
-- 
2.43.0


From c018fb536f977920028c1b587252cea5e04b4cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 88/91] fix: Refuse to split a distance matrix into no parts

---
 lib/distance.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/distance.c b/lib/distance.c
index 1287c33..9851da4 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -534,6 +534,9 @@ sr_distances_part_create(int m, int n, enum sr_distance_type dist_type,
 
     assert(m > 0 && n > 1 && m < n);
 
+    if (nparts == 0)
+        return NULL;
+
     int triangle_twice = m * (m-1);
     assert(triangle_twice % 2 == 0);
 
-- 
2.43.0


From 941c54f6806ce0b153518b2e3d67f6352064201d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 89/91] fix: Attribute return addresses to the call before them

---
 lib/core_unwind.c          | 3 ++-
 lib/core_unwind_elfutils.c | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 6a5be9b..8c50ce9 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -294,7 +294,8 @@ resolve_frame(Dwfl *dwfl, Dwarf_Addr ip, bool minus_one)
     struct sr_core_frame *frame = sr_core_frame_new();
     frame->address = frame->build_id_offset = (uint64_t)ip;
 
-    /* see dwfl_frame_state_pc for meaning of this parameter */
+    /* A return address may be the first one behind the function that made the
+     * call, see dwfl_frame_pc. */
     Dwarf_Addr ip_adjusted = ip - (minus_one ? 1 : 0);
 
     Dwfl_Module *mod = dwfl_addrmodule(dwfl, ip_adjusted);
diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 67841cd..c53966f 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -61,15 +61,15 @@ frame_callback(Dwfl_Frame *frame, void *data)
     char **error_msg = &frame_arg->error_msg;
 
     Dwarf_Addr pc;
-    bool minus_one;
-    if (!dwfl_frame_pc(frame, &pc, &minus_one))
+    bool is_activation;
+    if (!dwfl_frame_pc(frame, &pc, &is_activation))
     {
         set_error_dwfl("dwfl_frame_pc");
         return DWARF_CB_ABORT;
     }
 
     Dwfl *dwfl = dwfl_thread_dwfl(dwfl_frame_thread(frame));
-    struct sr_core_frame *result = resolve_frame(dwfl, pc, minus_one);
+    struct sr_core_frame *result = resolve_frame(dwfl, pc, !is_activation);
 
     /* Do not unwind below __libc_start_main. */
     if (0 == g_strcmp0(result->function_name, "__libc_start_main"))
-- 
2.43.0


From 884fb30adf411375091e16cd785db9ed4e7e26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 90/91] fix: Limit the number of frames made from gdb output

---
 lib/core_unwind.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 8c50ce9..6a7f53a 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -466,7 +466,12 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
             if (nframes)
                 --nframes;
             else
+            {
+                while (top_frame->signal_handler_called)
+                    top_frame = top_frame->next;
+
                 top_frame = top_frame->next;
+            }
         }
 
         for (struct sr_gdb_frame *gdb_frame = top_frame;
-- 
2.43.0


From db0afe047d6ec152de1645f0b8d9d8cfebc527c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 91/91] fix: Remember the executable of a core stack trace

---
 lib/core_stacktrace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index f1b3fcc..c1c6d19 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -350,6 +350,8 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
     struct sr_core_stacktrace *core_stacktrace =
         sr_core_stacktrace_new();
 
+    core_stacktrace->executable = g_strdup(executable_path);
+
     struct sr_gdb_thread *gdb_thread = gdb_stacktrace->threads;
     while (gdb_thread)
     {
-- 
2.43.0

