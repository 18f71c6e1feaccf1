From 70a49834469224dce0d0740f32be6686e114221f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 01/24] fix: pass the caller's mode on to open and openat

The wrappers passed a va_list (or nothing at all) as the mode, so created
files got arbitrary permission bits.
---
 .../src/taint_sources/taint_sources.cpp       | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index fba8458..0284ac7 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -47,13 +47,18 @@ extern void polytracker_end();
 // Following the libc custom functions from custom.cc
 namespace {
 
-static int impl_open(const char *path, int oflags, dfsan_label path_label,
-                     dfsan_label flag_label, dfsan_label *va_labels,
-                     dfsan_label *ret_label, ...) {
-  va_list args;
-  va_start(args, ret_label);
-  int fd = open(path, oflags, args);
-  va_end(args);
+// The mode argument of open-style functions is only present if a file might be
+// created.
+static mode_t open_mode(int oflags, va_list args) {
+  if ((oflags & O_CREAT) || (oflags & O_TMPFILE) == O_TMPFILE) {
+    return va_arg(args, mode_t);
+  }
+  return 0;
+}
+
+static int impl_open(const char *path, int oflags, mode_t mode,
+                     dfsan_label *ret_label) {
+  int fd = open(path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
@@ -159,14 +164,22 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
                            dfsan_label flag_label, dfsan_label *va_labels,
                            dfsan_label *ret_label, ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  mode_t mode = open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
                              dfsan_label path_label, dfsan_label flag_label,
                              dfsan_label *va_labels, dfsan_label *ret_label,
                              ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  mode_t mode = open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
@@ -175,8 +188,9 @@ EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
                              ...) {
   va_list args;
   va_start(args, ret_label);
-  int fd = openat(dirfd, path, oflags, args);
+  mode_t mode = open_mode(oflags, args);
   va_end(args);
+  int fd = openat(dirfd, path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
-- 
2.43.0


From 893d50175198c1ac23b75e3724cfeea03801077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 02/24] fix: stop loudly when no labels are left for source
 bytes

The empty optional was dereferenced.
---
 polytracker/include/taintdag/labels.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index 66fcb5b..d9a926e 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -41,7 +41,9 @@ struct Labels : public FixedSizeAlloc<storage_t> {
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
         });
-    // TODO(hbrodin): Check valid return
+    if (!maybe_range) {
+      error_exit("Failed to create ", length, " source labels.");
+    }
     auto first = index(*maybe_range->begin());
     auto last = first + length - 1;
     return {first, last};
-- 
2.43.0


From 20f220e4d3d22408de68ae6f4d1fa706a741b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 03/24] fix: let the function mapping own its names

The map kept views of the caller's memory, so a name passed in a temporary
buffer was compared with whatever the buffer held later.
---
 polytracker/include/taintdag/fnmapping.h | 4 +++-
 polytracker/src/taintdag/fnmapping.cpp   | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/polytracker/include/taintdag/fnmapping.h b/polytracker/include/taintdag/fnmapping.h
index 1141be7..ec3b53d 100644
--- a/polytracker/include/taintdag/fnmapping.h
+++ b/polytracker/include/taintdag/fnmapping.h
@@ -11,6 +11,7 @@
 #include <cstdint>
 #include <mutex>
 #include <optional>
+#include <string>
 #include <string_view>
 #include <unordered_map>
 
@@ -44,7 +45,8 @@ public:
 private:
   StringTable &string_table;
   std::mutex mappings_mutex;
-  std::unordered_map<std::string_view, index_t> mappings;
+  // Owns the names, the caller's memory might be gone on the next lookup.
+  std::unordered_map<std::string, index_t> mappings;
 };
 
 } // namespace taintdag
diff --git a/polytracker/src/taintdag/fnmapping.cpp b/polytracker/src/taintdag/fnmapping.cpp
index 8ce76a2..fd5a460 100644
--- a/polytracker/src/taintdag/fnmapping.cpp
+++ b/polytracker/src/taintdag/fnmapping.cpp
@@ -24,7 +24,8 @@ std::optional<index_t> Functions::add_mapping(std::string_view name) {
   // std::cout << "BREAK 1" << std::endl;
   std::unique_lock mappings_lock(mappings_mutex);
   // See if we already have a mapping of `name`
-  if (auto it{mappings.find(name)}; it != mappings.end()) {
+  std::string key{name};
+  if (auto it{mappings.find(key)}; it != mappings.end()) {
     return it->second;
   }
   // Write `name` into the string table section
@@ -39,7 +40,7 @@ std::optional<index_t> Functions::add_mapping(std::string_view name) {
     return {};
   }
   // Return index of `Function` in `Functions`
-  return mappings[name] = index(maybe_ctx->t);
+  return mappings[key] = index(maybe_ctx->t);
 }
 
 } // namespace taintdag
\ No newline at end of file
-- 
2.43.0


From 75ef6f5e0e1298f290529d07ef752fa7754a8334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 04/24] fix: label all bytes fgets read from a seekable stream

The length was taken from the first null byte, so a line containing null
bytes was labelled only in part.
---
 polytracker/src/taint_sources/taint_sources.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 0284ac7..8469cd4 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -313,6 +313,13 @@ EXT_C_FUNC char *__dfsw_fgets(char *str, int count, FILE *fd,
   auto offset = Offset::from_file(fd);
   char *ret = fgets(str, count, fd);
   auto length = Length::from_returned_string(ret);
+  if (ret && offset.valid()) {
+    // The line might contain null bytes, use the stream position if there is
+    // one.
+    if (auto end = Offset::from_file(fd); end.valid()) {
+      length = Length::from_returned_size(*end.value() - *offset.value());
+    }
+  }
   taint_source_buffer(fileno(fd), str, offset, length, *ret_label);
   if (length.valid()) {
     *ret_label = str_label;
-- 
2.43.0


From 4049132c0eeb5598b34d113f29f2b3ba41812d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 05/24] fix: keep labels when munmap fails

---
 polytracker/src/taint_sources/taint_sources.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 8469cd4..e19e492 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -393,7 +393,9 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   fprintf(stderr, "### munmap, addr %p, length %zu \n", addr, length);
 #endif
   int ret = munmap(addr, length);
-  dfsan_set_label(0, addr, length);
+  if (ret == 0) {
+    dfsan_set_label(0, addr, length);
+  }
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From aa9b3f18bb3cf7b08d0513b49046122de2c03901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 06/24] fix: label only bytes of the file in a mapping

Anonymous mappings were attributed to whatever source has that descriptor
(argv has -1), and bytes behind the end of the file got labels of offsets
the file does not have.
---
 polytracker/src/taint_sources/taint_sources.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index e19e492..2668bb2 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -379,8 +379,18 @@ EXT_C_FUNC void *__dfsw_mmap(void *start, size_t length, int prot, int flags,
                              dfsan_label offset_label, dfsan_label *ret_label) {
   auto offs = Offset::from_off_t(offset);
   void *ret = mmap(start, length, prot, flags, fd, offset);
-  if (ret != MAP_FAILED) {
-    get_polytracker_tdag().source_taint(fd, ret, offs, length);
+  if (ret != MAP_FAILED && !(flags & MAP_ANONYMOUS)) {
+    // Bytes after the end of the file are not part of the source
+    auto valid = length;
+    struct stat st;
+    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
+      valid = st.st_size > offset
+                  ? std::min(length, static_cast<size_t>(st.st_size - offset))
+                  : 0;
+    }
+    if (valid > 0) {
+      get_polytracker_tdag().source_taint(fd, ret, offs, valid);
+    }
   }
 
   *ret_label = 0;
-- 
2.43.0


From 4622e2ae1d20c482fb36bc7cc5600d31fac7cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 07/24] fix: record putc of characters outside 0..255

putc returns the character as unsigned char, which need not equal the
argument.
---
 polytracker/src/taint_sources/write_taints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 575cdb9..3d8a2a3 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -81,7 +81,7 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
                            dfsan_label stream_label, dfsan_label *ret_label) {
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
-  if (ret == ch) {
+  if (ret != EOF) {
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From 86b8cd8522b8538c33a8d97b82fe6c55e0f60d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 08/24] fix: strcat copies the labels of the bytes it copies

It applied the label of the source pointer, starting one byte too early (in
front of the buffer for an empty destination).
---
 polytracker/src/taint_sources/string_taints.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/string_taints.cpp b/polytracker/src/taint_sources/string_taints.cpp
index 7965a84..f4ddc8d 100644
--- a/polytracker/src/taint_sources/string_taints.cpp
+++ b/polytracker/src/taint_sources/string_taints.cpp
@@ -3,9 +3,14 @@
 // __dfsw_strcat
 EXT_C_FUNC char *__dfsw_strcat(char *dest, char *src, dfsan_label dest_label,
                                dfsan_label src_label, dfsan_label *ret_label) {
-  int curr_offset = strlen(dest) - 1;
+  size_t dest_len = strlen(dest);
+  size_t src_len = strlen(src);
   char *ret_val = strcat(dest, src);
-  dfsan_set_label(src_label, dest + curr_offset, strlen(dest) - curr_offset);
+  // Including the terminator
+  for (size_t i = 0; i <= src_len; ++i) {
+    dfsan_set_label(dfsan_read_label(src + i, sizeof(char)),
+                    dest + dest_len + i, sizeof(char));
+  }
   *ret_label = dest_label;
   return ret_val;
 }
-- 
2.43.0


From 028ecc9c6e994e16ce4bcb1fa63dbf0b56b932d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 09/24] fix: realloc copies the labels of the old block only

A failed realloc wrote labels at address zero, and a growing one read and
copied labels of memory behind the old block.
---
 polytracker/src/taint_sources/memory_taints.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/polytracker/src/taint_sources/memory_taints.cpp b/polytracker/src/taint_sources/memory_taints.cpp
index 5372eef..5ecfc77 100644
--- a/polytracker/src/taint_sources/memory_taints.cpp
+++ b/polytracker/src/taint_sources/memory_taints.cpp
@@ -1,4 +1,6 @@
 #include "polytracker/taint_sources.h"
+#include <algorithm>
+#include <malloc.h>
 #include <vector>
 
 EXT_C_FUNC void *__dfsw_malloc(size_t size, dfsan_label size_label,
@@ -12,25 +14,20 @@ EXT_C_FUNC void *__dfsw_realloc(void *ptr, size_t new_size,
                                 dfsan_label ptr_label, dfsan_label size_label,
                                 dfsan_label *ret_label) {
 
-  // TODO (hbrodin): This is incorrect. There is not new_size bytes available
-  // (typically) but for now, lets just hope that the user of returned memory
-  // clears it (no undefined read). This might actually cause a read oob if at
-  // the end of shadow memory... Need to track all allocation sizes to only copy
-  // the amount of memory avail in the old allocation.
-  //
   // Make a copy of shadow memory/labels, in case we do actually move it
   // This could be a lot faster if we used the shadow_for function and did a
   // straight copy...
   std::vector<dfsan_label> shadow;
   auto oldptr = reinterpret_cast<char *>(ptr);
   if (oldptr != nullptr && new_size > 0) {
-    shadow.reserve(new_size);
-    std::transform(oldptr, oldptr + new_size, std::back_inserter(shadow),
+    auto keep = std::min(new_size, malloc_usable_size(ptr));
+    shadow.reserve(keep);
+    std::transform(oldptr, oldptr + keep, std::back_inserter(shadow),
                    [](char &v) { return dfsan_read_label(&v, sizeof(v)); });
   }
 
   void *new_mem = realloc(ptr, new_size);
-  if (new_mem != oldptr) {
+  if (new_mem != nullptr && new_mem != oldptr) {
     for (size_t i = 0; i < shadow.size(); i++) {
       dfsan_set_label(shadow[i], reinterpret_cast<char *>(new_mem) + i,
                       sizeof(char));
-- 
2.43.0


From 0d4324dcdd4497291cabde98e5646df58beb56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 10/24] fix: pass the condition through before tracking has
 started

Early constructors saw every logged condition as zero, with an undefined
label.
---
 polytracker/src/polytracker/polytracker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/polytracker/polytracker.cpp b/polytracker/src/polytracker/polytracker.cpp
index 56064e3..6e22a44 100644
--- a/polytracker/src/polytracker/polytracker.cpp
+++ b/polytracker/src/polytracker/polytracker.cpp
@@ -77,7 +77,8 @@ extern "C" uint64_t __dfsw___polytracker_log_tainted_control_flow(
     uint64_t conditional, uint32_t functionid, dfsan_label conditional_label,
     dfsan_label function_label, dfsan_label *ret_label) {
   if (!polytracker_is_initialized()) {
-    return 0;
+    *ret_label = conditional_label;
+    return conditional;
   }
   if (conditional_label > 0) {
     get_polytracker_tdag().log_tainted_control_flow(conditional_label,
-- 
2.43.0


From 53eb9dda299ca566925cf13aa23bcd78bec33f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:42 +0000
Subject: [PATCH 11/24] fix: stop loudly when the sink log is full

Further records were dropped silently.
---
 polytracker/include/taintdag/sink.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/sink.h b/polytracker/include/taintdag/sink.h
index 4f786bc..4858580 100644
--- a/polytracker/include/taintdag/sink.h
+++ b/polytracker/include/taintdag/sink.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "taintdag/error.h"
 #include "taintdag/section.h"
 #include "taintdag/taint.h"
 
@@ -33,7 +34,9 @@ struct TaintSinkBase : public FixedSizeAlloc<SinkLogEntry> {
   TaintSinkBase(SectionArg<OF> of) : FixedSizeAlloc{of.range} {}
 
   void log_single(sink_offset_t offset, label_t label, sink_index_t idx) {
-    construct(offset, label, idx);
+    if (!construct(offset, label, idx)) {
+      error_exit("Failed to log tainted sink at offset: ", offset);
+    }
   }
 };
 
-- 
2.43.0


From 7bca5bbafd6154ad7fa36aa7542de6212c5f22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:52 +0000
Subject: [PATCH 12/24] fix: forget the source of a file descriptor when it is
 closed

A closed descriptor number that was reused for something untracked (pipe,
socket, dup) was still attributed to the old source.
---
 polytracker/include/taintdag/taint_source.h   | 42 ++++++++++++-------
 .../src/taint_sources/taint_sources.cpp       | 10 ++---
 polytracker/src/taintdag/polytracker.cpp      |  6 ++-
 3 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index c55eec0..9562fc4 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <array>
+#include <atomic>
 #include <limits>
 #include <optional>
 
@@ -66,6 +68,9 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
     if (of.range.size() > allocation_size)
       error_exit(
           "Got larger allocation than can be addressed by the index_t type.");
+    for (auto &fd : fds_) {
+      fd = SourceEntry::InvalidFD;
+    }
   }
 
   std::optional<index_t> add_source(std::string_view name,
@@ -76,7 +81,9 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
       // Source name was successfully written, now add the source to this
       // section.
       if (auto ctx = construct(*idx, fd, size)) {
-        return index(ctx->t);
+        auto source_index = index(ctx->t);
+        fds_[source_index] = fd;
+        return source_index;
       }
     }
     // Failed to either write string or source.
@@ -84,28 +91,35 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
   }
 
   std::optional<index_t> mapping_idx(int fd) const {
-    if (auto ptr = find_reverse_if(
-            [fd](SourceEntry const &se) { return se.fd == fd; })) {
-      return index(*ptr);
+    if (fd == SourceEntry::InvalidFD) {
+      return {};
+    }
+    for (auto i = count(); i > 0; --i) {
+      if (fds_[i - 1] == fd) {
+        return i - 1;
+      }
     }
     return {};
   }
 
+  // Called when fd is closed. The sources remain, but as the fd number might be
+  // reused for something else they are no longer found through fd.
+  void remove_mapping(int fd) {
+    for (auto i = count(); i > 0; --i) {
+      if (fds_[i - 1] == fd) {
+        fds_[i - 1] = SourceEntry::InvalidFD;
+      }
+    }
+  }
+
   // TODO(hbrodin): idx is currently not checked to be within bounds.
   SourceEntry get(index_t idx) { return *(begin() + idx); }
 
 private:
-  template <typename F> SourceEntry const *find_reverse_if(F &&f) const {
-    auto b = std::make_reverse_iterator(end());
-    auto e = std::make_reverse_iterator(begin());
-    auto it = std::find_if(b, e, std::forward<F>(f));
-    if (it != e) {
-      return &*it;
-    }
-    return {};
-  }
-
   StringTable &st_;
+
+  // The fd currently referring to each source, InvalidFD if there is none.
+  std::array<std::atomic<int>, size_t{max_source_index} + 1> fds_;
 };
 
 } // namespace taintdag
diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 2668bb2..83667f1 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -214,11 +214,10 @@ EXT_C_FUNC FILE *__dfsw_fopen(const char *filename, const char *mode,
 
 EXT_C_FUNC int __dfsw_close(int fd, dfsan_label fd_label,
                             dfsan_label *ret_label) {
+  // Has to be done before close, another thread might reuse the fd right after
+  get_polytracker_tdag().close_file(fd);
   int ret = close(fd);
 
-  if (ret == 0)
-    get_polytracker_tdag().close_file(fd);
-
   *ret_label = 0;
   return ret;
 }
@@ -226,10 +225,9 @@ EXT_C_FUNC int __dfsw_close(int fd, dfsan_label fd_label,
 EXT_C_FUNC int __dfsw_fclose(FILE *fd, dfsan_label fd_label,
                              dfsan_label *ret_label) {
   int fno = fileno(fd);
+  // Has to be done before fclose, another thread might reuse the fd right after
+  get_polytracker_tdag().close_file(fno);
   int ret = fclose(fd);
-
-  if (ret == 0)
-    get_polytracker_tdag().close_file(fno);
   *ret_label = 0;
   return ret;
 }
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 65b683a..41930ed 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -34,6 +34,9 @@ void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
     size = SourceEntry::InvalidSize;
   }
 
+  // If fd was closed without notice, it no longer refers to an older source
+  output_file_.section<Sources>().remove_mapping(fd);
+
   // TODO (hbrodin): If we decide to separate sources and sinks, extend this
   // method to accept a direction parameter e.g. in, inout, out and make an
   // additional call to add a sink.
@@ -41,8 +44,7 @@ void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
 }
 
 void PolyTracker::close_file(int fd) {
-  // TODO (hbrodin): Noop for now.
-  (void)fd;
+  output_file_.section<Sources>().remove_mapping(fd);
 }
 
 taint_range_t PolyTracker::create_source_taint(source_index_t src,
-- 
2.43.0


From a66cb971395fde12dacc807b5b7b6619ded6096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 13/24] fix: determine the size of a source from its file
 descriptor

The path does not refer to the opened file if it is relative to the
directory passed to openat or if it was replaced after open.
---
 polytracker/src/taintdag/polytracker.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 41930ed..bf3e6b0 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -7,7 +7,7 @@
  */
 
 #include <filesystem>
-#include <system_error>
+#include <sys/stat.h>
 
 #include "taintdag/polytracker.h"
 #include "taintdag/util.h"
@@ -28,10 +28,10 @@ label_t PolyTracker::union_labels(label_t l1, label_t l2) {
 
 void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
   // Try to determine the file size. If unknown, just mark it as unknown.
-  std::error_code ec;
-  uint64_t size = std::filesystem::file_size(path, ec);
-  if (ec) {
-    size = SourceEntry::InvalidSize;
+  uint64_t size = SourceEntry::InvalidSize;
+  struct stat st;
+  if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
+    size = st.st_size;
   }
 
   // If fd was closed without notice, it no longer refers to an older source
-- 
2.43.0


From 8d3480ac92cac89b55c5361f8c32819262dc72bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 14/24] fix: handle MSG_TRUNC and MSG_PEEK in recv and recvfrom

MSG_TRUNC returns the size of the message, which labelled memory after the
buffer. MSG_PEEK moved the stream offset for bytes that are received again.
---
 polytracker/include/taintdag/polytracker.h    |  4 +++
 .../src/taint_sources/taint_sources.cpp       | 28 ++++++++++++++++---
 polytracker/src/taintdag/polytracker.cpp      |  8 ++++++
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/polytracker/include/taintdag/polytracker.h b/polytracker/include/taintdag/polytracker.h
index 751f6d1..cea0fc6 100644
--- a/polytracker/include/taintdag/polytracker.h
+++ b/polytracker/include/taintdag/polytracker.h
@@ -45,6 +45,10 @@ public:
   std::optional<taint_range_t> source_taint(int fd, util::Offset offset,
                                             size_t length);
 
+  // Offset of the next byte to be read from the stream fd. Invalid if fd is not
+  // tracked.
+  util::Offset stream_read_offset(int fd);
+
   // Create a new taint source (not a file) and assigns taint labels
   // A new taint source named 'name' is created
   // Memory in 'dst' is assigned source taint labels referring to source 'name'
diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 83667f1..dbce101 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -144,6 +144,25 @@ static ssize_t impl_read_recv_functions(dfsan_label &ret_label, int fd,
   return impl_offset_read_functions(ret_label, offset, ret, fd, buffer);
 }
 
+// Implements taint source functions for the `recv`-style functions
+// As `impl_read_recv_functions`, except that `recv_flags` might cause
+// - more bytes to be returned than `buffer_length` (MSG_TRUNC)
+// - the bytes returned to be received again (MSG_PEEK)
+template <typename F, typename... Args>
+static ssize_t impl_recv_functions(dfsan_label &ret_label, int fd, void *buffer,
+                                   size_t buffer_length, int recv_flags,
+                                   F &&recv_function, Args... recv_args) {
+  auto offset = Offset::from_fd(fd);
+  auto ret = recv_function(recv_args...);
+  if (!offset.valid() && (recv_flags & MSG_PEEK)) {
+    offset = get_polytracker_tdag().stream_read_offset(fd);
+  }
+  auto received =
+      ret > 0 ? std::min(ret, static_cast<ssize_t>(buffer_length)) : ret;
+  impl_offset_read_functions(ret_label, offset, received, fd, buffer);
+  return ret;
+}
+
 // Implementation for the `fread`-style functions
 // `ret_label` is the label for the return value. It will be assigned the source
 // label (if any), unless EOF is reached. `file` is the file stream to read from
@@ -536,8 +555,8 @@ EXT_C_FUNC ssize_t __dfsw_recv(int socket, void *buff, size_t length, int flags,
                                dfsan_label length_label,
                                dfsan_label flags_label,
                                dfsan_label *ret_label) {
-  return impl_read_recv_functions(*ret_label, socket, buff, recv, socket, buff,
-                                  length, flags);
+  return impl_recv_functions(*ret_label, socket, buff, length, flags, recv,
+                             socket, buff, length, flags);
 }
 
 EXT_C_FUNC ssize_t __dfsw_recvfrom(
@@ -546,6 +565,7 @@ EXT_C_FUNC ssize_t __dfsw_recvfrom(
     dfsan_label buffer_label, dfsan_label length_label, dfsan_label flags_label,
     dfsan_label address_label, dfsan_label address_len_label,
     dfsan_label *ret_label) {
-  return impl_read_recv_functions(*ret_label, socket, buffer, recvfrom, socket,
-                                  buffer, length, flags, address, address_len);
+  return impl_recv_functions(*ret_label, socket, buffer, length, flags,
+                             recvfrom, socket, buffer, length, flags, address,
+                             address_len);
 }
\ No newline at end of file
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index bf3e6b0..be53114 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -109,6 +109,14 @@ PolyTracker::source_taint(int fd, util::Offset offset, size_t length) {
   return {};
 }
 
+util::Offset PolyTracker::stream_read_offset(int fd) {
+  if (auto source_index = output_file_.section<Sources>().mapping_idx(fd)) {
+    return util::Offset::from_off_t(
+        stream_read_offsets_.increase(*source_index, 0));
+  }
+  return {};
+}
+
 // Introduce source taint to a named memory location
 //
 // Allows a memory region (dst) to be considered a taint source. A new source
-- 
2.43.0


From e1c1416ab356b4db6733fb6e530933a86e57a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 15/24] fix: don't terminate when a peer has disconnected
 before accept returns

getpeername fails with ENOTCONN for such a connection.
---
 polytracker/src/taint_sources/taint_sources.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index dbce101..4757f2a 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -469,7 +469,7 @@ static std::optional<std::string> connect_name(int socket) {
   if (int ret = getsockname(socket, reinterpret_cast<sockaddr *>(&local_addr),
                             &local_len);
       ret != 0) {
-    taintdag::error_exit("Failed to get sockname for socket ", socket);
+    return {};
   }
 
   // The only supported address family for now is AF_INET
@@ -479,7 +479,8 @@ static std::optional<std::string> connect_name(int socket) {
   if (int ret = getpeername(socket, reinterpret_cast<sockaddr *>(&remote_addr),
                             &remote_len);
       ret != 0) {
-    taintdag::error_exit("Failed to get peername for socket ", socket);
+    // The peer might already have disconnected
+    return {};
   }
 
   if (!inet_ntop(AF_INET, &(local_addr.sin_addr), local_str,
-- 
2.43.0


From 3e6b0f05944bae7d9c54fdafd50f8c76e3750471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 16/24] fix: don't use a standard stream's descriptor for the
 output file

With e.g. stdout closed, output of the program overwrote the TDAG.
---
 polytracker/include/taintdag/storage.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/polytracker/include/taintdag/storage.h b/polytracker/include/taintdag/storage.h
index 51b40e4..e06cd3f 100644
--- a/polytracker/include/taintdag/storage.h
+++ b/polytracker/include/taintdag/storage.h
@@ -28,6 +28,15 @@ struct FixedSizeFile {
     if (fd == -1) {
       error_exit("Failed to open ", fname, " for writing.");
     }
+    if (fd <= STDERR_FILENO) {
+      // A standard stream is closed, leave its descriptor to the program.
+      int unused = fd;
+      fd = fcntl(unused, F_DUPFD, STDERR_FILENO + 1);
+      close(unused);
+      if (fd == -1) {
+        error_exit("Failed to duplicate descriptor of ", fname, ".");
+      }
+    }
     auto truncate_ret = ftruncate(fd, wanted_size);
     if (truncate_ret == -1) {
       error_exit("Failed to truncate ", fname, " to ", wanted_size, " bytes.");
-- 
2.43.0


From a9e534c81bc011388edf27a2a3be9dfb2f2b55b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 17/24] fix: log the offset appended data is written at

For files opened with O_APPEND the position before the write is not where
the data ends up.
---
 .../src/taint_sources/write_taints.cpp        | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 3d8a2a3..2898e84 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -2,6 +2,7 @@
 #include "polytracker/early_construct.h"
 #include "polytracker/taint_sources.h"
 #include "taintdag/polytracker.h"
+#include <fcntl.h>
 #include <iostream>
 #include <sanitizer/dfsan_interface.h>
 #include <sys/socket.h>
@@ -39,6 +40,24 @@ void impl_taint_sink(int fd, util::Offset offset, util::Length length,
   }
 }
 
+// Returns the offset a write of length bytes started from
+//
+// `before` is the offset before the write, `after` returns the one after it. If
+// `fd` is opened for appending, the position before the write doesn't matter.
+template <typename F>
+util::Offset write_offset(int fd, util::Offset before, F &&after,
+                          util::Length length) {
+  if (before.valid() && length.valid()) {
+    if (int flags = fcntl(fd, F_GETFL); flags != -1 && (flags & O_APPEND)) {
+      if (util::Offset end = after(); end.valid()) {
+        return util::Offset::from_off_t(*end.value() -
+                                        static_cast<off_t>(*length.value()));
+      }
+    }
+  }
+  return before;
+}
+
 // Implementation wrapper for write/send-style functions
 //
 // `ret_label` is the return value label, will be cleared
@@ -51,7 +70,10 @@ ssize_t impl_write_send(dfsan_label &ret_label, int fd, void *buffer,
                         F &&write_func, Args... write_func_args) {
   auto offset = util::Offset::from_fd(fd);
   auto retval = write_func(write_func_args...);
-  impl_taint_sink(fd, offset, util::Length::from_returned_size(retval), buffer);
+  auto length = util::Length::from_returned_size(retval);
+  offset = write_offset(
+      fd, offset, [fd] { return util::Offset::from_fd(fd); }, length);
+  impl_taint_sink(fd, offset, length, buffer);
   ret_label = 0;
   return retval;
 }
@@ -72,6 +94,9 @@ EXT_C_FUNC size_t __dfsw_fwrite(void *buf, size_t size, size_t count,
   auto offset = util::Offset::from_file(stream);
   auto write_count = fwrite(buf, size, count, stream);
   auto length = util::Length::from_returned_size_count(size, write_count);
+  offset = write_offset(
+      fileno(stream), offset,
+      [stream] { return util::Offset::from_file(stream); }, length);
   impl_taint_sink(fileno(stream), offset, length, buf);
   *ret_label = 0;
   return write_count;
@@ -82,6 +107,10 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
   if (ret != EOF) {
+    offset = write_offset(
+        fileno(stream), offset,
+        [stream] { return util::Offset::from_file(stream); },
+        util::Length::from_returned_size(sizeof(char)));
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From b91b96ad573ac06f8469f80b46b9ec465cdce352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 18/24] fix: stop loudly on source offsets that can't be
 recorded

Only the offset of the first byte was checked, the following ones
overwrote the source index.
---
 polytracker/include/taintdag/labels.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index d9a926e..c4046cf 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -37,6 +37,11 @@ struct Labels : public FixedSizeAlloc<storage_t> {
   // length labels in size.
   taint_range_t create_source_labels(source_index_t src, source_offset_t offset,
                                      size_t length) {
+    if (length > 0 &&
+        static_cast<source_offset_t>(length) - 1 > max_source_offset - offset) {
+      error_exit("Source offset ", offset, " and length ", length,
+                 " is larger than can be recorded.");
+    }
     auto maybe_range =
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
-- 
2.43.0


From b22d2eeb8a63af8e2fc60cf979c43fa635a56daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 19/24] fix: keep tracking state usable after the output file
 is finalized

The instance was destroyed at exit or on a failing assertion, while other
threads, signal handlers and destructors could still call into it.
---
 polytracker/include/taintdag/outputfile.h  | 34 ++++++++++++++++------
 polytracker/include/taintdag/polytracker.h |  6 +++-
 polytracker/src/polytracker/main.cpp       |  6 ++--
 polytracker/src/taintdag/polytracker.cpp   |  2 ++
 polytracker/taint_dag.py                   |  8 ++++-
 5 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 752bba1..c145446 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -12,6 +12,7 @@
 #include <filesystem>
 #include <span>
 #include <tuple>
+#include <utility>
 
 #include "taintdag/storage.h"
 #include "taintdag/util.h"
@@ -117,19 +118,18 @@ public:
   }
 
   ~OutputFile() {
-    // Update the memory actually used by each section
-    // TODO(hbrodin): Consider other implementation strategies.
-    size_t _[] = {
-        file_header_
-            ->sections[util::TypeIndex<Sections,
-                                       std::tuple<Sections...>>::index]
-            .size = std::get<Sections>(sections_).size()...};
-
-    (void)_;
+    finalize();
     // TODO(hbrodin): Is there a need to notify the sections about shutdown in
     // progress?
   }
 
+  // Update the memory actually used by each section. The file is complete after
+  // this, but the sections can still be used.
+  // TODO(hbrodin): Consider other implementation strategies.
+  void finalize() {
+    finalize_sections(std::index_sequence_for<Sections...>{});
+  }
+
   // Accessor for a specific section in the OutputFile.
   template <typename T>
   T &section() requires(std::is_same_v<T, Sections> || ...) {
@@ -148,6 +148,22 @@ private:
     return {begin, end};
   }
 
+  // Other threads might still be adding entries. Entries only refer to older
+  // entries in sections ordered before their own, thus sizes are sampled
+  // backwards. As a process could terminate at any time they are published in
+  // the opposite order.
+  template <size_t... Index>
+  void finalize_sections(std::index_sequence<Index...>) {
+    constexpr auto count = sizeof...(Sections);
+    uint64_t sizes[count];
+    ((sizes[count - 1 - Index] =
+          std::get<count - 1 - Index>(sections_).size()),
+     ...);
+    (__atomic_store_n(&file_header_->sections[Index].size, sizes[Index],
+                      __ATOMIC_RELEASE),
+     ...);
+  }
+
   // Computes the required allocation size based on the requested allocation and
   // alignment requirements of the sections. The resulting layout might not be
   // optimally compact.
diff --git a/polytracker/include/taintdag/polytracker.h b/polytracker/include/taintdag/polytracker.h
index cea0fc6..9b09cb1 100644
--- a/polytracker/include/taintdag/polytracker.h
+++ b/polytracker/include/taintdag/polytracker.h
@@ -84,6 +84,9 @@ public:
   // Log function exit
   void function_exit(Functions::index_t index);
 
+  // Make the output file complete. The instance can still be used.
+  void finalize();
+
 private:
   taint_range_t create_source_taint(source_index_t src,
                                     std::span<uint8_t const> dst,
@@ -97,8 +100,9 @@ private:
   // ConcreteOutputFile is a specific configuration of the generic OutputFile
   // template. It determines the current layout of TDAG file in terms of which
   // sections and in which order they appear.
+  // NOTE: Sections may only refer to sections before them.
   using ConcreteOutputFile =
-      OutputFile<Sources, Labels, StringTable, TaintSink,
+      OutputFile<StringTable, Sources, Labels, TaintSink,
                  SourceLabelIndexSection, Functions, Events, ControlFlowLog>;
   ConcreteOutputFile output_file_;
 
diff --git a/polytracker/src/polytracker/main.cpp b/polytracker/src/polytracker/main.cpp
index 9f09540..2f47382 100644
--- a/polytracker/src/polytracker/main.cpp
+++ b/polytracker/src/polytracker/main.cpp
@@ -102,8 +102,10 @@ void polytracker_end() {
   if (int f = fileno(stderr); f >= 0) {
     get_polytracker_tdag().close_file(f);
   }
-  // Explicitly destroy the PolyTracker instance to flush mapping to disk
-  get_polytracker_tdag().~PolyTracker();
+  // Finalize the PolyTracker instance to flush mapping to disk. It can't be
+  // destroyed, instrumented code might still run (other threads, signal
+  // handlers, destructors).
+  get_polytracker_tdag().finalize();
 }
 
 void polytracker_print_settings() {
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index be53114..59978f4 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -213,4 +213,6 @@ void PolyTracker::function_exit(Functions::index_t index) {
   events.log_fn_event(Event::kind_t::exit, index);
 }
 
+void PolyTracker::finalize() { output_file_.finalize(); }
+
 } // namespace taintdag
\ No newline at end of file
diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 744e576..008bcd2 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -518,7 +518,13 @@ class TDFile:
         """Enumerates all taint labels that are input labels (source taint)"""
         source_index_section = self.sections_by_type[TDSourceIndexSection]
         assert isinstance(source_index_section, TDSourceIndexSection)
-        return source_index_section.enumerate_set_bits()
+        # Bits of labels that were created while the program exited are ignored
+        label_count = self.label_count
+        return (
+            label
+            for label in source_index_section.enumerate_set_bits()
+            if label < label_count
+        )
 
     @property
     def label_count(self):
-- 
2.43.0


From 3ab71a2cc5ce6384fe6245a975e0b8ab90f58480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:58 +0000
Subject: [PATCH 20/24] fix: read names that are not valid UTF-8

Paths can hold any bytes, one such source made the whole file unreadable.
---
 polytracker/taint_dag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 008bcd2..474a52a 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -110,6 +110,8 @@ class TDStringSection:
         return str(
             self.section[offset + sizeof(c_uint16) : offset + sizeof(c_uint16) + n],
             "utf-8",
+            # paths are arbitrary bytes
+            "surrogateescape",
         )
 
 
-- 
2.43.0


From a7f1c5d2f2765eb6ea203d08a539624ca3160dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:05 +0000
Subject: [PATCH 21/24] fix: merge cavities of a file that had different sizes
 when opened

Everything after the smaller size was dropped.
---
 polytracker/mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/mapping.py b/polytracker/mapping.py
index 845015b..0a80149 100644
--- a/polytracker/mapping.py
+++ b/polytracker/mapping.py
@@ -3,6 +3,7 @@ This module maps input byte offsets to output byte offsets
 """
 
 from collections import defaultdict
+from itertools import zip_longest
 from pathlib import Path
 from typing import Dict, Iterator, List, Optional, Set, Tuple
 from tqdm import tqdm
@@ -143,7 +144,9 @@ class InputOutputMapping:
         for k, v in markers.items():
             fname = self.tdfile.fd_headers[k][0]
             if fname in merged:
-                merged[fname] = bytes(a | b for (a, b) in zip(merged[fname], v))
+                merged[fname] = bytes(
+                    a | b for (a, b) in zip_longest(merged[fname], v, fillvalue=0)
+                )
             else:
                 merged[fname] = bytes(v)
 
-- 
2.43.0


From 2c6654bdf6ff6e593792922c6e18b9c2533ec303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:59 +0000
Subject: [PATCH 22/24] fix: remove labels of memory overwritten by untracked
 input

Data read from an untracked file descriptor kept the labels of whatever the
buffer held before.
---
 polytracker/src/taintdag/polytracker.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 59978f4..1e0a533 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -71,7 +71,7 @@ taint_range_t PolyTracker::create_source_taint(source_index_t src,
 // Introduce source taint when reading from taint source fd.
 //
 // If fd is not tracked as a taint source, no labels will be assigned to the
-// corresponding mem.
+// corresponding mem and previous labels are removed.
 // NOTE: If offset < 0, the assumption is made that offsets aren't known and
 // per source tracking should be used. This typically happens for stdin, sockets
 // and other streams.
@@ -86,6 +86,8 @@ std::optional<taint_range_t> PolyTracker::source_taint(int fd, void const *mem,
                                {reinterpret_cast<uint8_t const *>(mem), length},
                                offset_value);
   }
+  // The memory was overwritten, any labels refer to previous content
+  dfsan_set_label(0, const_cast<void *>(mem), length);
   return {};
 }
 
-- 
2.43.0


From 034d792731c372172eb1e32531db8ac5e253d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:06 +0000
Subject: [PATCH 23/24] fix: label all bytes fgets read from streams without
 position

A line containing null bytes was labelled up to the first one and shifted
the offsets of everything after it.
---
 .../src/taint_sources/taint_sources.cpp       | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 4757f2a..ae00c95 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -328,17 +328,20 @@ EXT_C_FUNC char *__dfsw_fgets(char *str, int count, FILE *fd,
                               dfsan_label str_label, dfsan_label count_label,
                               dfsan_label fd_label, dfsan_label *ret_label) {
   auto offset = Offset::from_file(fd);
-  char *ret = fgets(str, count, fd);
-  auto length = Length::from_returned_string(ret);
-  if (ret && offset.valid()) {
-    // The line might contain null bytes, use the stream position if there is
-    // one.
-    if (auto end = Offset::from_file(fd); end.valid()) {
-      length = Length::from_returned_size(*end.value() - *offset.value());
-    }
+  // The line might contain null bytes. Read into memory without any, to find
+  // the terminating null as the last one.
+  std::vector<char> line(std::max(count, 1), '\n');
+  char *ret = fgets(line.data(), count, fd);
+  Length length;
+  if (ret) {
+    auto terminator = std::find(line.rbegin(), line.rend(), '\0');
+    auto size = std::distance(terminator, line.rend()) - 1;
+    memcpy(str, line.data(), size + 1);
+    length = Length::from_returned_size(size);
+    ret = str;
   }
   taint_source_buffer(fileno(fd), str, offset, length, *ret_label);
-  if (length.valid()) {
+  if (ret) {
     *ret_label = str_label;
   }
   return ret;
-- 
2.43.0


From efa082a437220e4b7470665208c518c9e463f757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:06 +0000
Subject: [PATCH 24/24] fix: read the whole line in gets

At most seven bytes were read, and the newline was kept.
---
 .../src/taint_sources/taint_sources.cpp       | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index ae00c95..3973c93 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -347,23 +347,28 @@ EXT_C_FUNC char *__dfsw_fgets(char *str, int count, FILE *fd,
   return ret;
 }
 
-// TODO (hbrodin): Should this be removed? The call to fgets doesn't seem right,
-// especially then length is sizeof char*, typically eight. In general it is
-// unbounded and the gets-function is deprecated.
+// TODO (hbrodin): Should this be removed? In general it is unbounded and the
+// gets-function is deprecated.
 EXT_C_FUNC char *__dfsw_gets(char *str, dfsan_label str_label,
                              dfsan_label *ret_label) {
-  auto offset = Offset::from_file(stdin);
-  char *ret = fgets(str, sizeof str, stdin);
-
-  if (ret) {
-    size_t len = strlen(ret);
-    get_polytracker_tdag().source_taint(fileno(stdin), str, offset, len);
-    *ret_label = str_label;
-  } else {
-    *ret_label = 0;
+  *ret_label = 0;
+  char *pos = str;
+  for (;;) {
+    dfsan_label label;
+    int c = impl_getc_style_functions(label, stdin, getchar);
+    if (c == EOF && (pos == str || !feof(stdin))) {
+      return nullptr;
+    }
+    if (c == EOF || c == '\n') {
+      break;
+    }
+    *pos = c;
+    dfsan_set_label(label, pos++, sizeof(char));
   }
-
-  return ret;
+  *pos = '\0';
+  dfsan_set_label(0, pos, sizeof(char));
+  *ret_label = str_label;
+  return str;
 }
 
 EXT_C_FUNC ssize_t __dfsw_getdelim(char **lineptr, size_t *n, int delim,
-- 
2.43.0

