From 39f5a58455cd4fa5519e3a23704d78f3e27ebe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 1/3] fix: pvalloc of a size that cannot be rounded up to a
 page must fail

---
 tcmalloc/tcmalloc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index eb9c496..d30e12e 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -1859,6 +1859,10 @@ extern "C" ABSL_CACHELINE_ALIGNED void* TCMallocInternalPvalloc(
   if (size == 0) {     // pvalloc(0) should allocate one page, according to
     size = page_size;  // http://man.free4web.biz/man3/libmpatrol.3.html
   }
+  if (ABSL_PREDICT_FALSE(size >
+                         std::numeric_limits<size_t>::max() - (page_size - 1))) {
+    return MallocPolicy::handle_oom(size);
+  }
   size = (size + page_size - 1) & ~(page_size - 1);
   return fast_alloc(size, MallocPolicy().AlignAs(page_size));
 }
-- 
2.43.0


From 03737256a5e87df38795c3d3d87800c600a7b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 2/3] fix: aligned requests beyond a hugepage must fail through
 the out-of-memory path

---
 tcmalloc/tcmalloc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tcmalloc/tcmalloc.cc b/tcmalloc/tcmalloc.cc
index d30e12e..f62c0b0 100644
--- a/tcmalloc/tcmalloc.cc
+++ b/tcmalloc/tcmalloc.cc
@@ -630,6 +630,10 @@ namespace {
 
 template <typename Policy>
 inline sized_ptr_t do_malloc_pages(size_t size, size_t weight, Policy policy) {
+  // The page allocator supports alignments of up to a hugepage.
+  if (ABSL_PREDICT_FALSE(static_cast<size_t>(policy.align()) > kHugePageSize)) {
+    return {nullptr, 0};
+  }
   // Page allocator does not deal well with num_pages = 0.
   Length num_pages = std::max<Length>(BytesToLengthCeil(size), Length(1));
 
-- 
2.43.0


From c6e49844b0999b6660e1a0f5aaf7f97b07c51bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 3/3] fix: memory release must not abort when the madvise probe
 cannot be mapped

---
 tcmalloc/internal/system_allocator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tcmalloc/internal/system_allocator.cc b/tcmalloc/internal/system_allocator.cc
index 2270c9c..f0216ec 100644
--- a/tcmalloc/internal/system_allocator.cc
+++ b/tcmalloc/internal/system_allocator.cc
@@ -105,7 +105,11 @@ int MadvDontNeedAdviceAvailable() {
     const size_t page_size = GetPageSize();
     void* ptr =
         mmap(nullptr, page_size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
-    TC_CHECK_NE(ptr, MAP_FAILED, "Unable to mmap test allocation.");
+    if (ptr == MAP_FAILED) {
+      // Without memory for the probe, settle for what every kernel supports.
+      advice = MADV_DONTNEED;
+      return;
+    }
     int ret = madvise(ptr, page_size, MADV_DONTNEED_LOCKED);
     advice = (ret == 0) ? MADV_DONTNEED_LOCKED : MADV_DONTNEED;
     munmap(ptr, page_size);
-- 
2.43.0

