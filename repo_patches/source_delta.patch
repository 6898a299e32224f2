From 0054121ca527f694f7f21d4ebd5c2bf73bd56c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 01/67] fix: keep doubly mapped buffers contiguous for element
 sizes that do not divide the page size

---
 include/cler_spsc-queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index d4604a1..2c9d1f0 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -17,6 +17,7 @@
 #include <atomic>      // for atomic, memory_order
 #include <cstddef>     // for size_t
 #include <limits>      // for numeric_limits
+#include <numeric>     // for std::lcm
 #include <new>         // for std::hardware_destructive_interference_size
 #include <memory>      // for std::allocator_traits
 #include <type_traits> // for std::is_default_constructible
@@ -95,8 +96,10 @@ public:
           // If DBF is possible, align capacity to page boundary
           if (cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
-            const std::size_t page_size = cler::platform::get_page_size();
-            const std::size_t aligned_bytes = ((buffer_bytes + page_size - 1) / page_size) * page_size;
+            // The second mapping must start exactly capacity_ elements after the first,
+            // so the size has to be a multiple of the page size and of sizeof(T)
+            const std::size_t period = std::lcm(cler::platform::get_page_size(), sizeof(T));
+            const std::size_t aligned_bytes = ((buffer_bytes + period - 1) / period) * period;
             return aligned_bytes / sizeof(T);  // Return page-aligned capacity
           }
           return requested_capacity;  // Return regular capacity
-- 
2.43.0


From 889e0ab910a68cecdea664e473d7d792477fee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:50 +0000
Subject: [PATCH 02/67] fix: do not grow doubly mapped buffers to huge-page
 multiples (second mapping moved away from the end of the buffer)

---
 include/virtual_memory/cler_vmem_posix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/virtual_memory/cler_vmem_posix.hpp b/include/virtual_memory/cler_vmem_posix.hpp
index d344238..71fee33 100644
--- a/include/virtual_memory/cler_vmem_posix.hpp
+++ b/include/virtual_memory/cler_vmem_posix.hpp
@@ -80,16 +80,16 @@ public:
         
         // Get page sizes
         const std::size_t page_size = cler::platform::get_page_size();
-        std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
+        const std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
         
         // Determine if we should try huge pages
         bool use_huge_pages = false;
         
         #ifdef MAP_HUGETLB
         const std::size_t huge_page_size = get_huge_page_size();
-        if (huge_page_size > 0 && aligned_size >= huge_page_size) {
-            // Align to huge page boundary
-            aligned_size = ((size + huge_page_size - 1) / huge_page_size) * huge_page_size;
+        // Never grow the mapping: the second copy must start exactly one buffer length
+        // after the first, so huge pages are only an option for multiples of their size
+        if (huge_page_size > 0 && aligned_size >= huge_page_size && aligned_size % huge_page_size == 0) {
             use_huge_pages = true;
         }
         #endif
-- 
2.43.0


From 3dbb0102cd5b2c86730715d74d9b35fd015140a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 03/67] fix: a commit that overtakes the cached peer index no
 longer fakes data or room for the next single-sample call

---
 include/cler_spsc-queue.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 2c9d1f0..342e4f5 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -557,6 +557,12 @@ public:
     const auto capacity = base_type::capacity_;
     const auto readIndex = reader_.readIndex_.load(std::memory_order_relaxed);
     const auto nextReadIndex = (readIndex + count) % capacity;
+    // The caller may commit what size() reported, which can be more than the cached
+    // write index covers: an overtaken cache must not look like available data
+    const auto cached = (reader_.writeIndexCache_ + capacity - readIndex) % capacity;
+    if (count > cached) {
+      reader_.writeIndexCache_ = nextReadIndex;
+    }
     reader_.readIndex_.store(nextReadIndex, std::memory_order_release);
   }
 
@@ -604,6 +610,11 @@ public:
       const auto capacity = base_type::capacity_;
       const auto writeIndex = writer_.writeIndex_.load(std::memory_order_relaxed);
       const auto nextWriteIndex = (writeIndex + count) % capacity;
+      // As in commit_read: an overtaken cached read index must not look like free space
+      const auto cached = (writer_.readIndexCache_ + capacity - writeIndex - 1) % capacity;
+      if (count > cached) {
+        writer_.readIndexCache_ = (nextWriteIndex + 1) % capacity;
+      }
       writer_.writeIndex_.store(nextWriteIndex, std::memory_order_release);
   }
 
-- 
2.43.0


From 9cc45ff34ab9fbb6c4c4a22a330f1ee14e20f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:39 +0000
Subject: [PATCH 04/67] fix: probe for doubly mapped buffers exactly once when
 several threads create their first channel

---
 include/cler_platform.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cler_platform.hpp b/include/cler_platform.hpp
index 6ac191d..48ba7ff 100644
--- a/include/cler_platform.hpp
+++ b/include/cler_platform.hpp
@@ -129,11 +129,9 @@ namespace cler {
             #if !defined(__linux__) && !defined(__APPLE__) && !defined(__FreeBSD__)
                 return false;
             #else
-                static bool tested = false;
-                static bool supported = false;
-                
-                if (tested) return supported;
-                tested = true;
+                // Initialized exactly once, also when several threads create their first channel
+                static const bool cached = [] {
+                bool supported = false;
                 
                 #if CLER_HAS_MMAP_H
                     // Try to create a small test mapping
@@ -208,6 +206,8 @@ namespace cler {
                 #endif
                 
                 return supported;
+                }();
+                return cached;
             #endif
         }
 
-- 
2.43.0


From 4ddff57712382afb39afb8d80bf477dbafd488d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 05/67] fix: release channel storage when an element
 constructor throws

---
 include/cler_spsc-queue.hpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 342e4f5..ab00359 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -84,6 +84,31 @@ struct AdaptiveHeapBuffer {
 private:
   cler::vmem::DoublyMappedAllocation vmem_allocation_;
   T* raw_allocation_ = nullptr;  // For standard allocation cleanup
+
+  // Constructs all elements. The destructor does not run when a constructor throws, so
+  // the elements constructed so far and the allocation are released here in that case
+  void construct_elements(T* first, const std::size_t count) {
+    if constexpr (!std::is_trivially_constructible_v<T>) {
+      struct Rollback {
+        AdaptiveHeapBuffer& self;
+        T* first;
+        const std::size_t total;
+        std::size_t constructed = 0;
+        ~Rollback() {
+          if (constructed == total) return;
+          while (constructed > 0) {
+            std::allocator_traits<Allocator>::destroy(self.allocator_, first + --constructed);
+          }
+          if (self.raw_allocation_) {
+            std::allocator_traits<Allocator>::deallocate(self.allocator_, self.raw_allocation_, total);
+          }
+        }
+      } guard{*this, first, count};
+      for (; guard.constructed < count; ++guard.constructed) {
+        std::allocator_traits<Allocator>::construct(allocator_, first + guard.constructed);
+      }
+    }
+  }
   
 public:
   explicit AdaptiveHeapBuffer(const std::size_t capacity,
@@ -123,11 +148,7 @@ public:
           is_doubly_mapped_ = true;
           
           // Initialize ALL elements up to capacity_
-          if constexpr (!std::is_trivially_constructible_v<T>) {
-            for (std::size_t i = 0; i < capacity_; ++i) {
-              std::allocator_traits<Allocator>::construct(allocator_, buffer_ + i);
-            }
-          }
+          construct_elements(buffer_, capacity_);
           return; // Success!
         }
       }
@@ -138,11 +159,7 @@ public:
     raw_allocation_ = std::allocator_traits<Allocator>::allocate(allocator_, total_size);
     
     // Initialize all elements including padding
-    if constexpr (!std::is_trivially_constructible_v<T>) {
-      for (std::size_t i = 0; i < total_size; ++i) {
-        std::allocator_traits<Allocator>::construct(allocator_, raw_allocation_ + i);
-      }
-    }
+    construct_elements(raw_allocation_, total_size);
     
     // Adjust buffer to skip initial padding
     buffer_ = raw_allocation_ + padding;
-- 
2.43.0


From d0adbb3eb619e1afe72f5b774d247cfc6ab4d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:22 +0000
Subject: [PATCH 06/67] fix: keep the fixed thread pool's worker count within
 its queues

---
 include/cler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 91f22ad..069e161 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -586,6 +586,9 @@ namespace cler {
                 // More workers than blocks - use thread-per-block (current behavior)
                 run_thread_per_block(config);
             } else {
+                // The scheduler has queues for 1..DEFAULT_MAX_WORKERS workers; stay within them
+                num_workers = std::min(std::max<size_t>(num_workers, 1), DEFAULT_MAX_WORKERS);
+
                 // Fewer workers than blocks - use fixed thread pool scheduler
                 // Initialize with contiguous block grouping (keeps producer->consumer chains together)
                 fixed_thread_pool_scheduler.initialize(_N, num_workers);
-- 
2.43.0


From d1d0e769e71eafe6e3f5ab5182026d582fe79c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 07/67] fix: join the tasks of a self-terminated run before
 running the flowgraph again

---
 include/cler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 069e161..e0f1a60 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -236,6 +236,9 @@ namespace cler {
         void* on_err_terminate_context() const { return _on_err_terminate_context; }
 
         void run(const FlowGraphConfig& config = FlowGraphConfig{}) {
+            // Join what an earlier run left behind (e.g. after it terminated itself on a fatal error)
+            stop();
+
             _config = config;
             _stop_flag.store(false, std::memory_order_release);
             
-- 
2.43.0


From e641e784c1046583c6fa13da3757531758421338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 08/67] fix: join already started blocks when a later task of a
 thread-per-block run cannot be created

---
 include/cler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index e0f1a60..513fe3d 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -441,10 +441,11 @@ namespace cler {
         void launch_tasks_impl(std::index_sequence<Is...>, const FlowGraphConfig& config) {
             // C++17 fold expression: validates all indices are within bounds at compile time
             static_assert(((Is < _N) && ...), "All block indices must be within bounds");
+            // Count each task as it is created: if a later creation fails, stop() still joins the earlier ones
+            _active_task_count = 0;
             ((_tasks[Is] = TaskPolicy::create_task([this, config]() {
                 run_block_at_index_thread_per_block<Is>(config);
-            })), ...);
-            _active_task_count = _N;  // ThreadPerBlock creates one task per block
+            }), ++_active_task_count), ...);
         }
         
         template<std::size_t... Is>
-- 
2.43.0


From 269366b3491096733f9b2a45e9e17fae3796ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 09/67] fix: record the statistics of a thread-per-block block
 that ends the run with a fatal error

---
 include/cler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 513fe3d..2afda17 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -396,7 +396,7 @@ namespace cler {
                             if (_on_err_terminate_cb) {
                                 _on_err_terminate_cb(_on_err_terminate_context);
                             }
-                            return;
+                            break;  // _stop_flag ends the loop; the stats below still get finalized
                         }
 
                         if (err == Error::NotEnoughSpaceOrSamples || err == Error::NotEnoughSamples || err == Error::NotEnoughSpace) {
-- 
2.43.0


From 8639d4da3514280a0bede7fc542097f73cc7a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:32 +0000
Subject: [PATCH 10/67] fix: start every run's statistics from zero

---
 include/cler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 2afda17..e38b3fb 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -452,6 +452,14 @@ namespace cler {
         void init_stats_impl(std::index_sequence<Is...>) {
             static_assert(((Is < _N) && ...), "All block indices must be within bounds");
             ((_stats[Is].name = std::get<Is>(_runners).block->name()), ...);
+            // Counters and times describe the run that starts now, not the sum of all runs
+            for (auto& stats : _stats) {
+                stats.successful_procedures = 0;
+                stats.failed_procedures = 0;
+                stats.total_dead_time_s = 0.0;
+                stats.total_runtime_s = 0.0;
+                stats.final_adaptive_sleep_us = 0.0;
+            }
         }
         
         template<std::size_t... Is>
-- 
2.43.0


From 3afa2963f19807adca6c1ee325fbb11a1cab1b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:40 +0000
Subject: [PATCH 11/67] fix: measure run times and timed runs with the
 monotonic clock, not one that can be stepped

---
 include/cler.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index e38b3fb..359262e 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -257,7 +257,7 @@ namespace cler {
         template<typename Rep, typename Period>
         void run_for(const std::chrono::duration<Rep, Period>& duration, const FlowGraphConfig& config = FlowGraphConfig{}) {
             // Start the flowgraph
-            auto start_time = std::chrono::high_resolution_clock::now();
+            auto start_time = std::chrono::steady_clock::now();
             run(config);
             
             // For longer durations, use sleep_us to avoid busy waiting
@@ -271,7 +271,7 @@ namespace cler {
             }
             
             // Use relax for the remaining time for precise timing
-            while (std::chrono::high_resolution_clock::now() - start_time < duration) {
+            while (std::chrono::steady_clock::now() - start_time < duration) {
                 TaskPolicy::relax();
             }
             
@@ -361,12 +361,12 @@ namespace cler {
             }
 
             // Only declare timing variables if needed
-            std::chrono::high_resolution_clock::time_point t_start, t_last;
+            std::chrono::steady_clock::time_point t_start, t_last;
             size_t successful = 0, failed = 0;
             double total_dead_time_s = 0.0;
 
             if (config.collect_detailed_stats) {
-                t_start = t_last = std::chrono::high_resolution_clock::now();
+                t_start = t_last = std::chrono::steady_clock::now();
             }
 
             while (!_stop_flag) {
@@ -376,7 +376,7 @@ namespace cler {
                 for (size_t c = 0; c < config.max_calls_per_tick && !_stop_flag; ++c) {
                     std::chrono::duration<double> dt{};
                     if (config.collect_detailed_stats) {
-                        auto t_now = std::chrono::high_resolution_clock::now();
+                        auto t_now = std::chrono::steady_clock::now();
                         dt = t_now - t_last;
                         t_last = t_now;
                     }
@@ -425,7 +425,7 @@ namespace cler {
             }
 
             if (config.collect_detailed_stats) {
-                auto t_end = std::chrono::high_resolution_clock::now();
+                auto t_end = std::chrono::steady_clock::now();
                 std::chrono::duration<double> total_runtime_s = t_end - t_start;
 
                 stats.successful_procedures = successful;
@@ -484,7 +484,7 @@ namespace cler {
         std::array<BlockExecutionStats, _N> _stats;
         OnErrTerminateCallback _on_err_terminate_cb = nullptr;
         void* _on_err_terminate_context = nullptr;
-        std::array<std::chrono::high_resolution_clock::time_point, _N> _block_start_times;
+        std::array<std::chrono::steady_clock::time_point, _N> _block_start_times;
         size_t _active_task_count{0};  // Track actual created tasks to fix stop() hang
         
         // Initialize block stats with names (only if detailed stats enabled)
@@ -496,8 +496,8 @@ namespace cler {
         
         // Helper for conditional timing
         auto get_time_if_needed(bool collect_stats) {
-            return collect_stats ? std::chrono::high_resolution_clock::now() : 
-                                 std::chrono::high_resolution_clock::time_point{};
+            return collect_stats ? std::chrono::steady_clock::now() : 
+                                 std::chrono::steady_clock::time_point{};
         }
         
         
@@ -607,7 +607,7 @@ namespace cler {
                 
                 // Record start time for all blocks (only if detailed stats enabled)
                 if (config.collect_detailed_stats) {
-                    auto start_time = std::chrono::high_resolution_clock::now();
+                    auto start_time = std::chrono::steady_clock::now();
                     for (size_t i = 0; i < _N; ++i) {
                         _block_start_times[i] = start_time;
                     }
@@ -646,7 +646,7 @@ namespace cler {
                     
                     // Update dead time if block failed to process
                     if (!block_did_work && config.collect_detailed_stats) {
-                        auto t_after = std::chrono::high_resolution_clock::now();
+                        auto t_after = std::chrono::steady_clock::now();
                         std::chrono::duration<double> dt = t_after - t_before;
                         _stats[block_idx].total_dead_time_s += dt.count();
                     }
@@ -662,7 +662,7 @@ namespace cler {
             
             // Finalize stats when worker exits (only if detailed stats enabled)
             if (config.collect_detailed_stats) {
-                auto end_time = std::chrono::high_resolution_clock::now();
+                auto end_time = std::chrono::steady_clock::now();
                 // IMPORTANT: In this scheduler each block is executed only by its owning worker.
                 // Stats writes are safe because there's no work-stealing or migration.
                 // If work-stealing is added later, _stats writes must be made thread-safe or owner-only.
-- 
2.43.0


From 514d34403eda585c790b67c5097a457e06df9ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:57 +0000
Subject: [PATCH 12/67] fix: forget the adaptive back-off of earlier runs when
 a flowgraph is run again

---
 include/cler.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 359262e..c085d4a 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -240,6 +240,11 @@ namespace cler {
             stop();
 
             _config = config;
+            // Back-off learned in an earlier run (maybe under another configuration) does not carry over
+            for (auto& stats : _stats) {
+                stats.current_adaptive_sleep_us.store(0.0);
+                stats.consecutive_fails.store(0);
+            }
             _stop_flag.store(false, std::memory_order_release);
             
             
-- 
2.43.0


From 26a05febe325dff97ed0658bc27b06a6b949bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:43 +0000
Subject: [PATCH 13/67] fix: the first adaptive sleep respects the configured
 maximum

---
 include/cler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index c085d4a..ff13db3 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -323,8 +323,9 @@ namespace cler {
                     if (current_sleep == 0.0) {
                         // Start sleeping with 1 microsecond
                         static constexpr double INITIAL_SLEEP_US = 1.0;
-                        stats.current_adaptive_sleep_us.store(INITIAL_SLEEP_US);
-                        TaskPolicy::sleep_us(static_cast<size_t>(INITIAL_SLEEP_US));
+                        const double first_sleep = std::min(INITIAL_SLEEP_US, _config.adaptive_sleep_max_us);
+                        stats.current_adaptive_sleep_us.store(first_sleep);
+                        TaskPolicy::sleep_us(static_cast<size_t>(first_sleep));
                     } else {
                         // Exponential backoff with deterministic jitter to prevent thundering herd
                         double base_sleep = current_sleep * _config.adaptive_sleep_multiplier;
-- 
2.43.0


From 1aff56ada0c91cb390f55a70b96147c497d470cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 14/67] fix: a success restarts the adaptive-sleep fail count
 before later failures of the same batch are counted

---
 include/cler.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index ff13db3..4fc9b38 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -420,14 +420,14 @@ namespace cler {
                         if (config.collect_detailed_stats) {
                             successful++;
                         }
+                        // Before any later failure of the same batch, so that the fail count restarts here
+                        if (!did_work_in_batch) {
+                            handle_adaptive_sleep(I, true);
+                        }
                         did_work_in_batch = true;
                         // Keep looping up to max_calls_per_tick
                     }
                 }
-                
-                if (did_work_in_batch) {
-                    handle_adaptive_sleep(I, true);
-                }
             }
 
             if (config.collect_detailed_stats) {
@@ -727,15 +727,15 @@ namespace cler {
                     if (config.collect_detailed_stats) {
                         stats.successful_procedures++;
                     }
+                    // Before any later failure of the same batch, so that the fail count restarts here
+                    if (!did_work) {
+                        handle_adaptive_sleep(I, true);
+                    }
                     did_work = true;
                     // Keep looping up to max_calls_per_tick
                 }
             }
             
-            if (did_work) {
-                handle_adaptive_sleep(I, true);
-            }
-            
             return did_work;
         }
         
-- 
2.43.0


From 44b2eac7ddd471a2e5afabb17d2c5c87d3c34e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:02 +0000
Subject: [PATCH 15/67] fix: keep ThreadX control blocks and semaphores of a
 task at one address for its whole life

---
 .../task_policies/cler_threadx_tpolicy.hpp    | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/task_policies/cler_threadx_tpolicy.hpp b/include/task_policies/cler_threadx_tpolicy.hpp
index b35cd7b..0832156 100644
--- a/include/task_policies/cler_threadx_tpolicy.hpp
+++ b/include/task_policies/cler_threadx_tpolicy.hpp
@@ -27,18 +27,17 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     using TaskPolicyBase<ThreadXTaskPolicy>::relax;
     using TaskPolicyBase<ThreadXTaskPolicy>::pin_to_core;
     
-    // Structure to hold task data
+    // Everything the kernel and the task refer to by address. It is allocated once per task
+    // and never moves, so task handles can be returned, moved and stored freely.
     struct TaskData {
+        TX_THREAD thread;
+        TX_SEMAPHORE completion_sem;
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        TX_SEMAPHORE* completion_sem;
-        volatile bool task_completed;
     };
     
     struct TaskWrapper {
-        TX_THREAD thread;
-        TX_SEMAPHORE completion_sem;
         TaskData* task_data;
         UCHAR* stack_memory;
         volatile bool task_completed;
@@ -72,33 +71,34 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
             return wrapper; // Failed allocation
         }
         
+        // Allocate task data
+        using FuncType = typename std::decay<Func>::type;
+        auto* task_data = new TaskData{};
+        
         // Create completion semaphore
         static char sem_name[] = "ClerCompletionSem";
         UINT status = tx_semaphore_create(
-            &wrapper.completion_sem,
+            &task_data->completion_sem,
             sem_name,
             0  // Initial count
         );
         
         if (status != TX_SUCCESS) {
+            delete task_data;
             delete[] wrapper.stack_memory;
+            wrapper.stack_memory = nullptr;
             return wrapper;
         }
         
-        // Allocate task data
-        using FuncType = typename std::decay<Func>::type;
-        auto* task_data = new TaskData;
         task_data->callable = new FuncType(std::forward<Func>(f));
         task_data->invoke = &TaskHelper<FuncType>::invoke;
         task_data->destroy = &TaskHelper<FuncType>::destroy;
-        task_data->completion_sem = &wrapper.completion_sem;
-        task_data->task_completed = false;
         wrapper.task_data = task_data;
         
         // Create ThreadX thread
         static char thread_name[] = "ClerThread";
         status = tx_thread_create(
-            &wrapper.thread,                    // Thread control block
+            &task_data->thread,                 // Thread control block
             thread_name,                        // Thread name
             thread_entry_point,                 // Thread entry function
             (ULONG)task_data,                  // Thread input
@@ -111,11 +111,12 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         );
         
         if (status != TX_SUCCESS) {
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_semaphore_delete(&task_data->completion_sem);
             task_data->destroy(task_data->callable);
             delete task_data;
             delete[] wrapper.stack_memory;
             wrapper.task_data = nullptr;
+            wrapper.stack_memory = nullptr;
             return wrapper;
         }
         
@@ -126,12 +127,12 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     static void join_task(task_type& wrapper) {
         if (wrapper.is_valid && wrapper.task_data && !wrapper.task_completed) {
             // Wait for thread completion
-            tx_semaphore_get(&wrapper.completion_sem, TX_WAIT_FOREVER);
+            tx_semaphore_get(&wrapper.task_data->completion_sem, TX_WAIT_FOREVER);
             
             // Clean up thread
-            tx_thread_terminate(&wrapper.thread);
-            tx_thread_delete(&wrapper.thread);
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_thread_terminate(&wrapper.task_data->thread);
+            tx_thread_delete(&wrapper.task_data->thread);
+            tx_semaphore_delete(&wrapper.task_data->completion_sem);
             
             // Clean up memory
             wrapper.task_data->destroy(wrapper.task_data->callable);
@@ -168,7 +169,7 @@ private:
         }
         
         // Signal completion
-        tx_semaphore_put(data->completion_sem);
+        tx_semaphore_put(&data->completion_sem);
         
         // Thread will be cleaned up by join_task
     }
-- 
2.43.0


From 83e8f62ec1974c54b3a78035e5b2556ba759e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:20:02 +0000
Subject: [PATCH 16/67] fix: keep Zephyr control blocks of a task in place and
 free its stack only after the thread has ended

---
 .../mock_environment/zephyr/kernel.h          | 15 +++++++++++++
 include/task_policies/cler_zephyr_tpolicy.hpp | 22 +++++++++----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
index 43d3987..c41e7f0 100644
--- a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
+++ b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
@@ -137,6 +137,21 @@ static inline int k_thread_create(k_thread_t* thread, k_thread_stack_t* stack,
     return 0;
 }
 
+static inline int k_thread_join(k_thread_t* thread, int32_t timeout) {
+    (void)timeout;
+    if (!thread) return -1;
+    if (thread->thread_ptr) {
+        if (thread->thread_ptr->joinable()) {
+            thread->thread_ptr->join();
+        }
+        delete thread->thread_ptr;
+        thread->thread_ptr = nullptr;
+    }
+    delete thread->entry_func;
+    thread->entry_func = nullptr;
+    return 0;
+}
+
 static inline void k_thread_join_and_destroy(k_thread_t* thread) {
     if (!thread) return;
     if (thread->thread_ptr) {
diff --git a/include/task_policies/cler_zephyr_tpolicy.hpp b/include/task_policies/cler_zephyr_tpolicy.hpp
index 5961011..0d4ca65 100644
--- a/include/task_policies/cler_zephyr_tpolicy.hpp
+++ b/include/task_policies/cler_zephyr_tpolicy.hpp
@@ -19,18 +19,18 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     using TaskPolicyBase<ZephyrTaskPolicy>::relax;
     using TaskPolicyBase<ZephyrTaskPolicy>::pin_to_core;
     
+    // Everything the kernel and the task refer to by address. It is allocated once per task
+    // and never moves, so task handles can be returned, moved and stored freely.
     struct TaskData {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        struct k_sem* completion_sem;
+        struct k_thread thread_data;
     };
 
     struct TaskWrapper {
-        struct k_thread thread_data;
-        k_thread_stack_t* stack_mem;
-        struct k_sem completion_sem;
-        TaskData* task_data;
+        k_thread_stack_t* stack_mem = nullptr;
+        TaskData* task_data = nullptr;
         bool task_completed = false;
     };
 
@@ -54,19 +54,17 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
         wrapper.stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
         if (!wrapper.stack_mem) return wrapper;
 
-        k_sem_init(&wrapper.completion_sem, 0, 1);
-
         using FuncType = typename std::decay<Func>::type;
         auto* task_data = new TaskData{
             new FuncType(std::forward<Func>(f)),
             &TaskHelper<FuncType>::invoke,
             &TaskHelper<FuncType>::destroy,
-            &wrapper.completion_sem
+            {}
         };
 
         wrapper.task_data = task_data;
 
-        k_thread_create(&wrapper.thread_data,
+        k_thread_create(&task_data->thread_data,
                         wrapper.stack_mem,
                         CLER_ZEPHYR_STACK_SIZE,
                         thread_entry_point,
@@ -79,11 +77,14 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
 
     static void join_task(task_type& wrapper) {
         if (!wrapper.task_completed && wrapper.task_data) {
-            k_sem_take(&wrapper.completion_sem, K_FOREVER);
+            // Wait until the thread has terminated: only then may its stack and control block be freed
+            k_thread_join(&wrapper.task_data->thread_data, K_FOREVER);
 
             wrapper.task_data->destroy(wrapper.task_data->callable);
             delete wrapper.task_data;
             delete[] wrapper.stack_mem;
+            wrapper.task_data = nullptr;
+            wrapper.stack_mem = nullptr;
             wrapper.task_completed = true;
         }
     }
@@ -101,7 +102,6 @@ private:
         auto* data = static_cast<TaskData*>(p1);
         if (data && data->callable && data->invoke) {
             data->invoke(data->callable);
-            k_sem_give(data->completion_sem);
         }
     }
 };
-- 
2.43.0


From 17fdef41abda4b73047bd0fb99eed73440e95b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 17/67] fix: multistage resampler keeps output samples that
 find no room instead of dropping them

---
 .../resamplers/multistage_resampler.hpp       | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index 906f368..6d45b99 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -2,6 +2,7 @@
 
 #include "liquid.h"
 #include "cler.hpp"
+#include <algorithm>
 #include <type_traits>
 
 template <typename>
@@ -56,7 +57,7 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         }
         
         // Allocate output buffer (sized for maximum expansion case)
-        size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 100); // Extra space for safety
+        size_t output_buffer_size = static_cast<size_t>((_buffer_size + 1) * _ratio + 100); // Extra space for safety
         _output_buffer = new T[output_buffer_size];
         if (!_output_buffer) {
             delete[] _input_buffer;
@@ -88,9 +89,21 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out)
     {
         // Use readN/writeN for simple processing (recommended pattern)
-        size_t available_input = in.size();
         size_t available_output = out->space();
-        
+
+        // Samples resampled earlier that found no room go out first
+        if (_pending_count > 0) {
+            size_t n = std::min(_pending_count, available_output);
+            if (n == 0) {
+                return cler::Error::NotEnoughSpace;
+            }
+            out->writeN(_output_buffer + _pending_pos, n);
+            _pending_pos += n;
+            _pending_count -= n;
+            return cler::Empty{};
+        }
+
+        size_t available_input = in.size();
         if (available_input == 0) {
             return cler::Error::NotEnoughSamples;
         }
@@ -103,7 +116,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         // For downsample (ratio < 1), we need more input samples than output space
         // For upsample (ratio > 1), we need fewer input samples than output space
         size_t max_input_by_output = static_cast<size_t>(available_output / _ratio);
-        size_t max_input = std::min({available_input, max_input_by_output, _buffer_size});
+        // (at least one: what does not fit stays pending)
+        size_t max_input = std::min({available_input, std::max<size_t>(max_input_by_output, 1), _buffer_size});
         
         // Read input samples
         in.readN(_input_buffer, max_input);
@@ -128,8 +142,11 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             );
         }
         
-        // Write resampled output
-        out->writeN(_output_buffer, n_resampled);
+        // Write resampled output, keep what does not fit for the next call
+        size_t n_written = std::min<size_t>(n_resampled, available_output);
+        out->writeN(_output_buffer, n_written);
+        _pending_pos = n_written;
+        _pending_count = n_resampled - n_written;
 
         return cler::Empty{};
     }
@@ -138,6 +155,8 @@ private:
     float _ratio;
     size_t _buffer_size;
     size_t _output_buffer_size;
+    size_t _pending_pos = 0;
+    size_t _pending_count = 0;
     
     T* _input_buffer = nullptr;
     T* _output_buffer = nullptr;
-- 
2.43.0


From 61879d4a3d3146fcc2af82e3829081af648458db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 18/67] fix: chirp duration in samples is rounded, not
 truncated one sample short

---
 desktop_blocks/sources/source_chirp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_chirp.hpp b/desktop_blocks/sources/source_chirp.hpp
index 5546d8a..2b67663 100644
--- a/desktop_blocks/sources/source_chirp.hpp
+++ b/desktop_blocks/sources/source_chirp.hpp
@@ -25,7 +25,7 @@ struct SourceChirpBlock : public cler::BlockBase {
         if (_sps == 0) throw std::invalid_argument("Sample rate must be greater than zero.");
         if (_chirp_duration_s <= 0) throw std::invalid_argument("Chirp duration must be positive.");
 
-        _n_samples_before_reset = static_cast<size_t>(_chirp_duration_s * _sps);
+        _n_samples_before_reset = static_cast<size_t>(std::llround(static_cast<double>(_chirp_duration_s) * static_cast<double>(_sps)));
         _k = (_f1_hz - _f0_hz) / _chirp_duration_s; // Hz/s
 
         // Precompute per-sample sweep rate
-- 
2.43.0


From c59ae171ea29bf847575501516d81a84b528dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 19/67] fix: chirp oscillator in double precision, a slow sweep
 vanished in float rounding

---
 desktop_blocks/sources/source_chirp.hpp | 34 ++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/desktop_blocks/sources/source_chirp.hpp b/desktop_blocks/sources/source_chirp.hpp
index 2b67663..d3db09b 100644
--- a/desktop_blocks/sources/source_chirp.hpp
+++ b/desktop_blocks/sources/source_chirp.hpp
@@ -26,17 +26,17 @@ struct SourceChirpBlock : public cler::BlockBase {
         if (_chirp_duration_s <= 0) throw std::invalid_argument("Chirp duration must be positive.");
 
         _n_samples_before_reset = static_cast<size_t>(std::llround(static_cast<double>(_chirp_duration_s) * static_cast<double>(_sps)));
-        _k = (_f1_hz - _f0_hz) / _chirp_duration_s; // Hz/s
+        _k = (static_cast<double>(_f1_hz) - _f0_hz) / _chirp_duration_s; // Hz/s
 
         // Precompute per-sample sweep rate
-        const float dt = 1.0f / static_cast<float>(_sps);
-        const float w0 = 2.0f * cler::PI * _f0_hz * dt;
+        const double dt = 1.0 / static_cast<double>(_sps);
+        const double w0 = 2.0 * M_PI * _f0_hz * dt;
 
         // Precompute second difference method constants
-        _psi = std::polar(1.0f, w0);      // Initial phasor increment
-        _psi_inc = std::polar(1.0f, 2.0f * cler::PI * _k * dt * dt); // Second difference (==acceleration)
+        _psi = std::polar(1.0, w0);      // Initial phasor increment
+        _psi_inc = std::polar(1.0, 2.0 * M_PI * _k * dt * dt); // Second difference (==acceleration)
 
-        _phasor = std::complex<float>(1.0f, 0.0f); // Unit phasor
+        _phasor = std::complex<double>(1.0, 0.0); // Unit phasor
 
     }
 
@@ -51,7 +51,7 @@ struct SourceChirpBlock : public cler::BlockBase {
         
         // Generate directly into output buffer
         for (size_t i = 0; i < write_size; ++i) {
-            std::complex<float> chirp = _phasor;
+            std::complex<float> chirp(_phasor);
 
             if constexpr (std::is_same_v<T, std::complex<float>>) {
                 write_ptr[i] = _amplitude * chirp;
@@ -76,11 +76,11 @@ struct SourceChirpBlock : public cler::BlockBase {
 private:
     void reset() {
         _samples_counter = 0;
-        _phasor = std::complex<float>(1.0f, 0.0f);
-        const float dt = 1.0f / static_cast<float>(_sps);
-        const float w0 = 2.0f * cler::PI * _f0_hz * dt;
-        _psi = std::polar(1.0f, w0);
-        _psi_inc = std::polar(1.0f, 2.0f * cler::PI * _k * dt * dt);
+        _phasor = std::complex<double>(1.0, 0.0);
+        const double dt = 1.0 / static_cast<double>(_sps);
+        const double w0 = 2.0 * M_PI * _f0_hz * dt;
+        _psi = std::polar(1.0, w0);
+        _psi_inc = std::polar(1.0, 2.0 * M_PI * _k * dt * dt);
     }
 
     float _amplitude;
@@ -90,11 +90,11 @@ private:
     float _chirp_duration_s;
 
     size_t _n_samples_before_reset;
-    float _k;              // Sweep rate (Hz/s)
+    double _k;             // Sweep rate (Hz/s)
     size_t _samples_counter = 0;
 
-    // Recursive oscillator state
-    std::complex<float> _phasor;   // Current sample phasor
-    std::complex<float> _psi;      // Current phase increment
-    std::complex<float> _psi_inc;  // Second difference (sweep)
+    // Recursive oscillator state (double: a slow sweep vanishes in float rounding)
+    std::complex<double> _phasor;   // Current sample phasor
+    std::complex<double> _psi;      // Current phase increment
+    std::complex<double> _psi_inc;  // Second difference (sweep)
 };
-- 
2.43.0


From f03be5a7fa8893c6ec41d46b987037bea49fba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 20/67] fix: file source reports a failed read as a fatal I/O
 error instead of announcing end of file

---
 desktop_blocks/sources/source_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_file.hpp b/desktop_blocks/sources/source_file.hpp
index d3b2a99..fc92e5b 100644
--- a/desktop_blocks/sources/source_file.hpp
+++ b/desktop_blocks/sources/source_file.hpp
@@ -43,7 +43,12 @@ struct SourceFileBlock : public cler::BlockBase {
         size_t samples_read = _file.gcount() / sizeof(T);
         
         if (samples_read == 0) {
-            if (_file.eof() && _repeat) {
+            if (!_file.eof()) {
+                // The read failed, this is not the end of the file
+                _file.close();
+                return cler::Error::TERM_IOError;
+            }
+            if (_repeat) {
                 _file.clear(); // Clear EOF flag
                 _file.seekg(0, std::ios::beg);
                 return cler::Empty{}; // Don't return an error, just let the flowgraph/loop call this again
-- 
2.43.0


From e6968c7b4422e58bd31a8a8a24028febc8f8c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 21/67] fix: throttle uses the steady clock, a wall-clock step
 stalled it or let samples through early

---
 desktop_blocks/utils/throttle.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/utils/throttle.hpp b/desktop_blocks/utils/throttle.hpp
index 9ce7ba9..321e049 100644
--- a/desktop_blocks/utils/throttle.hpp
+++ b/desktop_blocks/utils/throttle.hpp
@@ -11,7 +11,7 @@ struct ThrottleBlock : public cler::BlockBase {
           in(buffer_size),
           _sps(sps),
           _interval(1.0 / static_cast<double>(sps)),
-          _next_tick(std::chrono::high_resolution_clock::now())
+          _next_tick(std::chrono::steady_clock::now())
     {
         if (_sps == 0) {
             throw std::invalid_argument("Sample rate must be greater than zero.");
@@ -34,10 +34,10 @@ struct ThrottleBlock : public cler::BlockBase {
         out->push(sample);
 
         // Compute target time for the next sample
-        _next_tick += std::chrono::duration_cast<std::chrono::high_resolution_clock::duration>(
+        _next_tick += std::chrono::duration_cast<std::chrono::steady_clock::duration>(
             std::chrono::duration<double>(_interval));
 
-        auto now = std::chrono::high_resolution_clock::now();
+        auto now = std::chrono::steady_clock::now();
         if (now < _next_tick) {
             auto sleep_duration = _next_tick - now;
             std::this_thread::sleep_for(sleep_duration);
@@ -52,5 +52,5 @@ struct ThrottleBlock : public cler::BlockBase {
 private:
     size_t _sps;
     double _interval;  // interval between samples in seconds
-    std::chrono::high_resolution_clock::time_point _next_tick;
+    std::chrono::steady_clock::time_point _next_tick;
 };
-- 
2.43.0


From c55877cfaa13ed4882db4d803c04e4f4feb81168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 22/67] fix: throttle counts ticks from its start, adding up a
 truncated interval exceeded the rate

---
 desktop_blocks/utils/throttle.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/desktop_blocks/utils/throttle.hpp b/desktop_blocks/utils/throttle.hpp
index 321e049..5a046f9 100644
--- a/desktop_blocks/utils/throttle.hpp
+++ b/desktop_blocks/utils/throttle.hpp
@@ -11,7 +11,7 @@ struct ThrottleBlock : public cler::BlockBase {
           in(buffer_size),
           _sps(sps),
           _interval(1.0 / static_cast<double>(sps)),
-          _next_tick(std::chrono::steady_clock::now())
+          _start(std::chrono::steady_clock::now())
     {
         if (_sps == 0) {
             throw std::invalid_argument("Sample rate must be greater than zero.");
@@ -33,17 +33,20 @@ struct ThrottleBlock : public cler::BlockBase {
         in.pop(sample);
         out->push(sample);
 
-        // Compute target time for the next sample
-        _next_tick += std::chrono::duration_cast<std::chrono::steady_clock::duration>(
-            std::chrono::duration<double>(_interval));
+        // Compute target time for the next sample, counted from the last time we fell behind:
+        // adding up a rounded interval would exceed the rate
+        ++_ticks;
+        auto next_tick = _start + std::chrono::ceil<std::chrono::steady_clock::duration>(
+            std::chrono::duration<double>(_interval * static_cast<double>(_ticks)));
 
         auto now = std::chrono::steady_clock::now();
-        if (now < _next_tick) {
-            auto sleep_duration = _next_tick - now;
+        if (now < next_tick) {
+            auto sleep_duration = next_tick - now;
             std::this_thread::sleep_for(sleep_duration);
         } else {
             // If we fall behind, catch up (do not sleep)
-            _next_tick = now;
+            _start = now;
+            _ticks = 0;
         }
 
         return cler::Empty{};
@@ -52,5 +55,6 @@ struct ThrottleBlock : public cler::BlockBase {
 private:
     size_t _sps;
     double _interval;  // interval between samples in seconds
-    std::chrono::steady_clock::time_point _next_tick;
+    std::chrono::steady_clock::time_point _start;  // when the current run of ticks began
+    size_t _ticks = 0;                             // samples since then
 };
-- 
2.43.0


From d1f9871d7a4979574946dbcb5b7ea9278b50bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 23/67] fix: pool slots can be released from several threads,
 and are released even with assertions compiled out

---
 desktop_blocks/blob.cpp | 5 ++++-
 desktop_blocks/blob.hpp | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 9ff587e..376ed07 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,5 +31,8 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
-    assert(_free_slots.try_push(slot_idx));
+    std::lock_guard<std::mutex> lock(_release_mutex);
+    bool pushed = _free_slots.try_push(slot_idx);
+    assert(pushed && "BUG: more releases than slots");
+    (void)pushed;
 }
\ No newline at end of file
diff --git a/desktop_blocks/blob.hpp b/desktop_blocks/blob.hpp
index 453abfa..d368097 100644
--- a/desktop_blocks/blob.hpp
+++ b/desktop_blocks/blob.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "cler.hpp"
 #include <memory>
+#include <mutex>
 
 struct Slab;
 
@@ -30,4 +31,5 @@ private:
     size_t _max_blob_size;
     std::unique_ptr<uint8_t[]> _data;
     cler::Channel<size_t> _free_slots;
+    std::mutex _release_mutex; // blobs are released by any thread, the queue takes one producer
 };
\ No newline at end of file
-- 
2.43.0


From a8178c597f5203ab26995930322d11f2234ddd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 24/67] fix: the datagram source forwards each datagram as it
 arrives and never waits without a limit

---
 desktop_blocks/udp/source_udp.hpp | 99 ++++++++++++++-----------------
 1 file changed, 46 insertions(+), 53 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index ae9cb41..a4b0291 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -26,7 +26,10 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
           _validate(validate),
           _validate_context(callback_context),
           _callback(callback),
-          _callback_context(callback_context) {}
+          _callback_context(callback_context) {
+        // Without a timeout, a silent socket would keep the flowgraph from stopping.
+        _socket.set_receive_timeout(std::chrono::milliseconds(100));
+    }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out) {
         if (!_socket.is_valid()) {
@@ -38,81 +41,71 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
             return cler::Error::NotEnoughSpace;
         }
 
-        T buffer[available];
-        size_t count = 0;
-
+        // Each datagram is forwarded as soon as it is accepted, so that nothing
+        // received is lost when a later receive ends the call.
         for (size_t i = 0; i < available; ++i) {
+            // Only the first receive may wait (up to the receive timeout).
+            const int flags = (i == 0) ? 0 : MSG_DONTWAIT;
+            T item{};
+            ssize_t bytes;
+
             if constexpr (IS_BLOB) {
                 // Blob-specific: slab pooling
                 auto result = _slab.take_slot();
                 if (result.is_err()) break;
 
-                Blob blob = result.unwrap();
-                ssize_t bytes = _socket.recv(blob.data, blob.len);
+                item = result.unwrap();
+                bytes = _socket.recv(item.data, item.len, flags);
+            } else {
+                // Generic fixed-size
+                bytes = _socket.recv(reinterpret_cast<uint8_t*>(&item), sizeof(T), flags);
+            }
 
-                if (bytes == 0) {
-                    blob.release();
-                    return cler::Empty{};
-                }
+            if (bytes <= 0) {
+                discard(item);
+                switch (-bytes) {
+                    case 0:         // empty datagram
+                    case EMSGSIZE:  // datagram too large, dropped
+                        continue;
 
-                if (bytes < 0) {
-                    int err = -bytes;
-                    switch (err) {
-                        case EAGAIN:
+                    case EAGAIN:
 #if EAGAIN != EWOULDBLOCK
-                        case EWOULDBLOCK:
+                    case EWOULDBLOCK:
 #endif
-                        case EINTR:
-                            blob.release();
-                            return cler::Empty{};
-
-                        case EMSGSIZE:
-                            blob.release();
-                            return cler::Empty{};
-
-                        default:
-                            blob.release();
-                            return cler::Error::TERM_IOError;
-                    }
-                }
-
-                blob.len = static_cast<size_t>(bytes);
+                    case EINTR:
+                        return cler::Empty{};
 
-                if (_validate && !_validate(blob, _validate_context)) {
-                    blob.release();
-                    continue;
+                    default:
+                        return cler::Error::TERM_IOError;
                 }
+            }
 
-                if (_callback) {
-                    _callback(blob, _callback_context);
-                }
-
-                buffer[count++] = blob;
-            } else {
-                // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[i]), sizeof(T));
-                if (bytes <= 0) break;
-
-                if (_validate && !_validate(buffer[i], _validate_context)) {
-                    continue;
-                }
+            if constexpr (IS_BLOB) {
+                item.len = static_cast<size_t>(bytes);
+            }
 
-                if (_callback) {
-                    _callback(buffer[i], _callback_context);
-                }
+            if (_validate && !_validate(item, _validate_context)) {
+                discard(item);
+                continue;
+            }
 
-                count++;
+            if (_callback) {
+                _callback(item, _callback_context);
             }
-        }
 
-        if (count > 0) {
-            out->writeN(buffer, count);
+            out->push(item);
         }
 
         return cler::Empty{};
     }
 
 private:
+    static void discard(T& item) {
+        if constexpr (IS_BLOB) {
+            item.release();
+        }
+    }
+
     UDPBlock::GenericDatagramSocket _socket;
     Slab _slab;  // Only used when IS_BLOB == true
     ValidateCallback _validate = nullptr;
-- 
2.43.0


From 211b42d3aceac98f8ae543a5eaf71d59fd133ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 25/67] fix: the datagram sink keeps unsent items queued when a
 send fails

---
 desktop_blocks/udp/sink_udp.hpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/desktop_blocks/udp/sink_udp.hpp b/desktop_blocks/udp/sink_udp.hpp
index 068e424..c5e7ccb 100644
--- a/desktop_blocks/udp/sink_udp.hpp
+++ b/desktop_blocks/udp/sink_udp.hpp
@@ -33,25 +33,22 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
             return cler::Empty{};
         }
 
-        T buffer[available];
-        in.readN(buffer, available);
-
         for (size_t i = 0; i < available; ++i) {
+            T item;
+            in.pop(item);
             ssize_t bytes;
 
             if constexpr (IS_BLOB) {
-                // Blob-specific: send blob data and release slot
-                bytes = _socket.send(buffer[i].data, buffer[i].len);
-                if (_callback) {
-                    _callback(buffer[i], _callback_context);
-                }
-                buffer[i].release();
+                bytes = send_retrying(item.data, item.len);
             } else {
-                // Generic fixed-size
-                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&buffer[i]), sizeof(T));
-                if (_callback) {
-                    _callback(buffer[i], _callback_context);
-                }
+                bytes = send_retrying(reinterpret_cast<const uint8_t*>(&item), sizeof(T));
+            }
+            if (_callback) {
+                _callback(item, _callback_context);
+            }
+            if constexpr (IS_BLOB) {
+                // the slot goes back to its slab, sent or not
+                item.release();
             }
 
             if (bytes < 0) {
@@ -63,6 +60,14 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
     }
 
 private:
+    ssize_t send_retrying(const uint8_t* data, size_t len) const {
+        ssize_t bytes;
+        do {
+            bytes = _socket.send(data, len);
+        } while (bytes < 0 && errno == EINTR);
+        return bytes;
+    }
+
     UDPBlock::GenericDatagramSocket _socket;
     OnSendCallback _callback = nullptr;
     void* _callback_context = nullptr;
-- 
2.43.0


From 021530090483f82f9d48a3f1dd0ec8e915f27517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:55 +0000
Subject: [PATCH 26/67] fix: release the HackRF library when opening or
 configuring the device fails

---
 desktop_blocks/sinks/sink_hackrf.hpp     | 6 ++++++
 desktop_blocks/sources/source_hackrf.hpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/desktop_blocks/sinks/sink_hackrf.hpp b/desktop_blocks/sinks/sink_hackrf.hpp
index c11893e..d22510c 100644
--- a/desktop_blocks/sinks/sink_hackrf.hpp
+++ b/desktop_blocks/sinks/sink_hackrf.hpp
@@ -44,6 +44,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
 
         // Open device
         if (hackrf_open(&_dev) != HACKRF_SUCCESS) {
+            hackrf_exit();
             throw std::runtime_error("Failed to open HackRF device.");
         }
 
@@ -51,6 +52,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_freq(_dev, freq_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TX frequency.");
         }
 
@@ -58,6 +60,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_sample_rate(_dev, samp_rate_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TX sample rate.");
         }
 
@@ -65,6 +68,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_txvga_gain(_dev, txvga_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TXVGA gain.");
         }
 
@@ -72,6 +76,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_amp_enable(_dev, amp_enable ? 1 : 0) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set amp enable.");
         }
 
@@ -79,6 +84,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_start_tx(_dev, tx_callback, this) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to start TX streaming.");
         }
 
diff --git a/desktop_blocks/sources/source_hackrf.hpp b/desktop_blocks/sources/source_hackrf.hpp
index f23f963..9b5a1ed 100644
--- a/desktop_blocks/sources/source_hackrf.hpp
+++ b/desktop_blocks/sources/source_hackrf.hpp
@@ -43,6 +43,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
 
         // Open device
         if (hackrf_open(&_dev) != HACKRF_SUCCESS) {
+            hackrf_exit();
             throw std::runtime_error("Failed to open HackRF device.");
         }
 
@@ -50,6 +51,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_freq(_dev, freq_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set frequency.");
         }
 
@@ -57,6 +59,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_sample_rate(_dev, samp_rate_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set sample rate.");
         }
 
@@ -64,6 +67,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_lna_gain(_dev, lna_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set LNA gain.");
         }
 
@@ -71,6 +75,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_vga_gain(_dev, vga_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set VGA gain.");
         }
 
@@ -78,6 +83,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_amp_enable(_dev, amp_enable ? 1 : 0) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set amp enable.");
         }
 
@@ -85,6 +91,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_start_rx(_dev, rx_callback, this) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to start RX streaming.");
         }
 
-- 
2.43.0


From 99d1b0ecd824c448883497ce29e9610e4053995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 27/67] fix: release the SoapySDR device and stream when
 construction fails

---
 desktop_blocks/sinks/sink_soapysdr.hpp     | 43 ++++++++++++++--------
 desktop_blocks/sources/source_soapysdr.hpp | 40 ++++++++++++--------
 2 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 2ea09b3..899874f 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -47,15 +47,7 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
                       double gain = 0.0,
                       size_t channel = 0,
                       size_t channel_size = 0)
-        : BlockBase(name),
-          in(channel_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : channel_size),
-          device_args(args),
-          center_freq(freq),
-          sample_rate(rate),
-          gain_db(gain),
-          channel_idx(channel),
-          device(nullptr),
-          stream(nullptr) {
+        : SinkSoapySDRBlock(name, args, freq, rate, gain, channel, channel_size, Closed{}) {
         
         // Validate buffer size for DBF
         if (channel_size > 0 && channel_size * sizeof(T) < cler::DOUBLY_MAPPED_MIN_SIZE) {
@@ -84,7 +76,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_TX, channel_idx, sample_rate);
@@ -104,7 +95,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_TX, channel_idx, center_freq);
@@ -115,7 +105,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_TX, channel_idx)) {
@@ -134,7 +123,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_TX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to setup TX stream");
         }
         
@@ -145,11 +133,11 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
         
+        stream_active = true;
+
         // Print device info
         std::cout << "SinkSoapySDRBlock: Initialized " << device->getDriverKey() 
                   << " (" << device->getHardwareKey() << ")"
@@ -171,7 +159,9 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
     
     ~SinkSoapySDRBlock() {
         if (stream && device) {
-            device->deactivateStream(stream);
+            if (stream_active) {
+                device->deactivateStream(stream);
+            }
             device->closeStream(stream);
         }
         if (device) {
@@ -304,6 +294,26 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
     }
     
 private:
+    // Delegation target: from here on the destructor runs even if opening the device fails
+    struct Closed {};
+    SinkSoapySDRBlock(const char* name,
+                      const std::string& args,
+                      double freq,
+                      double rate,
+                      double gain,
+                      size_t channel,
+                      size_t channel_size,
+                      Closed)
+        : BlockBase(name),
+          in(channel_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : channel_size),
+          device_args(args),
+          center_freq(freq),
+          sample_rate(rate),
+          gain_db(gain),
+          channel_idx(channel),
+          device(nullptr),
+          stream(nullptr) {}
+
     // Configuration
     std::string device_args;
     double center_freq;
@@ -314,6 +324,7 @@ private:
     // SoapySDR objects
     SoapySDR::Device* device;
     SoapySDR::Stream* stream;
+    bool stream_active = false;
     
     // Buffer
     std::vector<T> buffer;
diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index 9617328..8290b9b 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -44,14 +44,7 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
                         double rate,
                         double gain = 20.0,
                         size_t channel = 0)
-        : BlockBase(name),
-          device_args(args),
-          center_freq(freq),
-          sample_rate(rate),
-          gain_db(gain),
-          channel_idx(channel),
-          device(nullptr),
-          stream(nullptr) {
+        : SourceSoapySDRBlock(name, args, freq, rate, gain, channel, Closed{}) {
         
         // Create device
         device = SoapySDR::Device::make(device_args);
@@ -74,7 +67,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_RX, channel_idx, sample_rate);
@@ -94,7 +86,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_RX, channel_idx, center_freq);
@@ -105,7 +96,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_RX, channel_idx)) {
@@ -124,7 +114,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_RX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to setup RX stream");
         }
         
@@ -134,11 +123,11 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
         
+        stream_active = true;
+
         // Print device info
         std::cout << "SourceSoapySDRBlock: Initialized " << device->getDriverKey() 
                   << " (" << device->getHardwareKey() << ")"
@@ -160,7 +149,9 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
     
     ~SourceSoapySDRBlock() {
         if (stream && device) {
-            device->deactivateStream(stream);
+            if (stream_active) {
+                device->deactivateStream(stream);
+            }
             device->closeStream(stream);
         }
         if (device) {
@@ -289,6 +280,24 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
     }
     
 private:
+    // Delegation target: from here on the destructor runs even if opening the device fails
+    struct Closed {};
+    SourceSoapySDRBlock(const char* name,
+                        const std::string& args,
+                        double freq,
+                        double rate,
+                        double gain,
+                        size_t channel,
+                        Closed)
+        : BlockBase(name),
+          device_args(args),
+          center_freq(freq),
+          sample_rate(rate),
+          gain_db(gain),
+          channel_idx(channel),
+          device(nullptr),
+          stream(nullptr) {}
+
     // Configuration
     std::string device_args;
     double center_freq;
@@ -299,6 +308,7 @@ private:
     // SoapySDR objects
     SoapySDR::Device* device;
     SoapySDR::Stream* stream;
+    bool stream_active = false;
     
     // Streaming
     size_t mtu;
-- 
2.43.0


From 2a3d81a949d56b4c8be4300fc62244950b4b67fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 28/67] fix: a SoapySDR stream call that transfers nothing is
 treated as a timeout, not as an error or an endless retry

---
 desktop_blocks/sinks/sink_soapysdr.hpp     | 2 +-
 desktop_blocks/sources/source_soapysdr.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 899874f..a0e6d16 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -192,7 +192,7 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             
             int ret = device->writeStream(stream, buffs, to_send, flags, time_ns, timeout_us);
             
-            if (ret == SOAPY_SDR_TIMEOUT) {
+            if (ret == SOAPY_SDR_TIMEOUT || ret == 0) {
                 // Timeout - commit what we've sent and return
                 in.commit_read(samples_sent);
                 return cler::Error::NotEnoughSpace;
diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index 8290b9b..923ffcd 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -178,7 +178,7 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         if (ret > 0) {
             out->commit_write(ret);
             return cler::Empty{};
-        } else if (ret == SOAPY_SDR_TIMEOUT) {
+        } else if (ret == SOAPY_SDR_TIMEOUT || ret == 0) {
             return cler::Error::NotEnoughSamples;
         } else if (ret == SOAPY_SDR_OVERFLOW) {
             overflow_count++;
-- 
2.43.0


From 0492beae618d158bec6348713763c2c857a63173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 29/67] fix: log rotation discards the oldest backups first
 after the number of backups was lowered

---
 desktop_logger/desktop_logger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index 23ad671..f1ceefe 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -37,6 +37,10 @@ static void rotate_log_files() noexcept {
     // Delete the oldest backup if it exists
     std::string oldest = _log_filepath + "." + std::to_string(_rotation_config.max_backup_files);
     std::remove(oldest.c_str());  // Ignore error
+
+    // and older ones left over from a configuration with more backups
+    for (int i = _rotation_config.max_backup_files + 1;
+         std::remove((_log_filepath + "." + std::to_string(i)).c_str()) == 0; ++i) {}
     
     // Rotate existing backups
     for (int i = _rotation_config.max_backup_files - 1; i > 0; --i) {
-- 
2.43.0


From caa77d1b971d6db5893c791ba894c010dadc199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 30/67] fix: reset_logfile reads the started flag under the
 lock

---
 desktop_logger/desktop_logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_logger/desktop_logger.cpp b/desktop_logger/desktop_logger.cpp
index f1ceefe..571d88f 100644
--- a/desktop_logger/desktop_logger.cpp
+++ b/desktop_logger/desktop_logger.cpp
@@ -96,9 +96,9 @@ namespace cler {
 
 logger_retval_enum reset_logfile(const char *log_filepath) noexcept {
     if (!log_filepath) return cler::LOGGER_FILEPATH_EMPTY;
-    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
 
     std::lock_guard<std::mutex> lock(log_mutex);
+    if (!_logger_started) return cler::LOGGER_NOT_STARTED;
     _unguarded_close_log_file();
 
     _log_filepath = log_filepath;
-- 
2.43.0


From eeb0d372781f24eead1ba6110d1adfd38f1d0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 31/67] fix: bit error correction never changes the format
 field of a Mode S frame

---
 desktop_blocks/adsb/modes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index e7d52e3..c7d5b86 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -326,7 +326,9 @@ int fix_single_bit_errors(unsigned char *msg, int bits)
 	int j;
 	unsigned char aux[MODE_S_LONG_MSG_BITS/8];
 
-	for (j = 0; j < bits; j++) 
+	// The format field (first 5 bits) selected this frame type, repairing it
+	// would turn the frame into one of another type.
+	for (j = 5; j < bits; j++) 
 	{
 		int byte = j/8;
 		int bitmask = 1 << (7-(j%8));
@@ -360,7 +362,7 @@ int fix_two_bits_errors(unsigned char *msg, int bits)
 	int j, i;
 	unsigned char aux[MODE_S_LONG_MSG_BITS/8];
 
-	for (j = 0; j < bits; j++) 
+	for (j = 5; j < bits; j++) 
 	{
 		int byte1 = j/8;
 		int bitmask1 = 1 << (7-(j%8));
-- 
2.43.0


From 489b471671fdde7a6b65c96f0e42756670beeee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 32/67] fix: recently seen aircraft addresses are recognised
 after January 2038 too

---
 desktop_blocks/adsb/modes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index c7d5b86..09afeaf 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -432,7 +432,7 @@ int icao_addr_was_recently_seen(mode_s_t *self, uint32_t addr)
 {
 	uint32_t h = icao_cache_has_addr(addr);
 	uint32_t a = self->icao_cache[h*2];
-	int32_t t = self->icao_cache[h*2+1];
+	uint32_t t = self->icao_cache[h*2+1];
 
 	return a && a == addr && time(NULL)-t <= MODE_S_ICAO_CACHE_TTL;
 }
-- 
2.43.0


From b89d146e3031c2bfaa75de3b6c9447dcd359c1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 33/67] fix: a Comm-D frame (DF24) is 112 bits long, its
 address overlay was looked for in the wrong place

---
 desktop_blocks/adsb/modes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 09afeaf..1ddfed7 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -309,7 +309,7 @@ int mode_s_msg_len_by_type(int type)
 {
 	if (type == 16 || type == 17 ||
 		type == 19 || type == 20 ||
-		type == 21)
+		type == 21 || type == 24)
 	{
 		return MODE_S_LONG_MSG_BITS;
 	}
-- 
2.43.0


From d9f74c2a45e9a35fd39fdff5ee34407236892add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 34/67] fix: mode_s_decode left the fields a frame does not
 carry uninitialised

---
 desktop_blocks/adsb/modes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 1ddfed7..e302812 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -566,6 +566,9 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 {
 	uint32_t crc2; // Computed CRC, used to verify the message CRC.
 
+	// Fields the frame does not carry are zero, not whatever was there before
+	memset(mm, 0, sizeof(*mm));
+
 	// Work on our local copy
 	memcpy(mm->msg, msg, MODE_S_LONG_MSG_BYTES);
 	msg = mm->msg;
-- 
2.43.0


From a1d4eeaef2470769811fe5347dc355c25865b5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 35/67] fix: the CPR format flag is 1 for odd reports, as
 documented, not 4

---
 desktop_blocks/adsb/modes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index e302812..d2faf81 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -707,8 +707,8 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 		else if (mm->metype >= 9 && mm->metype <= 18)
 		{
 			// Airborne position Message
-			mm->fflag = msg[6] & (1<<2);
-			mm->tflag = msg[6] & (1<<3);
+			mm->fflag = (msg[6] >> 2) & 1;
+			mm->tflag = (msg[6] >> 3) & 1;
 			mm->altitude = decode_ac12_field(msg, &mm->unit);
 			mm->raw_latitude = ((msg[6] & 3) << 15) |
 								(msg[7] << 7) |
-- 
2.43.0


From 29bdf034d111fadd1e753bddd5f3aff9d65498dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 36/67] fix: the Mode S detectors ran past the end of buffers
 shorter than one frame and missed a frame ending with the buffer

---
 desktop_blocks/adsb/modes.c      | 2 +-
 desktop_blocks/adsb/modes_2400.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index d2faf81..7ccb015 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -864,7 +864,7 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 	// 8   --
 	// 9   -------------------
 
-	for (j = 0; j < maglen - MODE_S_FULL_LEN*2; j++)
+	for (j = 0; j + MODE_S_FULL_LEN*2 <= maglen; j++)
 	{
 		int low, high, delta, i, errors;
 		int good_message = 0;
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index bee74fe..6b7831d 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -28,7 +28,7 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
 
     msg = msg1;
 
-    for (j = 0; j < maglen - 300; j++) {
+    for (j = 0; j + 300 <= maglen; j++) {
         uint16_t *preamble = &mag[j];
         int high;
         uint32_t base_signal, base_noise;
-- 
2.43.0


From a3444ff2c057b4232c0d50e8b8fbfb2e65aa0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 37/67] fix: the ADS-B decoder lost frames that span two calls
 or find the output full, and read past its buffer at 2.4 MHz

---
 desktop_blocks/adsb/adsb_decoder.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index d8d485a..95d3a7f 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -42,10 +42,10 @@ struct ADSBDecoderBlock : public cler::BlockBase {
 
         auto [read_ptr, read_size] = in.read_dbf();
 
-        // Mode S detection requires at least MODES_LONG_MSG_SAMPLES samples
-        // (preamble + longest message at 2 samples per bit)
-        constexpr size_t MODES_LONG_MSG_SAMPLES = 240;  // 16 preamble + 112*2 bits
-        if (read_size < MODES_LONG_MSG_SAMPLES) {
+        // Mode S detection looks at a window of this many samples: at 2 MHz preamble + longest
+        // message (16 + 112*2), at 2.4 MHz what mode_s_detect_2400() keeps from the buffer's end
+        const size_t window = (_mode == SampleRateMode::RATE_2MHZ) ? 240 : 300;
+        if (read_size < window) {
             return cler::Error::NotEnoughSamples;
         }
 
@@ -57,8 +57,12 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         // Limit to buffer size to prevent overflow
         size_t to_process = std::min(read_size, BUFFER_ELEMENTS);
 
+        // Each window reports at most one message, all of them have to fit in the output
+        to_process = std::min(to_process, write_space + (window - 1));
+
         memcpy(_tmp_buffer, read_ptr, to_process * sizeof(uint16_t));
-        in.commit_read(to_process);
+        // The last, incomplete windows stay: a frame may have begun in them
+        in.commit_read(to_process - (window - 1));
 
         total_samples += to_process;
         call_count++;
-- 
2.43.0


From a9ae5737cec0d5413b46d99f72c569cfcfce886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 38/67] fix: data races of the ADS-B decoder: unused counters
 shared by all instances, and a filter that was not atomic as documented

---
 desktop_blocks/adsb/adsb_decoder.hpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index 95d3a7f..ff465ab 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -3,6 +3,7 @@
 #include "cler.hpp"
 #include "desktop_blocks/adsb/modes.h"
 #include "desktop_blocks/adsb/modes_2400.h"
+#include <atomic>
 #include <cstring>
 #include <algorithm>
 
@@ -37,9 +38,6 @@ struct ADSBDecoderBlock : public cler::BlockBase {
     }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<mode_s_msg>* out) {
-        static size_t call_count = 0;
-        static size_t total_samples = 0;
-
         auto [read_ptr, read_size] = in.read_dbf();
 
         // Mode S detection looks at a window of this many samples: at 2 MHz preamble + longest
@@ -64,9 +62,6 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         // The last, incomplete windows stay: a frame may have begun in them
         in.commit_read(to_process - (window - 1));
 
-        total_samples += to_process;
-        call_count++;
-
         CallbackContext ctx;
         ctx.out_channel = out;
         ctx.df_filter = _df_filter;
@@ -88,7 +83,7 @@ struct ADSBDecoderBlock : public cler::BlockBase {
 private:
     mode_s_t _decoder_state;
     SampleRateMode _mode;
-    uint32_t _df_filter;
+    std::atomic<uint32_t> _df_filter;
     uint16_t* _tmp_buffer = nullptr;
 
     // Context for callback
@@ -98,14 +93,6 @@ private:
     };
 
     static void on_message_detected(mode_s_t* self, struct mode_s_msg* mm, void* context) {
-        static size_t total_messages = 0;
-        static size_t good_crc_messages = 0;
-
-        total_messages++;
-        if (mm->crcok) {
-            good_crc_messages++;
-        }
-
         (void)self;
         CallbackContext* ctx = static_cast<CallbackContext*>(context);
 
-- 
2.43.0


From 3e2efb568a29db5d82cf0601975be2a3a65499b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 39/67] fix: relative position decoding refused or
 mis-normalised places across the date line from the reference

---
 desktop_blocks/adsb/cpr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/cpr.c b/desktop_blocks/adsb/cpr.c
index 3f8187b..f6810b3 100644
--- a/desktop_blocks/adsb/cpr.c
+++ b/desktop_blocks/adsb/cpr.c
@@ -355,12 +355,14 @@ int decodeCPRrelative(double reflat, double reflon,
     m = (int) (floor(reflon/AirDlon) +
                floor(0.5 + cprModDouble(reflon, AirDlon)/AirDlon - fractional_lon));
     rlon = AirDlon * (m + fractional_lon);
-    if (rlon > 180) rlon -= 360;
 
     // Check to see that answer is reasonable - ie no more than 1/2 cell away
     if (fabs(rlon - reflon) > (AirDlon/2))
         return (-1);                               // Time to give up - Longitude error
 
+    // Renormalize to -180 .. +180 (after the check: the reference may be across the date line)
+    rlon -= floor( (rlon + 180) / 360 ) * 360;
+
     *out_lat = rlat;
     *out_lon = rlon;
     return (0);
-- 
2.43.0


From 5d33f37176f03e7b36eb525833798dffd891663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 40/67] fix: relative position decoding picked the wrong cell
 when the reference lies on a cell edge (rounding)

---
 desktop_blocks/adsb/cpr.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/desktop_blocks/adsb/cpr.c b/desktop_blocks/adsb/cpr.c
index f6810b3..8d89c57 100644
--- a/desktop_blocks/adsb/cpr.c
+++ b/desktop_blocks/adsb/cpr.c
@@ -61,12 +61,6 @@ static int cprModInt(int a, int b) {
     return res;
 }
 
-static double cprModDouble(double a, double b) {
-    double res = fmod(a, b);
-    if (res < 0) res += b;
-    return res;
-}
-
 //
 //=========================================================================
 //
@@ -335,8 +329,7 @@ int decodeCPRrelative(double reflat, double reflon,
     AirDlat = (surface ? 90.0 : 360.0) / (fflag ? 59.0 : 60.0);
 
     // Compute the Latitude Index "j"
-    j = (int) (floor(reflat/AirDlat) +
-               floor(0.5 + cprModDouble(reflat, AirDlat)/AirDlat - fractional_lat));
+    j = (int) floor(0.5 + reflat/AirDlat - fractional_lat);
     rlat = AirDlat * (j + fractional_lat);
     if (rlat >= 270) rlat -= 360;
 
@@ -352,8 +345,7 @@ int decodeCPRrelative(double reflat, double reflon,
 
     // Compute the Longitude Index "m"
     AirDlon = cprDlonFunction(rlat, fflag, surface);
-    m = (int) (floor(reflon/AirDlon) +
-               floor(0.5 + cprModDouble(reflon, AirDlon)/AirDlon - fractional_lon));
+    m = (int) floor(0.5 + reflon/AirDlon - fractional_lon);
     rlon = AirDlon * (m + fractional_lon);
 
     // Check to see that answer is reasonable - ie no more than 1/2 cell away
-- 
2.43.0


From 72a729edbbe988af2fcf0b2f08397ed8c68c1dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 41/67] fix: plots hung or showed garbage when an input held
 more samples than the requested history

---
 desktop_blocks/plots/plot_cspectrum.cpp  | 4 ++++
 desktop_blocks/plots/plot_timeseries.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 870c003..a606a79 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -137,6 +137,10 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // A channel may hold more than was asked for; never replace more than the history
+    if (work_size > _buffer_size) {
+        work_size = _buffer_size;
+    }
 
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 33f6d8d..295c45d 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -91,6 +91,10 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // A channel may hold more than was asked for; never replace more than the history
+    if (work_size > _buffer_size) {
+        work_size = _buffer_size;
+    }
 
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
-- 
2.43.0


From 6b062b0b0ab02d6b3bd2ee8c793974f23fe5221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 42/67] fix: data race between drawing and processing in the
 time series and spectrum plots (torn curves)

---
 desktop_blocks/plots/plot_cspectrum.cpp  | 2 ++
 desktop_blocks/plots/plot_timeseries.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index a606a79..d831cbc 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -142,6 +142,8 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
         work_size = _buffer_size;
     }
 
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);  // render() must not see a half-updated history
+
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
             ? (_signal_channels[i].size() + work_size - _buffer_size) : 0;
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 295c45d..0eeaadd 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -96,6 +96,8 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
         work_size = _buffer_size;
     }
 
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);  // render() must not see a half-updated history
+
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
 
-- 
2.43.0


From ea8ed7b4387503fc22eab1c57a6d9d056871b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 43/67] fix: spectrum and spectrogram were wrong for transforms
 of 4, 6, 8 and 16 points (in-place transform)

---
 desktop_blocks/plots/plot_cspectrogram.cpp | 20 +++++++++++---------
 desktop_blocks/plots/plot_cspectrogram.hpp |  3 ++-
 desktop_blocks/plots/plot_cspectrum.cpp    | 20 +++++++++++---------
 desktop_blocks/plots/plot_cspectrum.hpp    |  3 ++-
 4 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrogram.cpp b/desktop_blocks/plots/plot_cspectrogram.cpp
index 11515e0..a1bea75 100644
--- a/desktop_blocks/plots/plot_cspectrogram.cpp
+++ b/desktop_blocks/plots/plot_cspectrogram.cpp
@@ -47,7 +47,8 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
         new (&in[i]) cler::Channel<std::complex<float>>(buffer_size);
     }
 
-    _liquid_inout = new std::complex<float>[_n_fft_samples];
+    _liquid_in = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples];
     _tmp_y_buffer = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
 
@@ -63,8 +64,8 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
     }
 
     _fftplan = fft_create_plan(_n_fft_samples,
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_in),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -75,7 +76,8 @@ PlotCSpectrogramBlock::~PlotCSpectrogramBlock() {
     }
     ::operator delete[](in);
 
-    delete[] _liquid_inout;
+    delete[] _liquid_in;
+    delete[] _liquid_out;
     delete[] _tmp_y_buffer;
     delete[] _tmp_mag_buffer;
 
@@ -108,19 +110,19 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         auto [read_ptr, read_size] = in[i].read_dbf();
         if (read_ptr && read_size >= _n_fft_samples) {
             // FAST PATH: Copy directly from doubly-mapped buffer
-            memcpy(_liquid_inout, read_ptr, _n_fft_samples * sizeof(std::complex<float>));
+            memcpy(_liquid_in, read_ptr, _n_fft_samples * sizeof(std::complex<float>));
             in[i].commit_read(_n_fft_samples);
         } else {
             // Fall back to standard approach
             in[i].readN(_tmp_y_buffer, _n_fft_samples);
-            memcpy(_liquid_inout, _tmp_y_buffer, _n_fft_samples * sizeof(std::complex<float>));
+            memcpy(_liquid_in, _tmp_y_buffer, _n_fft_samples * sizeof(std::complex<float>));
         }
 
         float coherent_gain = 0.0f;
         for (size_t n = 0; n < _n_fft_samples; ++n) {
             float w = spectral_window_function(_window_type, n / static_cast<float>(_n_fft_samples - 1));
             coherent_gain += w;
-            _liquid_inout[n] *= w * ((n % 2 == 0) ? 1.0f : -1.0f);
+            _liquid_in[n] *= w * ((n % 2 == 0) ? 1.0f : -1.0f);
         }
         coherent_gain /= static_cast<float>(_n_fft_samples);
 
@@ -130,8 +132,8 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         float scale2 = scale * scale;
 
         for (size_t j = 0; j < _n_fft_samples; ++j) {
-            float re = _liquid_inout[j].real();
-            float im = _liquid_inout[j].imag();
+            float re = _liquid_out[j].real();
+            float im = _liquid_out[j].imag();
             float power = (re * re + im * im) / scale2;
             _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
         }
diff --git a/desktop_blocks/plots/plot_cspectrogram.hpp b/desktop_blocks/plots/plot_cspectrogram.hpp
index b54dece..7e96f67 100644
--- a/desktop_blocks/plots/plot_cspectrogram.hpp
+++ b/desktop_blocks/plots/plot_cspectrogram.hpp
@@ -35,7 +35,8 @@ private:
     size_t _tall;
     SpectralWindow _window_type;
 
-    std::complex<float>* _liquid_inout;
+    std::complex<float>* _liquid_in;
+    std::complex<float>* _liquid_out;  // liquid's small transforms do not work in place
     std::complex<float>* _tmp_y_buffer;
     float* _tmp_mag_buffer;
 
diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index d831cbc..0d6544c 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -72,7 +72,8 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
 
     _tmp_buffer = new std::complex<float>[_buffer_size];
 
-    _liquid_inout = new std::complex<float>[_n_fft_samples];
+    _liquid_in = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
     _freq_bins = new float[_n_fft_samples];
     for (size_t i = 0; i < _n_fft_samples; ++i) {
@@ -88,8 +89,8 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
     }
 
     _fftplan = fft_create_plan(_n_fft_samples,
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_in),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -108,7 +109,8 @@ PlotCSpectrumBlock::~PlotCSpectrumBlock() {
     delete[] _snapshot_buffers;
 
     delete[] _tmp_buffer;
-    delete[] _liquid_inout;
+    delete[] _liquid_in;
+    delete[] _liquid_out;
     delete[] _tmp_mag_buffer;
     delete[] _freq_bins;
     
@@ -235,7 +237,7 @@ void PlotCSpectrumBlock::render() {
         ImPlot::SetupAxes("Frequency [Hz]", "Magnitude [dB]");
 
         for (size_t i = 0; i < _num_inputs; ++i) {
-            memcpy(_liquid_inout,
+            memcpy(_liquid_in,
                    _snapshot_buffers[i],
                    _n_fft_samples * sizeof(std::complex<float>));
 
@@ -243,19 +245,19 @@ void PlotCSpectrumBlock::render() {
             for (size_t n = 0; n < _n_fft_samples; ++n) {
                 float w = spectral_window_function(_window_type, n / static_cast<float>(_n_fft_samples - 1));
                 coherent_gain += w;
-                _liquid_inout[n] *= w;
+                _liquid_in[n] *= w;
             }
             coherent_gain /= static_cast<float>(_n_fft_samples);
 
             fft_execute(_fftplan);
-            fft_shift(_liquid_inout, _n_fft_samples);
+            fft_shift(_liquid_out, _n_fft_samples);
 
             float scale = static_cast<float>(_n_fft_samples) * coherent_gain;
             float scale2 = scale * scale;
 
             for (size_t j = 0; j < _n_fft_samples; ++j) {
-                float re = _liquid_inout[j].real();
-                float im = _liquid_inout[j].imag();
+                float re = _liquid_out[j].real();
+                float im = _liquid_out[j].imag();
                 float power = (re * re + im * im) / scale2;
                 _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
             }
diff --git a/desktop_blocks/plots/plot_cspectrum.hpp b/desktop_blocks/plots/plot_cspectrum.hpp
index dbe72a4..d70bf70 100644
--- a/desktop_blocks/plots/plot_cspectrum.hpp
+++ b/desktop_blocks/plots/plot_cspectrum.hpp
@@ -40,7 +40,8 @@ private:
     std::complex<float>** _snapshot_buffers = nullptr;
     std::complex<float>* _tmp_buffer = nullptr;
 
-    std::complex<float>* _liquid_inout = nullptr;
+    std::complex<float>* _liquid_in = nullptr;
+    std::complex<float>* _liquid_out = nullptr;  // liquid's small transforms do not work in place
     float* _freq_bins = nullptr;
     float* _tmp_mag_buffer = nullptr;
     float** _spectrum_avg = nullptr;  // Averaged spectrum for each input
-- 
2.43.0


From 05122bce0a121824967020d0e9401fab740ac273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 44/67] fix: aircraft vertical rate was the raw field without
 sign instead of feet per minute

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 5893455..0f15ea9 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -91,8 +91,10 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                     }
                 }
                 if (msg.vert_rate != 0) {
-                    if (state.vertical_rate != msg.vert_rate) {
-                        state.vertical_rate = msg.vert_rate;
+                    // Raw field: 0 is no information, 1 is level, then steps of 64 feet/minute
+                    int vertical_rate = (msg.vert_rate - 1) * 64 * (msg.vert_rate_sign ? -1 : 1);
+                    if (state.vertical_rate != vertical_rate) {
+                        state.vertical_rate = vertical_rate;
                         state_changed = true;
                     }
                 }
-- 
2.43.0


From 28ed2d4f8d1082c97040b9a41007c0fa2153b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 45/67] fix: velocity messages without a heading reset the
 aircraft's track to 0

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 0f15ea9..f4b204c 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -84,7 +84,9 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                         state_changed = true;
                     }
                 }
-                if (msg.heading >= 0 && msg.heading <= 360) {
+                // Without speed components or a valid heading the message says nothing about the track
+                bool has_heading = msg.velocity > 0 || msg.heading_is_valid;
+                if (has_heading && msg.heading >= 0 && msg.heading <= 360) {
                     if (static_cast<int>(state.track) != msg.heading) {
                         state.track = static_cast<float>(msg.heading);
                         state_changed = true;
-- 
2.43.0


From c6be76b790cc4df7bce31de48349efedde6576f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 46/67] fix: aircraft positions were decoded from even/odd
 reports of any age, giving wrong places

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 9 +++++++--
 desktop_blocks/adsb/adsb_types.hpp     | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index f4b204c..12df556 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -109,15 +109,19 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                 if (msg.fflag == 0) {  // Even frame
                     state.last_even_cprlat = msg.raw_latitude;
                     state.last_even_cprlon = msg.raw_longitude;
+                    state.last_even_time = now;
                     state.has_even_position = true;
                 } else {  // Odd frame (fflag == 1)
                     state.last_odd_cprlat = msg.raw_latitude;
                     state.last_odd_cprlon = msg.raw_longitude;
+                    state.last_odd_time = now;
                     state.has_odd_position = true;
                 }
 
-                // Try to decode position if we have both even and odd frames
-                if (state.has_even_position && state.has_odd_position) {
+                // Try to decode position if we have both even and odd frames, received close together:
+                // once the aircraft has moved in between, the pair decodes to a wrong place
+                bool pair_fresh = std::abs(static_cast<int32_t>(state.last_even_time - state.last_odd_time)) <= MAX_PAIR_AGE_S;
+                if (state.has_even_position && state.has_odd_position && pair_fresh) {
                     double lat, lon;
                     int result = decodeCPRairborne(
                         state.last_even_cprlat, state.last_even_cprlon,
@@ -254,6 +258,7 @@ private:
     CoastlineData _coastline_data;
     bool _coastlines_loaded;
 
+    static constexpr int32_t MAX_PAIR_AGE_S = 10;  // limit for an even/odd pair in the ADS-B standard
     static constexpr size_t MESSAGE_BUFFER_SIZE = 1024;
     mode_s_msg _msg_buffer[MESSAGE_BUFFER_SIZE];
 
diff --git a/desktop_blocks/adsb/adsb_types.hpp b/desktop_blocks/adsb/adsb_types.hpp
index 13d3f37..a10c10c 100644
--- a/desktop_blocks/adsb/adsb_types.hpp
+++ b/desktop_blocks/adsb/adsb_types.hpp
@@ -24,6 +24,8 @@ struct ADSBState {
     int last_odd_cprlon;            // Last odd frame longitude (17 bits)
     bool has_even_position;         // True if we have a valid even position
     bool has_odd_position;          // True if we have a valid odd position
+    uint32_t last_even_time;        // Timestamp of last even frame
+    uint32_t last_odd_time;         // Timestamp of last odd frame
 
     // Altitude and speed (most recent)
     int altitude;                   // Altitude (feet)
@@ -41,6 +43,7 @@ struct ADSBState {
           last_even_cprlat(0), last_even_cprlon(0),
           last_odd_cprlat(0), last_odd_cprlon(0),
           has_even_position(false), has_odd_position(false),
+          last_even_time(0), last_odd_time(0),
           altitude(0), groundspeed(0.0f), track(0.0f), vertical_rate(0),
           last_update_time(0), message_count(0) {
         callsign[0] = '\0';
-- 
2.43.0


From 973c7257b50d83fec4c9acbefbc9a16288a68ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 47/67] fix: data race between the ADS-B aggregator's
 processing and its map and queries

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 12df556..488ed7a 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -5,6 +5,7 @@
 #include "adsb_coastline_loader.hpp"
 #include "modes.h"
 #include "cpr.h"
+#include <mutex>
 #include <unordered_map>
 #include <imgui.h>
 #include <cmath>
@@ -47,6 +48,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
 
             // Get or create aircraft state for this ICAO
             uint32_t icao = (msg.aa1 << 16) | (msg.aa2 << 8) | msg.aa3;
+            std::unique_lock<std::mutex> lock(_aircraft_mutex);
             ADSBState& state = _aircraft[icao];
 
             if (state.icao == 0) {
@@ -148,6 +150,8 @@ struct ADSBAggregateBlock : public cler::BlockBase {
             state.last_update_time = now;
             state.message_count++;
 
+            lock.unlock();  // the callback may query the table
+
             // Fire callback if state changed
             if (state_changed && _callback) {
                 _callback(state, _callback_context);
@@ -158,6 +162,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t get_aircrafts(ADSBState* buf, size_t max_count) const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         size_t count = 0;
         for (const auto& pair : _aircraft) {
             if (count >= max_count) break;
@@ -167,6 +172,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t aircraft_count() const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         return _aircraft.size();
     }
 
@@ -204,7 +210,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         // Draw info text
         ImGui::SetCursorScreenPos(ImVec2(canvas_pos.x + INFO_TEXT_OFFSET_X, canvas_p1.y - INFO_TEXT_OFFSET_Y));
         ImGui::Text("Aircraft: %zu | Center: %.2f°N, %.2f°W | Zoom: %.1fx",
-                    _aircraft.size(), _map_center_lat, -_map_center_lon, _map_zoom);
+                    aircraft_count(), _map_center_lat, -_map_center_lon, _map_zoom);
 
         // Handle mouse interactions
         handle_map_interaction(canvas_pos, canvas_size);
@@ -243,6 +249,7 @@ private:
     static constexpr float INITIAL_WINDOW_SIZE_Y = 800.0f;
 
     std::unordered_map<uint32_t, ADSBState> _aircraft;
+    mutable std::mutex _aircraft_mutex;  // procedure() runs beside render() and the queries
     OnAircraftUpdateCallback _callback;
     void* _callback_context;
 
@@ -337,6 +344,7 @@ private:
     }
 
     void draw_aircraft(ImDrawList* draw_list, ImVec2 canvas_pos, ImVec2 canvas_size) {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         for (const auto& pair : _aircraft) {
             const ADSBState& state = pair.second;
 
-- 
2.43.0


From 1948fb54cf2be44b9053c46198eb3b6efdfdbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 48/67] fix: malformed coastline files caused huge allocations,
 reads past the record and garbage lines

---
 desktop_blocks/adsb/adsb_coastline_loader.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_coastline_loader.hpp b/desktop_blocks/adsb/adsb_coastline_loader.hpp
index 9a397a8..19d5ab8 100644
--- a/desktop_blocks/adsb/adsb_coastline_loader.hpp
+++ b/desktop_blocks/adsb/adsb_coastline_loader.hpp
@@ -56,12 +56,12 @@ struct CoastlineData {
             if (offset + 8 + record_len > static_cast<size_t>(file_size)) break;
 
             // Read shape type (4 bytes, little-endian)
-            uint32_t shape_type_le;
+            uint32_t shape_type_le = 0;
             file.read(reinterpret_cast<char*>(&shape_type_le), 4);
             uint32_t shape_type = shape_type_le;  // Already little-endian in file for shape data
 
             // Type 3 = PolyLine
-            if (shape_type == 3) {
+            if (shape_type == 3 && record_len >= 44) {
                 parse_polyline(file, record_len);
             }
 
@@ -121,10 +121,24 @@ private:
             return;
         }
 
+        // The counts come from the file: the record must really hold that many indices and points
+        if (44 + uint64_t{num_parts} * 4 + uint64_t{num_points} * 16 > record_len) {
+            return;
+        }
+
         // Read part indices (each part is a uint32)
         std::vector<uint32_t> part_indices(num_parts);
         file.read(reinterpret_cast<char*>(part_indices.data()), num_parts * 4);
 
+        // Parts must be consecutive and lie within the points
+        uint32_t prev = 0;
+        for (uint32_t start : part_indices) {
+            if (start < prev || start > num_points || part_indices[0] != 0) {
+                return;
+            }
+            prev = start;
+        }
+
         // Read all points and organize by parts
         for (uint32_t part_idx = 0; part_idx < num_parts; ++part_idx) {
             uint32_t start_point = part_indices[part_idx];
-- 
2.43.0


From 3bd0ee574ef9d950db37ed35574b56ebb11d8fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 49/67] fix: GMSK modulator block compares room in samples, not
 bytes (frames that fit were never sent)

---
 desktop_blocks/ezgmsk/ezgmsk_mod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
index bf79ef2..2330fc1 100644
--- a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
+++ b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
@@ -53,7 +53,7 @@ struct EZGmskModBlock : public cler::BlockBase {
             unsigned int frame_len = ezgmsk::ezgmsk_mod_get_frame_len(_mod);
             auto [write_ptr, write_space] = out->write_dbf();
 
-            if (write_space < frame_len * sizeof(liquid_float_complex)) {
+            if (write_space < frame_len) {
                 break;
             }
 
-- 
2.43.0


From 469944bb0579c064ce500c42a0c8f1f8fcbfed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 50/67] fix: GMSK modulator sends an empty buffer's tail whole
 instead of repeating a symbol and cutting the ramp

---
 desktop_blocks/ezgmsk/_ezgmsk_mod.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_mod.c b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
index 927c819..202210b 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_mod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
@@ -264,7 +264,7 @@ int ezgmsk_mod_write_data(ezgmsk_mod _q)
     if (_q->data_len == 0) {
         // skip data if length is zero
         _q->state = EZGMSK_MOD_STATE_TAIL;
-        return LIQUID_OK;
+        return ezgmsk_mod_write_tail(_q);
     }
 
     // determine byte and bit indices
-- 
2.43.0


From d71c72ca0e6cd2bb86ec6ed243cf82e11720a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 51/67] fix: GMSK demodulator no longer aborts when the
 correlation peak is flat (plain carrier or DC)

---
 desktop_blocks/ezgmsk/_ezgmsk_demod.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_demod.c b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
index 0679163..7cbbef3 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_demod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
@@ -493,6 +493,9 @@ int ezgmsk_demod_execute_detectframe(ezgmsk_demod _q,
 
     // check if frame has been detected
     if (detected) {
+        // a flat correlation peak (e.g. a plain carrier) has no defined offset
+        if (isnan(_q->tau_hat)) _q->tau_hat = 0.0f;
+
         _q->rssi_db = 10.0*log10f(_q->gamma_hat);
         _q->snr_db = 10.0*log10f(_q->gamma_hat / (1.0f - _q->gamma_hat));
         _q->callback(_q->sample_counter,
-- 
2.43.0


From 32a5009a47730319fa5b8dc1b7fca77468a0135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 52/67] fix: audio file block loses no samples when the channel
 is short of room or the file ends

---
 desktop_blocks/sources/source_audio_file.hpp | 69 ++++++++++++--------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 2b8cb72..3a67dfc 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -75,22 +75,58 @@ struct SourceAudioFileBlock : public cler::BlockBase {
         size_t samples_written = 0;
         int ret = 0;
 
+        // Samples of earlier frames that did not fit into the channel are still in the resampler
+        ret = _resample(write_ptr, write_size, (const uint8_t**)_frame->data, 0);
+        if (ret < 0) {
+            return cler::Error::TERM_IOError;
+        }
+        samples_written += ret;
+
         while (samples_written < write_size) {
-            ret = av_read_frame(_format_ctx, &_packet);
+            ret = avcodec_receive_frame(_codec_ctx, _frame);
+
+            if (ret == 0) {
+                ret = _resample(write_ptr + samples_written, write_size - samples_written,
+                                (const uint8_t**)_frame->data, _frame->nb_samples);
+                if (ret < 0) {
+                    return cler::Error::TERM_IOError;
+                }
+                samples_written += ret;
+                continue;
+            }
 
             if (ret == AVERROR_EOF) {
+                // The decoder has handed out its last frame
                 if (_repeat) {
                     // Seek to beginning and retry
                     av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
                     avcodec_flush_buffers(_codec_ctx);
                     continue;
                 } else {
+                    ret = _resample(write_ptr + samples_written, write_size - samples_written, nullptr, 0);
+                    if (ret > 0) {
+                        samples_written += ret;
+                        continue;
+                    }
                     _eof_reached = true;
                     if (_callback) {
                         _callback(_filename);
                     }
                     break;
                 }
+            } else if (ret != AVERROR(EAGAIN)) {
+                return cler::Error::TERM_IOError;
+            }
+
+            // The decoder needs more input
+            ret = av_read_frame(_format_ctx, &_packet);
+
+            if (ret == AVERROR_EOF) {
+                ret = avcodec_send_packet(_codec_ctx, nullptr);
+                if (ret < 0) {
+                    return cler::Error::TERM_IOError;
+                }
+                continue;
             } else if (ret < 0) {
                 return cler::Error::TERM_IOError;
             }
@@ -106,31 +142,6 @@ struct SourceAudioFileBlock : public cler::BlockBase {
             if (ret < 0) {
                 return cler::Error::TERM_IOError;
             }
-
-            while (avcodec_receive_frame(_codec_ctx, _frame) == 0) {
-                // Resample to desired format and sample rate
-                // Prepare output buffer pointer (advance by already-written samples)
-                uint8_t* out_buf = reinterpret_cast<uint8_t*>(write_ptr) + samples_written * sizeof(T);
-                uint8_t* out_bufs[] = {out_buf};
-
-                int frame_count = swr_convert(
-                    _resampler,
-                    out_bufs,
-                    write_size - samples_written,
-                    (const uint8_t**)_frame->data,
-                    _frame->nb_samples
-                );
-
-                if (frame_count < 0) {
-                    return cler::Error::TERM_IOError;
-                }
-
-                samples_written += frame_count;
-
-                if (samples_written >= write_size) {
-                    break;
-                }
-            }
         }
 
         if (samples_written > 0) {
@@ -157,6 +168,12 @@ private:
     int _audio_stream_idx;
     bool _eof_reached;
 
+    // Hands a frame to the resampler and takes at most `room` samples out of it (nullptr: there is no more input)
+    int _resample(T* out, size_t room, const uint8_t** in, int in_count) {
+        uint8_t* out_bufs[] = {reinterpret_cast<uint8_t*>(out)};
+        return swr_convert(_resampler, out_bufs, room, in, in_count);
+    }
+
     void _open_audio_file() {
         // Open input file
         int ret = avformat_open_input(&_format_ctx, _filename, nullptr, nullptr);
-- 
2.43.0


From a0d9068766ceb030e9dee5bdf548d05c8a12d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 53/67] fix: audio file block reports the end of the file once

---
 desktop_blocks/sources/source_audio_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 3a67dfc..9165342 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -108,10 +108,10 @@ struct SourceAudioFileBlock : public cler::BlockBase {
                         samples_written += ret;
                         continue;
                     }
-                    _eof_reached = true;
-                    if (_callback) {
+                    if (!_eof_reached && _callback) {
                         _callback(_filename);
                     }
+                    _eof_reached = true;
                     break;
                 }
             } else if (ret != AVERROR(EAGAIN)) {
-- 
2.43.0


From e1b6538fb928285ffe66e8ad20a84a1ddb7536a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 54/67] fix: audio file block returns from its procedure when a
 repeated file holds no samples

---
 desktop_blocks/sources/source_audio_file.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 9165342..b072c13 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -86,6 +86,7 @@ struct SourceAudioFileBlock : public cler::BlockBase {
             ret = avcodec_receive_frame(_codec_ctx, _frame);
 
             if (ret == 0) {
+                _pass_had_frames = true;
                 ret = _resample(write_ptr + samples_written, write_size - samples_written,
                                 (const uint8_t**)_frame->data, _frame->nb_samples);
                 if (ret < 0) {
@@ -99,8 +100,14 @@ struct SourceAudioFileBlock : public cler::BlockBase {
                 // The decoder has handed out its last frame
                 if (_repeat) {
                     // Seek to beginning and retry
-                    av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
+                    if (av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD) < 0) {
+                        return cler::Error::TERM_IOError;
+                    }
                     avcodec_flush_buffers(_codec_ctx);
+                    if (!_pass_had_frames) {
+                        break;  // Nothing to play in this file, do not spin here
+                    }
+                    _pass_had_frames = false;
                     continue;
                 } else {
                     ret = _resample(write_ptr + samples_written, write_size - samples_written, nullptr, 0);
@@ -167,6 +174,7 @@ private:
     AVPacket _packet = {};  // Zero-init (no av_init_packet needed)
     int _audio_stream_idx;
     bool _eof_reached;
+    bool _pass_had_frames = false;
 
     // Hands a frame to the resampler and takes at most `room` samples out of it (nullptr: there is no more input)
     int _resample(T* out, size_t room, const uint8_t** in, int in_count) {
-- 
2.43.0


From c503155174a01ce9158ecd4604fdf5c1ef534545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 55/67] fix: audio file block mixes files with more than two
 channels down from their own layout

---
 desktop_blocks/sources/source_audio_file.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index b072c13..9808dcf 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -217,9 +217,13 @@ private:
         // FFmpeg version compatibility: handle channel layout API changes
         #if LIBAVCODEC_VERSION_MAJOR >= 59
             // FFmpeg 5.0+ (libavcodec 59+): New AVChannelLayout API
-            int64_t input_ch_layout = _codec_ctx->ch_layout.nb_channels > 1
-                ? AV_CH_LAYOUT_STEREO
-                : AV_CH_LAYOUT_MONO;
+            if (_codec_ctx->ch_layout.order != AV_CHANNEL_ORDER_NATIVE) {
+                // layout not set, derive from channel count
+                av_channel_layout_default(&_codec_ctx->ch_layout, _codec_ctx->ch_layout.nb_channels);
+            }
+            int64_t input_ch_layout = _codec_ctx->ch_layout.order == AV_CHANNEL_ORDER_NATIVE
+                ? _codec_ctx->ch_layout.u.mask
+                : 0;
         #else
             // FFmpeg 4.x (libavcodec 58): Legacy channel_layout/channels fields
             int64_t input_ch_layout = _codec_ctx->channel_layout;
-- 
2.43.0


From 2f3a292bfcb48e10f110e4ec10b37ba4e536dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 56/67] fix: audio file block releases the file when its
 construction fails

---
 desktop_blocks/sources/source_audio_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 9808dcf..f95430c 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -55,7 +55,12 @@ struct SourceAudioFileBlock : public cler::BlockBase {
           _audio_stream_idx(-1),
           _eof_reached(false)
     {
-        _open_audio_file();
+        try {
+            _open_audio_file();
+        } catch (...) {
+            _close_audio_file();
+            throw;
+        }
     }
 
     ~SourceAudioFileBlock() {
-- 
2.43.0


From 1bdf04de399a227097c70c51d62911e126a2d37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 57/67] fix: audio sink balances Pa_Initialize with
 Pa_Terminate

---
 desktop_blocks/sinks/sink_audio.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/desktop_blocks/sinks/sink_audio.hpp b/desktop_blocks/sinks/sink_audio.hpp
index ebe2def..19baab2 100644
--- a/desktop_blocks/sinks/sink_audio.hpp
+++ b/desktop_blocks/sinks/sink_audio.hpp
@@ -53,20 +53,26 @@ struct SinkAudioBlock : public cler::BlockBase {
         PaError err = Pa_Initialize();
         pa_check(err);
 
-        // Validate device index if specified
-        if (device_index != paNoDevice) {
-            int num_devices = Pa_GetDeviceCount();
-            if (num_devices < 0 || device_index >= num_devices) {
-                throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+        try {
+            // Validate device index if specified
+            if (device_index != paNoDevice) {
+                int num_devices = Pa_GetDeviceCount();
+                if (num_devices < 0 || device_index >= num_devices) {
+                    throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+                }
             }
-        }
 
-        // Open the audio stream
-        _open_stream();
+            // Open the audio stream
+            _open_stream();
+        } catch (...) {
+            Pa_Terminate();
+            throw;
+        }
     }
 
     ~SinkAudioBlock() {
         _close_stream();
+        Pa_Terminate();
     }
 
     cler::Result<cler::Empty, cler::Error> procedure() {
@@ -105,6 +111,7 @@ struct SinkAudioBlock : public cler::BlockBase {
 
         int num_devices = Pa_GetDeviceCount();
         if (num_devices < 0) {
+            Pa_Terminate();
             throw std::runtime_error("Pa_GetDeviceCount() failed");
         }
 
@@ -119,6 +126,7 @@ struct SinkAudioBlock : public cler::BlockBase {
                        info->defaultHighOutputLatency * 1000.0);
             }
         }
+        Pa_Terminate();
     }
 
 private:
-- 
2.43.0


From af4a3cca2f092a9b9a98361aaebd31599603d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 58/67] fix: UHD sink can be constructed without an initial
 configuration

---
 desktop_blocks/sinks/sink_uhd.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 028d846..39baa42 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -101,10 +101,6 @@ struct SinkUHDBlock : public cler::BlockBase {
                 throw std::runtime_error("SinkUHDBlock: Failed to setup TX stream");
             }
 
-            for (size_t channel = 0; channel < _num_channels; ++channel) {
-                configure(*initial_config, channel);
-            }
-
             // Allocate UHD buffer pointer array (vector auto-manages)
             _uhd_buffs.resize(_num_channels);
             _read_ptrs.resize(_num_channels);
-- 
2.43.0


From 6f006d997021563e0f97d1c852db7157e6639a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 59/67] fix: UHD sink sends all its channels together and
 consumes each of them

---
 desktop_blocks/sinks/sink_uhd.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 39baa42..237648e 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -13,6 +13,7 @@
         #error "UHD headers not found. Please install libuhd-dev package."
     #endif
 #endif
+#include <algorithm>
 #include <complex>
 
 #include <vector>
@@ -203,16 +204,19 @@ struct SinkUHDBlock : public cler::BlockBase {
             if (_read_sizes[i] < (cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T)) / 4) {
                 return cler::Error::NotEnoughSamples;
             }
-            uhd::tx_metadata_t md;
-            md.start_of_burst = false;
-            md.end_of_burst = false;
-            md.has_time_spec = false;               
-
-            size_t sent = _tx_stream->send(_read_ptrs[i],
-                            _read_sizes[i],
-                            md,
-                            0.1);  // 100ms timeout
-            in->commit_read(sent);
+        }
+        uhd::tx_metadata_t md;
+        md.start_of_burst = false;
+        md.end_of_burst = false;
+        md.has_time_spec = false;               
+
+        // The streamer takes one buffer per channel, all of the same length
+        size_t sent = _tx_stream->send(_read_ptrs,
+                        *std::min_element(_read_sizes.begin(), _read_sizes.end()),
+                        md,
+                        0.1);  // 100ms timeout
+        for (size_t i = 0; i < _num_channels; ++i) {
+            in[i].commit_read(sent);
         }
 
         handle_async_events();
-- 
2.43.0


From 54e2c6ab6460754b9eebf4f8d8f8e84469ce50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 60/67] fix: UHD source counts overflows and reports stream
 errors, which come without samples

---
 desktop_blocks/sources/source_uhd.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 7ef4278..c07ca1c 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -146,9 +146,6 @@ struct SourceUHDBlock : public cler::BlockBase {
                     return;
                 }
                 size_t num_rx = rx_stream->recv(write_ptr, write_size, md, 0.1);
-                if (num_rx == 0) {
-                    return;
-                }
                 if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
                     overflow_count++;
                 } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
-- 
2.43.0


From 53948bddbe088b2980ad21f8f70b3a107b2c9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 61/67] fix: UHD source receives all its channels together

---
 desktop_blocks/sources/source_uhd.hpp | 53 ++++++++++++---------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index c07ca1c..8f2dc9f 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -14,6 +14,8 @@
     #endif
 #endif
 
+#include <algorithm>
+#include <limits>
 #include <vector>
 #include <string>
 #include <iostream>
@@ -132,38 +134,29 @@ struct SourceUHDBlock : public cler::BlockBase {
             return cler::Empty{};  // Skip this iteration
         }
 
+        // The streamer fills one buffer per channel, all with the same number of samples
+        std::vector<void*> write_ptrs;
+        size_t room = std::numeric_limits<size_t>::max();
+        ([&](OChannels* out) {
+            auto [write_ptr, write_size] = out->write_dbf();
+            write_ptrs.push_back(write_ptr);
+            room = std::min(room, write_ptr ? write_size : 0);
+        }(outs), ...);
+        if (room == 0) {
+            return cler::Error::NotEnoughSpace;
+        }
+
         uhd::rx_metadata_t md;
-        cler::Error result_error = cler::Error::OK;
-        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-            ([&](OChannels* out) {
-
-                if (result_error != cler::Error::OK) {
-                    return;
-                }
-                auto [write_ptr, write_size] = out->write_dbf();
-                if (!write_ptr || write_size == 0) {
-                    result_error = cler::Error::NotEnoughSpace;
-                    return;
-                }
-                size_t num_rx = rx_stream->recv(write_ptr, write_size, md, 0.1);
-                if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
-                    overflow_count++;
-                } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
-                            md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
-                    std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
-                    result_error = cler::Error::TERM_ProcedureError;
-                    return;
-                }
-
-                out->commit_write(num_rx);
-            }(outs), ...);
-        }(std::make_index_sequence<num_outs>{});
-
-
-
-        if (result_error != cler::Error::OK) {
-            return result_error;
+        size_t num_rx = rx_stream->recv(write_ptrs, room, md, 0.1);
+        if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
+            overflow_count++;
+        } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
+                    md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
+            std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
+            return cler::Error::TERM_ProcedureError;
         }
+
+        (outs->commit_write(num_rx), ...);
         return cler::Empty{};
 
 
-- 
2.43.0


From 49e78a7021c15a2eca118923ad3de04f954e395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 62/67] fix: UHD source stops the stream it started

---
 desktop_blocks/sources/source_uhd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 8f2dc9f..5ec81c6 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -77,6 +77,11 @@ struct SourceUHDBlock : public cler::BlockBase {
     }
 
     ~SourceUHDBlock() {
+        try {
+            rx_stream->issue_stream_cmd(uhd::stream_cmd_t(uhd::stream_cmd_t::STREAM_MODE_STOP_CONTINUOUS));
+        } catch (const std::exception& e) {
+            std::cerr << "SourceUHDBlock: Failed to stop streaming: " << e.what() << std::endl;
+        }
         if (overflow_count > 0) {
             std::cout << "SourceUHDBlock: Total overflows: " << overflow_count << std::endl;
         }
-- 
2.43.0


From 6156706d51c1a335371e741020b078fd9606241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 63/67] fix: UHD source starts several channels at a common
 time, as the streamer requires

---
 desktop_blocks/sources/source_uhd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 5ec81c6..a6b9f0c 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -67,6 +67,11 @@ struct SourceUHDBlock : public cler::BlockBase {
         }
         uhd::stream_cmd_t stream_cmd(uhd::stream_cmd_t::STREAM_MODE_START_CONTINUOUS);
         stream_cmd.stream_now = true;
+        if (num_channels > 1) {
+            // Channels can only be aligned by starting them at a common time
+            stream_cmd.stream_now = false;
+            stream_cmd.time_spec = usrp->get_time_now() + uhd::time_spec_t(0.1);
+        }
         rx_stream->issue_stream_cmd(stream_cmd);
         std::cout << "SourceUHDBlock: Initialized " << usrp->get_mboard_name() << std::endl;
         std::cout << "  Channels: " << num_channels << std::endl;
-- 
2.43.0


From 2548491913fa148e885390c28f1028ed4cf47ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 64/67] fix: diagram tool skips comments between the arguments
 of a BlockRunner

---
 tools/mermaid/src/cpp_parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index a9d61ae..7e42010 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -278,9 +278,11 @@ void CppParser::extract_single_blockrunner(TSNode node, const std::string&) {
     for (uint32_t i = 0; i < child_count; i++) {
         TSNode child = ts_node_child(args_list, i);
         const char* child_type = ts_node_type(child);
+        // Comments may stand anywhere between the arguments
         if (strcmp(child_type, ",") != 0 &&
             strcmp(child_type, "(") != 0 &&
-            strcmp(child_type, ")") != 0) {
+            strcmp(child_type, ")") != 0 &&
+            strcmp(child_type, "comment") != 0) {
             std::string arg_text = get_node_text(child);
             if (!arg_text.empty() && arg_text[0] == '&') {
                 arg_text = arg_text.substr(1);
-- 
2.43.0


From 6a6f14ade7a9b7db5b8f7bb0fd40a0e31c2bde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:23 +0000
Subject: [PATCH 65/67] fix: diagram tool names the default output the same
 with and without a directory

---
 tools/mermaid/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/src/main.cpp b/tools/mermaid/src/main.cpp
index 4b1cefd..29970b4 100644
--- a/tools/mermaid/src/main.cpp
+++ b/tools/mermaid/src/main.cpp
@@ -133,7 +133,8 @@ int main(int argc, char* argv[]) {
                     base_name = input_file;
                 }
 
-                if (last_dot != std::string::npos && last_dot > last_slash) {
+                if (last_dot != std::string::npos &&
+                    (last_slash == std::string::npos || last_dot > last_slash)) {
                     base_name = base_name.substr(0, last_dot - (last_slash == std::string::npos ? 0 : last_slash + 1));
                 }
 
-- 
2.43.0


From 09d5cccf8fd37796ba3df9d2917041aaf5b70c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:24 +0000
Subject: [PATCH 66/67] fix: diagram tool reports a diagram it could not write

---
 tools/mermaid/src/mermaid_renderer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index 72448c3..96d3d81 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <sstream>
 #include <algorithm>
+#include <stdexcept>
 
 namespace cler {
 
@@ -18,6 +19,10 @@ void MermaidRenderer::render_to_file(const FlowGraph& flowgraph,
     std::string content = generate_mermaid(flowgraph);
     std::ofstream file(output_path + ".md");
     file << content;
+    file.close();
+    if (!file) {
+        throw std::runtime_error("Cannot write file: " + output_path + ".md");
+    }
 }
 
 std::string MermaidRenderer::generate_mermaid(const FlowGraph& flowgraph) {
-- 
2.43.0


From b82fa70fc21471c6eb42ebeb09cccb99ac4f3f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:47 +0000
Subject: [PATCH 67/67] fix: diagram tool keeps connections whose channel index
 is an expression apart

---
 tools/mermaid/src/cpp_parser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index 7e42010..fbbe675 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -330,8 +330,13 @@ void CppParser::extract_single_blockrunner(TSNode node, const std::string&) {
                 std::string index_str = target_channel.substr(bracket_pos + 1,
                                                               close_bracket - bracket_pos - 1);
                 try {
-                    conn.channel_index = std::stoi(index_str);
-                    conn.target_channel = target_channel.substr(0, bracket_pos);
+                    size_t parsed = 0;
+                    int index = std::stoi(index_str, &parsed);
+                    // An expression that only starts with a number is kept as it is written
+                    if (parsed == index_str.size()) {
+                        conn.channel_index = index;
+                        conn.target_channel = target_channel.substr(0, bracket_pos);
+                    }
                 } catch (...) {
                     // Keep original channel name if parse fails
                 }
-- 
2.43.0

