From b973dba87c78f29191f6bce1b83359b764e16706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 01/14] fix: keep the index caches in step in
 commit_read/commit_write

commit_read(size()) without a preceding view left the cached write index
behind the read index, so a later try_pop/pop on an empty queue delivered
a stale element (and symmetrically for commit_write).
---
 include/cler_spsc-queue.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index d4604a1..902a123 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -554,6 +554,8 @@ public:
     const auto capacity = base_type::capacity_;
     const auto readIndex = reader_.readIndex_.load(std::memory_order_relaxed);
     const auto nextReadIndex = (readIndex + count) % capacity;
+    // count may come from size(): never leave the cached write index behind the read index
+    reader_.writeIndexCache_ = writer_.writeIndex_.load(std::memory_order_acquire);
     reader_.readIndex_.store(nextReadIndex, std::memory_order_release);
   }
 
@@ -601,6 +603,8 @@ public:
       const auto capacity = base_type::capacity_;
       const auto writeIndex = writer_.writeIndex_.load(std::memory_order_relaxed);
       const auto nextWriteIndex = (writeIndex + count) % capacity;
+      // count may come from space(): never leave the cached read index behind
+      writer_.readIndexCache_ = reader_.readIndex_.load(std::memory_order_acquire);
       writer_.writeIndex_.store(nextWriteIndex, std::memory_order_release);
   }
 
-- 
2.43.0


From 29c9b5d7803d2438ca950a55651c53efb39e275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 02/14] fix: do not round doubly-mapped buffers up to a huge
 page

The mapping became longer than the ring (any buffer above 2 MB that is not
a multiple of the huge page size), so the second view did not start where
the ring wraps and contiguous views returned wrong samples.
---
 include/virtual_memory/cler_vmem_posix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/virtual_memory/cler_vmem_posix.hpp b/include/virtual_memory/cler_vmem_posix.hpp
index d344238..dcdc87a 100644
--- a/include/virtual_memory/cler_vmem_posix.hpp
+++ b/include/virtual_memory/cler_vmem_posix.hpp
@@ -80,16 +80,16 @@ public:
         
         // Get page sizes
         const std::size_t page_size = cler::platform::get_page_size();
-        std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
+        const std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
         
         // Determine if we should try huge pages
         bool use_huge_pages = false;
         
         #ifdef MAP_HUGETLB
         const std::size_t huge_page_size = get_huge_page_size();
-        if (huge_page_size > 0 && aligned_size >= huge_page_size) {
-            // Align to huge page boundary
-            aligned_size = ((size + huge_page_size - 1) / huge_page_size) * huge_page_size;
+        // The second view must start exactly where the caller's buffer ends, so never
+        // grow the mapping to a huge page boundary: use huge pages only if it already ends on one.
+        if (huge_page_size > 0 && aligned_size >= huge_page_size && aligned_size % huge_page_size == 0) {
             use_huge_pages = true;
         }
         #endif
-- 
2.43.0


From c67aea63f6ed1b2f7e36e0c4d9eaf591e8bb6e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 03/14] fix: end doubly-mapped rings on a page for any element
 size

With an element size that does not divide the page size the ring was
shorter than the mapping, so data past the wrap point was not aliased.
---
 include/cler_spsc-queue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 902a123..2074863 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -17,6 +17,7 @@
 #include <atomic>      // for atomic, memory_order
 #include <cstddef>     // for size_t
 #include <limits>      // for numeric_limits
+#include <numeric>     // for std::lcm
 #include <new>         // for std::hardware_destructive_interference_size
 #include <memory>      // for std::allocator_traits
 #include <type_traits> // for std::is_default_constructible
@@ -96,7 +97,9 @@ public:
           if (cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
             const std::size_t page_size = cler::platform::get_page_size();
-            const std::size_t aligned_bytes = ((buffer_bytes + page_size - 1) / page_size) * page_size;
+            // The ring must end exactly on a page: align to a multiple of both the page and the element
+            const std::size_t step = std::lcm(page_size, sizeof(T));
+            const std::size_t aligned_bytes = ((buffer_bytes + step - 1) / step) * step;
             return aligned_bytes / sizeof(T);  // Return page-aligned capacity
           }
           return requested_capacity;  // Return regular capacity
-- 
2.43.0


From 378372aa5135d57b8bdbb9641aad71155aff8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 04/14] fix: reject unallocatable queue capacities instead of
 wrapping around

capacity * sizeof(T) could overflow and, rounded up to a page, silently
yield a queue far smaller than requested.
---
 include/cler_spsc-queue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index 2074863..2043f09 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -89,6 +89,8 @@ public:
   explicit AdaptiveHeapBuffer(const std::size_t capacity,
                              const Allocator &allocator = Allocator())
       : capacity_([&]() -> std::size_t {
+          // Not allocatable: let the standard allocation below reject it
+          if (capacity >= MAX_SIZE_T / 2 / sizeof(T)) return MAX_SIZE_T - (2 * padding);
           // +1 prevents live lock e.g. reader and writer share 1 slot for size 1
           const std::size_t requested_capacity = capacity + 1;
           const std::size_t buffer_bytes = requested_capacity * sizeof(T);
@@ -114,7 +116,7 @@ public:
     
     // Try doubly mapped allocation for buffers ≥32KB (typical SDR buffer size)
     if (cler::platform::supports_doubly_mapped_buffers() && 
-        buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
+        capacity_ <= MAX_SIZE_T / 2 / sizeof(T) && buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
       
       // capacity_ is already page-aligned from the lambda above
       if (vmem_allocation_.create(buffer_bytes)) {
-- 
2.43.0


From f3d5e1b31d34f1fbc89238fd973e063aa324dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 05/14] fix: do not use more pool workers than the scheduler
 has queues

---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 91f22ad..6fcc516 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -587,6 +587,8 @@ namespace cler {
                 run_thread_per_block(config);
             } else {
                 // Fewer workers than blocks - use fixed thread pool scheduler
+                // The scheduler has a fixed number of worker queues
+                num_workers = std::min(num_workers, DEFAULT_MAX_WORKERS);
                 // Initialize with contiguous block grouping (keeps producer->consumer chains together)
                 fixed_thread_pool_scheduler.initialize(_N, num_workers);
                 
-- 
2.43.0


From ce6bdd8296606ac743e2812b275fe84ad53a32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 06/14] fix: finalize a block's statistics when it terminates
 the flowgraph

---
 include/cler.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 6fcc516..42d22e7 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -366,7 +366,8 @@ namespace cler {
                 t_start = t_last = std::chrono::high_resolution_clock::now();
             }
 
-            while (!_stop_flag) {
+            bool terminated = false;
+            while (!terminated && !_stop_flag) {
                 bool did_work_in_batch = false;
                 
                 // Micro-batching: run block multiple times per tick
@@ -393,7 +394,8 @@ namespace cler {
                             if (_on_err_terminate_cb) {
                                 _on_err_terminate_cb(_on_err_terminate_context);
                             }
-                            return;
+                            terminated = true;
+                            break;  // Still finalize the stats below
                         }
 
                         if (err == Error::NotEnoughSpaceOrSamples || err == Error::NotEnoughSamples || err == Error::NotEnoughSpace) {
-- 
2.43.0


From f402bf1cd922f13a3b52131e8ffc68db4864ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 07/14] fix: count only consecutive failures towards the
 adaptive sleep threshold

---
 include/cler.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 42d22e7..aad334c 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -402,6 +402,11 @@ namespace cler {
                             if (config.collect_detailed_stats) {
                                 total_dead_time_s += dt.count();
                             }
+                            if (did_work_in_batch) {
+                                // Progress earlier in this batch ends the previous run of failures
+                                handle_adaptive_sleep(I, true);
+                                did_work_in_batch = false;
+                            }
                             handle_adaptive_sleep(I, false);
                             break;  // Exit micro-batch loop
                         } else {
@@ -674,6 +679,7 @@ namespace cler {
             auto& stats = _stats[I];
             
             bool did_work = false;
+            bool progress_handled = false;
             
             // Micro-batching: run block multiple times if it's making progress
             for (size_t c = 0; c < config.max_calls_per_tick && !_stop_flag; ++c) {
@@ -699,6 +705,11 @@ namespace cler {
                     // No progress - leave the burst early to let others run
                     if (err == Error::NotEnoughSamples || err == Error::NotEnoughSpace ||
                         err == Error::NotEnoughSpaceOrSamples) {
+                        if (did_work) {
+                            // Progress earlier in this batch ends the previous run of failures
+                            handle_adaptive_sleep(I, true);
+                            progress_handled = true;
+                        }
                         handle_adaptive_sleep(I, false);
                         break;  // Exit micro-batch loop
                     } else {
@@ -715,7 +726,7 @@ namespace cler {
                 }
             }
             
-            if (did_work) {
+            if (did_work && !progress_handled) {
                 handle_adaptive_sleep(I, true);
             }
             
-- 
2.43.0


From 9dd7fd694506029d0f42ccbb8861a92dc71d5a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:39 +0000
Subject: [PATCH 08/14] fix: keep the first adaptive sleep within the
 configured maximum

---
 include/cler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index aad334c..9b499f0 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -315,8 +315,9 @@ namespace cler {
                     if (current_sleep == 0.0) {
                         // Start sleeping with 1 microsecond
                         static constexpr double INITIAL_SLEEP_US = 1.0;
-                        stats.current_adaptive_sleep_us.store(INITIAL_SLEEP_US);
-                        TaskPolicy::sleep_us(static_cast<size_t>(INITIAL_SLEEP_US));
+                        const double first_sleep = std::min(INITIAL_SLEEP_US, _config.adaptive_sleep_max_us);
+                        stats.current_adaptive_sleep_us.store(first_sleep);
+                        TaskPolicy::sleep_us(static_cast<size_t>(first_sleep));
                     } else {
                         // Exponential backoff with deterministic jitter to prevent thundering herd
                         double base_sleep = current_sleep * _config.adaptive_sleep_multiplier;
-- 
2.43.0


From aed3533f0a35f71998dc436cfe69966997d2e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 09/14] fix: start every run with fresh procedure counters

---
 include/cler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 9b499f0..87183ec 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -456,6 +456,12 @@ namespace cler {
         void init_stats_impl(std::index_sequence<Is...>) {
             static_assert(((Is < _N) && ...), "All block indices must be within bounds");
             ((_stats[Is].name = std::get<Is>(_runners).block->name()), ...);
+            // Counters describe one run: the worker pool adds to them
+            for (auto& stats : _stats) {
+                stats.successful_procedures = 0;
+                stats.failed_procedures = 0;
+                stats.total_dead_time_s = 0.0;
+            }
         }
         
         template<std::size_t... Is>
-- 
2.43.0


From d14d89764dce94fde1ac8c1ef98c21a4b179a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 10/14] fix: UDP source keeps collected datagrams when a
 reception ends a step

An empty, truncated or interrupted reception returned at once and dropped
the datagrams already accepted in the same step, leaking their slab slots.
A fixed-size datagram that the validator refused also left a hole, so that
it was handed on in place of an accepted one.
---
 desktop_blocks/udp/source_udp.hpp | 33 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index ae9cb41..03c65f5 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -40,6 +40,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
 
         T buffer[available];
         size_t count = 0;
+        bool failed = false;
 
         for (size_t i = 0; i < available; ++i) {
             if constexpr (IS_BLOB) {
@@ -50,30 +51,26 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 Blob blob = result.unwrap();
                 ssize_t bytes = _socket.recv(blob.data, blob.len);
 
-                if (bytes == 0) {
+                if (bytes <= 0) {
+                    // Nothing to keep: recycle the slot and stop, but still
+                    // deliver what was collected before
                     blob.release();
-                    return cler::Empty{};
-                }
 
-                if (bytes < 0) {
-                    int err = -bytes;
-                    switch (err) {
+                    switch (static_cast<int>(-bytes)) {
+                        case 0: // empty datagram
                         case EAGAIN:
 #if EAGAIN != EWOULDBLOCK
                         case EWOULDBLOCK:
 #endif
                         case EINTR:
-                            blob.release();
-                            return cler::Empty{};
-
                         case EMSGSIZE:
-                            blob.release();
-                            return cler::Empty{};
+                            break;
 
                         default:
-                            blob.release();
-                            return cler::Error::TERM_IOError;
+                            failed = true;
+                            break;
                     }
+                    break;
                 }
 
                 blob.len = static_cast<size_t>(bytes);
@@ -90,15 +87,15 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 buffer[count++] = blob;
             } else {
                 // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[i]), sizeof(T));
+                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T));
                 if (bytes <= 0) break;
 
-                if (_validate && !_validate(buffer[i], _validate_context)) {
+                if (_validate && !_validate(buffer[count], _validate_context)) {
                     continue;
                 }
 
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(buffer[count], _callback_context);
                 }
 
                 count++;
@@ -109,6 +106,10 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
             out->writeN(buffer, count);
         }
 
+        if (failed) {
+            return cler::Error::TERM_IOError;
+        }
+
         return cler::Empty{};
     }
 
-- 
2.43.0


From 1150db2b8b35a350f1c0214bde2a10096646bd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 11/14] fix: UDP sink recycles the slots of unsent blobs when a
 send fails

---
 desktop_blocks/udp/sink_udp.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/desktop_blocks/udp/sink_udp.hpp b/desktop_blocks/udp/sink_udp.hpp
index 068e424..8fd21c0 100644
--- a/desktop_blocks/udp/sink_udp.hpp
+++ b/desktop_blocks/udp/sink_udp.hpp
@@ -55,6 +55,12 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
             }
 
             if (bytes < 0) {
+                if constexpr (IS_BLOB) {
+                    // The rest will not be sent: recycle their slots
+                    for (size_t j = i + 1; j < available; ++j) {
+                        buffer[j].release();
+                    }
+                }
                 return cler::Error::TERM_IOError;
             }
         }
-- 
2.43.0


From 5dbe8d778cfcae7319d18e8b83cb84232987b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 12/14] fix: UDP source does not give slots back from its own
 thread

The free list of a slab is a single-producer queue and the block that
releases the received blobs runs in another thread; a rejected or empty
datagram made the source a second producer (data race, lost or doubled
slots). The unused slot is kept for the next datagram instead.
---
 desktop_blocks/udp/source_udp.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index 03c65f5..cd578cc 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -45,17 +45,21 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
         for (size_t i = 0; i < available; ++i) {
             if constexpr (IS_BLOB) {
                 // Blob-specific: slab pooling
-                auto result = _slab.take_slot();
-                if (result.is_err()) break;
+                // A slot that ends up unused is kept for the next datagram: the
+                // free list has a single producer, whoever releases our output
+                if (!_has_spare) {
+                    auto result = _slab.take_slot();
+                    if (result.is_err()) break;
+                    _spare = result.unwrap();
+                    _has_spare = true;
+                }
 
-                Blob blob = result.unwrap();
+                Blob blob = _spare;
                 ssize_t bytes = _socket.recv(blob.data, blob.len);
 
                 if (bytes <= 0) {
-                    // Nothing to keep: recycle the slot and stop, but still
-                    // deliver what was collected before
-                    blob.release();
-
+                    // Nothing to keep: stop, but still deliver what was
+                    // collected before
                     switch (static_cast<int>(-bytes)) {
                         case 0: // empty datagram
                         case EAGAIN:
@@ -76,7 +80,6 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 blob.len = static_cast<size_t>(bytes);
 
                 if (_validate && !_validate(blob, _validate_context)) {
-                    blob.release();
                     continue;
                 }
 
@@ -85,6 +88,7 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
                 }
 
                 buffer[count++] = blob;
+                _has_spare = false;
             } else {
                 // Generic fixed-size
                 ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[count]), sizeof(T));
@@ -116,6 +120,8 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
 private:
     UDPBlock::GenericDatagramSocket _socket;
     Slab _slab;  // Only used when IS_BLOB == true
+    Blob _spare {};  // Slot taken but not handed on yet (IS_BLOB)
+    bool _has_spare = false;
     ValidateCallback _validate = nullptr;
     void* _validate_context = nullptr;
     OnReceiveCallback _callback = nullptr;
-- 
2.43.0


From 42999955adb487eb2221a8ef50b047a8a254e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 13/14] fix: Mode S decoder reports no left-over memory in
 fields a message lacks

---
 desktop_blocks/adsb/modes.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index e7d52e3..0c7098f 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -564,14 +564,17 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 {
 	uint32_t crc2; // Computed CRC, used to verify the message CRC.
 
-	// Work on our local copy
-	memcpy(mm->msg, msg, MODE_S_LONG_MSG_BYTES);
-	msg = mm->msg;
+	// Fields that this kind of message does not carry read as zero
+	memset(mm, 0, sizeof(*mm));
 
 	// Get the message type ASAP as other operations depend on this
 	mm->msgtype = msg[0]>>3;    // Downlink Format
 	mm->msgbits = mode_s_msg_len_by_type(mm->msgtype);
 
+	// Work on our local copy (of the bits that belong to the message)
+	memcpy(mm->msg, msg, mm->msgbits/8);
+	msg = mm->msg;
+
 	// CRC is always the last three bytes.
 	mm->crc = (	 (uint32_t)msg[(mm->msgbits/8)-3] << 16) |
 				((uint32_t)msg[(mm->msgbits/8)-2] << 8) |
-- 
2.43.0


From 9359fbcc1e12105fe444ef572714978c8b4c063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 14/14] fix: Mode S detectors do not read past a buffer shorter
 than one message

---
 desktop_blocks/adsb/modes.c      | 3 +++
 desktop_blocks/adsb/modes_2400.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 0c7098f..bef1f03 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -839,6 +839,9 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 	uint32_t j;
 	int use_correction = 0;
 
+	// A buffer shorter than one message holds nothing to detect
+	if (maglen < MODE_S_FULL_LEN*2) return;
+
 	// The Mode S preamble is made of impulses of 0.5 microseconds at the
 	// following time offsets:
 	//
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index bee74fe..9943cdb 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -28,6 +28,9 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
 
     msg = msg1;
 
+    // A buffer shorter than one message holds nothing to detect
+    if (maglen < 300) return;
+
     for (j = 0; j < maglen - 300; j++) {
         uint16_t *preamble = &mag[j];
         int high;
-- 
2.43.0

