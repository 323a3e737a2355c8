From ab9efd7280314d05720c33ad749edf08ce5f5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 01/37] fix: queue count is wrong after the 16-bit counters
 wrap

---
 gel/collections/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/queue.h b/gel/collections/queue.h
index f536c0a..93bc389 100644
--- a/gel/collections/queue.h
+++ b/gel/collections/queue.h
@@ -37,7 +37,7 @@ typedef enum {
     }                                                                                                                  \
                                                                                                                        \
     size_t NAME##_count(struct NAME *p_queue) {                                                                        \
-        return p_queue->write_idx - p_queue->read_idx;                                                                 \
+        return (uint16_t)(p_queue->write_idx - p_queue->read_idx);                                                     \
     }                                                                                                                  \
                                                                                                                        \
     enqueue_result_t NAME##_enqueue(struct NAME *p_queue, ITEM_TYPE *p_new_item) {                                     \
-- 
2.43.0


From 4ebf56e54a39d5796da407259e473ea9c687eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 02/37] fix: stack peek reads the slot above the top

---
 gel/collections/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/stack.h b/gel/collections/stack.h
index 4dfcbb4..16996e9 100644
--- a/gel/collections/stack.h
+++ b/gel/collections/stack.h
@@ -61,7 +61,7 @@ typedef enum {
         }                                                                                                              \
                                                                                                                        \
         if (p_item_out)                                                                                                \
-            *p_item_out = p_stack->items[p_stack->idx];                                                                \
+            *p_item_out = p_stack->items[p_stack->idx - 1];                                                            \
                                                                                                                        \
         return POP_RESULT_SUCCESS;                                                                                     \
     }                                                                                                                  \
-- 
2.43.0


From 2594cee630fd5f32ea3a4182e26471df44a25327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 03/37] fix: size of a full circular buffer counts one element
 too many

The capacity is bufsize - 1. Reading bufsize elements from a full buffer returned one that was never written and left the indices pointing at a buffer of bufsize - 1 stale elements.
---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 172eca2..f4ed860 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -108,7 +108,7 @@ size_t circular_buf_size(circular_buf_t *cbuf) {
     if (!cbuf)
         return 0;
 
-    size_t size = cbuf->bufsize;
+    size_t size = cbuf->bufsize - 1;
 
     int tail = cbuf->tail;
     int head = cbuf->head;
-- 
2.43.0


From 55dd0a19d2fc5145c8485d6505b8e19f37b2ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 04/37] fix: puts of exactly one element too many into a
 wrapped circular buffer empties it

With head < tail and len == tail - head the write moved head onto tail.
---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index f4ed860..46f37ed 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -166,7 +166,7 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
             else
                 chunk = len > cbuf->bufsize - head ? cbuf->bufsize - head : len;
         } else {
-            chunk = len > tail - head ? tail - head - 1 : len;
+            chunk = len > tail - head - 1 ? tail - head - 1 : len;
         }
 
         memcpy(&cbuf->buffer[head], data, chunk * sizeof(GEL_CBUF_TYPE));
-- 
2.43.0


From 3495fbf23e457ef621f1fd4a46ce5e6bd2ba5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 05/37] fix: circular buffer puts never returns if the consumer
 runs meanwhile

The fullness check sees the consumer's progress but the chunk was computed from a stale tail, so it could be 0 forever.
---
 gel/collections/circular_buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/collections/circular_buffer.c b/gel/collections/circular_buffer.c
index 46f37ed..dec7da2 100644
--- a/gel/collections/circular_buffer.c
+++ b/gel/collections/circular_buffer.c
@@ -157,9 +157,9 @@ int circular_buf_puts(circular_buf_t *cbuf, GEL_CBUF_TYPE *data, size_t len) {
         return -1;
 
     head = cbuf->head;
-    tail = cbuf->tail;
     while (!is_circular_buf_full(cbuf) && len > 0) {
         int chunk;
+        tail = cbuf->tail;
         if (head >= tail) {
             if (tail == 0)     // If the tail is at the beginning of the array I have to make sure they won't collide
                 chunk = len > cbuf->bufsize - head - 1 ? cbuf->bufsize - head - 1 : len;
-- 
2.43.0


From e28eef76fbf46f92f5e142040271e90b33b9a796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 06/37] fix: time comparison is wrong when timestamp_t is
 narrower than long

The wrapped difference of two uint32_t timestamps was cast to a 64-bit long and never came out negative, so nothing ever expired before the wrap.
---
 gel/timer/timecheck.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gel/timer/timecheck.h b/gel/timer/timecheck.h
index 0050232..aa66755 100644
--- a/gel/timer/timecheck.h
+++ b/gel/timer/timecheck.h
@@ -24,8 +24,11 @@ typedef GEL_CUSTOM_TIMESTAMP_TYPE timestamp_t;
     })
 #endif
 
-#define time_after(a, b)          (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) < 0))
-#define time_after_or_equal(a, b) (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((long)((b) - (a)) <= 0))
+// The wrapped difference is negative when it lies in the upper half of the timestamp range, whatever the width of long
+#define time_after(a, b)                                                                                               \
+    (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((timestamp_t)((b) - (a)) > (timestamp_t)-1 / 2))
+#define time_after_or_equal(a, b)                                                                                      \
+    (typecheck(timestamp_t, a) && typecheck(timestamp_t, b) && ((timestamp_t)((b) - (a) - 1) >= (timestamp_t)-1 / 2))
 #define time_before(a, b)         time_after(b, a)
 
 #define is_expired(start, current, delay) is_loosely_expired(start, current, delay)
-- 
2.43.0


From 373d12f3c2dff450dc02bef040af57b4b68710d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 07/37] fix: scheduler with dynamic entries does not compile

---
 gel/scheduler/scheduler.c | 3 ++-
 gel/scheduler/scheduler.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index d202768..56c8f0b 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -30,7 +30,8 @@ void scheduler_init(scheduler_t *scheduler
 ) {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
     scheduler->entries = (scheduler_entry_t *)malloc(sizeof(scheduler_entry_t) * entries);
-    assert(scheduler->entries != NULL) scheduler->num_entries = entries;
+    assert(scheduler->entries != NULL);
+    scheduler->num_entries = entries;
 #endif
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
diff --git a/gel/scheduler/scheduler.h b/gel/scheduler/scheduler.h
index 6757196..a1411e6 100644
--- a/gel/scheduler/scheduler.h
+++ b/gel/scheduler/scheduler.h
@@ -36,8 +36,8 @@ typedef struct {
 
 typedef struct {
 #ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
-    size_t            num_entries;
-    schedule_entry_t *entries;
+    size_t             num_entries;
+    scheduler_entry_t *entries;
 #else
     scheduler_entry_t entries[GEL_SCHEDULER_MAX_ENTRIES];
 #endif
-- 
2.43.0


From d200ec6f47872a8376ce02571f3ba704ff1e5eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 08/37] fix: scheduler reports a nonexistent entry as enabled

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 56c8f0b..9ef7149 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -70,7 +70,7 @@ int scheduler_set_entry(scheduler_t *scheduler, size_t entry_index, scheduler_en
 
 uint8_t scheduler_is_schedule_entry_enabled(scheduler_t *scheduler, size_t entry_index) {
     if (entry_index >= NUM_ENTRIES(scheduler)) {
-        return -1;
+        return 0;
     }
 
     return scheduler->entries[entry_index].enabled;
-- 
2.43.0


From 8ab1e7ac2690f5074a87394062d257b226e9bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 09/37] fix: scheduler compares entry values truncated to 8
 bits

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 9ef7149..29d8cee 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -114,7 +114,7 @@ int scheduler_is_active(scheduler_t *scheduler, struct tm *tm_info) {
 int scheduler_get_active_entry_number(scheduler_t *scheduler, struct tm *tm_info) {
     uint8_t       found      = 0;
     unsigned long foundtotal = 0;
-    uint8_t       foundvalue = 0;
+    int           foundvalue = 0;
     int           foundid    = -1;
 
     for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-- 
2.43.0


From 9e94c6bc63bd2d8223beeb25ffc6ff308cef998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 10/37] fix: scheduler reports disabled entries as active

---
 gel/scheduler/scheduler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 29d8cee..1459c12 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -88,7 +88,7 @@ int scheduler_disable_schedule_entry(scheduler_t *scheduler, size_t entry_index)
 
 
 static uint8_t is_entry_active(const scheduler_entry_t *entry, struct tm *tm_info) {
-    if (!is_day_included(entry->days, tm_info->tm_wday)) {
+    if (!entry->enabled || !is_day_included(entry->days, tm_info->tm_wday)) {
         return 0;
     }
 
-- 
2.43.0


From d44b1195f486220905aff25fc21b52e08cb6c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 11/37] fix: scheduler remaining duration is a day too long
 after midnight

---
 gel/scheduler/scheduler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 1459c12..8a63f79 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -225,6 +225,11 @@ unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *scheduler,
     unsigned long current = to_seconds(tm_info->tm_hour, tm_info->tm_min, tm_info->tm_sec);
     unsigned long end     = entry->end_second;
 
+    // After midnight in an entry that started the day before
+    if (current < entry->start_second) {
+        end -= seconds_in_day;
+    }
+
     return end - current;
 }
 
-- 
2.43.0


From 4045e6ccc72eabbaee0681aeb2c8e967c12472b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 12/37] fix: resetting a debounce filter keeps half-finished
 changes

---
 gel/debounce/debounce.c | 103 +++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 49 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index f7caea5..4ae2141 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,50 +1,55 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    filter->old_input = set;
-    filter->buffered  = set;
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 48814070a19ef05f972483130abe379902cba375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 13/37] fix: debounce of a single input writes past the filter
 if the input does not exist

---
 gel/debounce/debounce.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index 4ae2141..cc7bc56 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -36,6 +36,9 @@ unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int
 unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
     unsigned int change = 0;
 
+    if (i >= NUM_INPUTS)
+        return 0;
+
     if (BOOL(input) == NTH(filter->old_input, i)) {
         filter->debounce_count[i] = 0;
     } else {
-- 
2.43.0


From 2a3ff98bee483204ff75a15afc8d5dc1cdd0b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 14/37] fix: pulse counter starts with uninitialised debounce
 counts

---
 gel/debounce/pulsecounter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/debounce/pulsecounter.c b/gel/debounce/pulsecounter.c
index b530b8e..0cd63a4 100644
--- a/gel/debounce/pulsecounter.c
+++ b/gel/debounce/pulsecounter.c
@@ -8,8 +8,10 @@ void pulse_filter_init(pulse_filter_t *filter, pulse_type_t type, unsigned int i
 
     filter->old_input = init;
     filter->type      = type;
-    for (i = 0; i < PULSE_NUM; i++)
+    for (i = 0; i < PULSE_NUM; i++) {
+        filter->filters[i] = 0;
         pulse_clear(filter, i);
+    }
 }
 
 int pulse_filter(pulse_filter_t *filter, unsigned int input, int debounce) {
-- 
2.43.0


From 98ed9cd2bb102b35274f62a1521934e2aa339b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 15/37] fix: page manager header is disabled, so the module
 does not compile

---
 gel/pagemanager/page_manager.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gel/pagemanager/page_manager.h b/gel/pagemanager/page_manager.h
index c618a41..a4716d5 100644
--- a/gel/pagemanager/page_manager.h
+++ b/gel/pagemanager/page_manager.h
@@ -17,8 +17,6 @@
 #error "Configuration not defined"
 #endif
 
-#if 0
-
 typedef struct {
     int              id;
     pman_page_data_t data;
@@ -144,6 +142,5 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found);
 
 pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model, pman_event_t event);
-#endif
 
 #endif
-- 
2.43.0


From a9ef82f7dcc973807bc853f3fbf1ba24c3a3bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 16/37] fix: page manager loses the current page when asserts
 are disabled

---
 gel/pagemanager/page_manager.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index 627fc57..cc9e660 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -170,7 +170,9 @@ pman_view_t pman_change_page_extra(page_manager_t *pman, pman_model_t model, pma
         if (current->close)
             current->close(current->data);
 
-        assert(navigation_stack_push(&pman->page_stack, current) != PUSH_RESULT_FULL);
+        push_result_t result = navigation_stack_push(&pman->page_stack, current);
+        assert(result != PUSH_RESULT_FULL);
+        (void)result;
     } else {
         pman->initialized = 1;
     }
-- 
2.43.0


From 59936fb4946cf6efc3a0d44524011ffc14abe984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:03 +0000
Subject: [PATCH 17/37] fix: page manager closes and destroys a page it does
 not have

---
 gel/pagemanager/page_manager.c | 38 ++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/gel/pagemanager/page_manager.c b/gel/pagemanager/page_manager.c
index cc9e660..d9845f9 100644
--- a/gel/pagemanager/page_manager.c
+++ b/gel/pagemanager/page_manager.c
@@ -37,13 +37,16 @@ pman_message_t pman_process_page_event(page_manager_t *pman, pman_model_t model,
 pman_view_t pman_swap_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
@@ -76,11 +79,13 @@ pman_view_t pman_swap_page(page_manager_t *pman, pman_model_t model, pman_page_t
 pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id, uint8_t *found) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
     // Deinitialize the stack, we currently have no page
     pman->initialized = 0;
@@ -119,15 +124,18 @@ pman_view_t pman_reset_to_page(page_manager_t *pman, pman_model_t model, int id,
 pman_view_t pman_rebase_page_extra(page_manager_t *pman, pman_model_t model, pman_page_t newpage, void *extra) {
     pman_page_t *current = &pman->current_page;
 
-    if (current->close) {
-        current->close(current->data);
-    }
-    if (current->destroy) {
-        current->destroy(current->data, current->extra);
+    if (pman->initialized) {
+        if (current->close) {
+            current->close(current->data);
+        }
+        if (current->destroy) {
+            current->destroy(current->data, current->extra);
+        }
     }
 
     clear_page_stack(pman);
 
+    pman->initialized        = 1;
     pman->current_page       = newpage;
     pman->current_page.extra = extra;
     // Create the newpage
-- 
2.43.0


From 87c45eac5f0240ed0409813e3381883d555db7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 18/37] fix: negative 8-bit parameters are read as positive
 numbers

---
 gel/parameter/parameter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 198da31..9eeac97 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -147,7 +147,7 @@ long parameter_to_long(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (long)*(uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (long)*(uint8_t *)handle->pointer;
+                return (long)*(int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (long)*(uint16_t *)handle->pointer;
@@ -190,7 +190,7 @@ size_t parameter_to_index(parameter_handle_t *handle) {
             case PARAMETER_TYPE_UINT8:
                 return (size_t) * (uint8_t *)handle->pointer;
             case PARAMETER_TYPE_INT8:
-                return (size_t) * (uint8_t *)handle->pointer;
+                return (size_t) * (int8_t *)handle->pointer;
 #if GEL_PARAMETER_MAX_SIZE >= 2
             case PARAMETER_TYPE_UINT16:
                 return (size_t) * (uint16_t *)handle->pointer;
-- 
2.43.0


From 1854fc26548c168a1583196a78f7accd683a2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 19/37] fix: parameters with free access are not counted

---
 gel/parameter/parameter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index 9eeac97..a680521 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -287,7 +287,8 @@ size_t parameter_get_count(parameter_handle_t *ps, size_t length, unsigned int a
         if (ps[i].runtime)
             ps[i].runtime(&ps[i], ps[i].arg);
 
-        if ((ps[i].access_level & al) > 0)
+        // A null access level means free access
+        if (ps[i].access_level == 0 || ((ps[i].access_level & al) > 0))
             count++;
     }
 
-- 
2.43.0


From c5b01ea0b0c37d7b13327b15dfe6f794a36952d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:43 +0000
Subject: [PATCH 20/37] fix: a parameter that is not a number passes the range
 checks

---
 gel/parameter/parameter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gel/parameter/parameter.c b/gel/parameter/parameter.c
index a680521..c5a7d3f 100755
--- a/gel/parameter/parameter.c
+++ b/gel/parameter/parameter.c
@@ -19,9 +19,9 @@
         TYPE min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                    \
         TYPE max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                    \
         int  res = 0;                                                                                                  \
-        if (newv > max)                                                                                                \
+        if (!(newv <= max))                                                                                            \
             res = 1;                                                                                                   \
-        else if (newv < min)                                                                                           \
+        else if (!(newv >= min))                                                                                       \
             res = -1;                                                                                                  \
         res;                                                                                                           \
     })
@@ -33,9 +33,9 @@
         TYPE  min = p.pmin != NULL ? *((TYPE *)p.pmin) : p.min.name;                                                   \
         TYPE  max = p.pmax != NULL ? *((TYPE *)p.pmax) : p.max.name;                                                   \
         int   res = 0;                                                                                                 \
-        if (*var > max)                                                                                                \
+        if (!(*var <= max))                                                                                            \
             res = 1;                                                                                                   \
-        else if (*var < min)                                                                                           \
+        else if (!(*var >= min))                                                                                       \
             res = -1;                                                                                                  \
         res;                                                                                                           \
     })
-- 
2.43.0


From 32bb6fed289a4bd10485d923cb3a53f23787f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 21/37] fix: limits and defaults of 64-bit parameters are
 truncated to 32 bits

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 1bde379..965981b 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -97,7 +97,7 @@
 #define _PARAMETER_FIELD_UINT64 u64
 #define _PARAMETER_FIELD_INT64  i64
 #define _PARAMETER_FIELD_DOUBLE d
-#define CAST64(x)               ((uint32_t)(x)&0xFFFFFFFFFFFFFFFF)
+#define CAST64(x)               ((uint64_t)(x)&0xFFFFFFFFFFFFFFFF)
 #define CASTDOUBLE(x)           ((double)(x))
 #else
 #define _PARAMETER_FIELD_UINT64 u8
-- 
2.43.0


From 98c73278130b1e3a9962012cf7b142f3d7bddd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 22/37] fix: an input with no error leaves a stale value in the
 PID integral window

---
 gel/pid/pid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gel/pid/pid.c b/gel/pid/pid.c
index 4e0b502..65ececd 100644
--- a/gel/pid/pid.c
+++ b/gel/pid/pid.c
@@ -50,6 +50,8 @@ void pid_add_input(pid_ctrl_t *pid, pid_control_type_t value) {
             pid->history[pid->index] = error;
         else
             pid->history[pid->index] = 0;
+    } else {
+        pid->history[pid->index] = 0;
     }
 
     pid->index = (pid->index + 1) % GEL_PID_INTEGRAL_HISTORY_SIZE;
-- 
2.43.0


From 521c07d92d6d1ffea12f019e2db2d465e6748376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 23/37] fix: GEL_TIMER_NULL does not compile, remaining time of
 a timer is not declared

---
 gel/timer/timer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gel/timer/timer.h b/gel/timer/timer.h
index bfd07fd..28b45ed 100644
--- a/gel/timer/timer.h
+++ b/gel/timer/timer.h
@@ -7,7 +7,7 @@
 
 
 #define GEL_TIMER_NULL                                                                                                 \
-    ((gel_timer_t){.active = 0, .autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
+    ((gel_timer_t){.autoreload = 0, .stopwatch = STOPWATCH_NULL, .callback = NULL, .arg = NULL})
 
 
 
@@ -33,5 +33,6 @@ void         gel_timer_pause(gel_timer_t *timer, unsigned long timestamp);
 void         gel_timer_resume(gel_timer_t *timer, unsigned long timestamp);
 void         gel_timer_reset(gel_timer_t *timer, unsigned long timestamp);
 void         gel_timer_change_period(gel_timer_t *timer, unsigned long period, unsigned long timestamp);
+unsigned long gel_timer_get_remaining(gel_timer_t *timer, unsigned long timestamp);
 
 #endif
-- 
2.43.0


From 2d253cc5581f5a137052537b097144eab7f734c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 24/37] fix: failed wear leveling write still moves on to the
 next block

---
 gel/wearleveling/wearleveling.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 6e0cf1f..c8597b3 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -54,10 +54,16 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
     }
 
     if (memcmp(intermediate_buffer, buffer, len)) {
-        wlm->last_marker       = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
-        wlm->last_active_block = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
+        uint8_t marker = NEXT_BLOCK(wlm->last_marker, MAX_BLOCKS_IN_PAGE);
+        size_t  block  = NEXT_BLOCK(wlm->last_active_block, wlm->blocks_in_page);
 
-        return wlm->write_block(wlm->last_active_block, wlm->last_marker, buffer, len);
+        if ((res = wlm->write_block(block, marker, buffer, len))) {
+            return res;
+        }
+
+        // Only move on to the new block once it holds the data
+        wlm->last_marker       = marker;
+        wlm->last_active_block = block;
     }
     return 0;
 }
-- 
2.43.0


From 05e394f91b2b429406ec9f3dbf838c8f720848e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 25/37] fix: wear leveling loses the last block of the page
 after a restart

---
 gel/wearleveling/wearleveling.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index c8597b3..1f9ad83 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -122,11 +122,6 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    if (i >= wlm->blocks_in_page) {
-        // Something very wrong happened, reset to 0
-        return 0;
-    }
-
     // Return the index of the last active marker
     return i - 1;
 }
\ No newline at end of file
-- 
2.43.0


From b5dd914428185ea3ba4724c70cf876ca2210f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:09 +0000
Subject: [PATCH 26/37] fix: wear leveling takes the error of a marker read for
 a block number

---
 gel/wearleveling/wearleveling.c | 23 ++++++++++++++++-------
 gel/wearleveling/wearleveling.h |  4 ++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/gel/wearleveling/wearleveling.c b/gel/wearleveling/wearleveling.c
index 1f9ad83..ada0e27 100755
--- a/gel/wearleveling/wearleveling.c
+++ b/gel/wearleveling/wearleveling.c
@@ -21,7 +21,7 @@
 #define NEXT_BLOCK(x, mod) ((x + 1) % mod)
 
 
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker);
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_block, uint8_t *last_marker);
 
 
 /**
@@ -77,16 +77,22 @@ int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len)
  * @param write_block Function to write a specific block of memory (and marker)
  * @param read_marker Function to read the marker of a block
  * @param blocks_in_page Number of blocks in page
+ * @return int 0 if everything was ok, the error reading the markers otherwise (starting from block 0)
  */
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page) {
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page) {
     assert(blocks_in_page < MAX_BLOCKS_IN_PAGE);
     wlm->read_block     = read_block;
     wlm->write_block    = write_block;
     wlm->read_marker    = read_marker;
     wlm->blocks_in_page = blocks_in_page;
 
-    wlm->last_active_block = search_last(wlm, &wlm->last_marker);
+    int err = search_last(wlm, &wlm->last_active_block, &wlm->last_marker);
+    if (err) {
+        wlm->last_active_block = 0;
+        wlm->last_marker       = 0;
+    }
+    return err;
 }
 
 
@@ -94,9 +100,11 @@ void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, w
  * @brief Search for the last used block
  *
  * @param wlm Wear leveled memory data structure
+ * @param last_block Where to store the index of the last used block
+ * @param last_marker Where to store its marker
  * @return int 0 if everything was ok, something else otherwise
  */
-static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
+static int search_last(wear_leveled_memory_t *wlm, size_t *last_block, uint8_t *last_marker) {
     uint8_t marker;
     int     err;
 
@@ -122,6 +130,7 @@ static int search_last(wear_leveled_memory_t *wlm, uint8_t *last_marker) {
         }
     }
 
-    // Return the index of the last active marker
-    return i - 1;
+    // The last active block is the one before
+    *last_block = i - 1;
+    return 0;
 }
\ No newline at end of file
diff --git a/gel/wearleveling/wearleveling.h b/gel/wearleveling/wearleveling.h
index ac2a353..796c3db 100755
--- a/gel/wearleveling/wearleveling.h
+++ b/gel/wearleveling/wearleveling.h
@@ -29,8 +29,8 @@ int wearleveling_read(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
 int wearleveling_write(wear_leveled_memory_t *wlm, uint8_t *buffer, size_t len);
 
-void wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
-                       wl_read_marker_t read_marker, size_t blocks_in_page);
+int wearleveling_init(wear_leveled_memory_t *wlm, wl_read_block_t read_block, wl_write_block_t write_block,
+                      wl_read_marker_t read_marker, size_t blocks_in_page);
 
 
 #endif
-- 
2.43.0


From 146e3ccc3171a77f1fa287234e909b7afcb1fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 27/37] fix: event log loads past the end when number and jump
 overflow

---
 gel/circular_event_log/circular_event_log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index ccffdbf..e6e5e0b 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -35,7 +35,7 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         return 0;
     }
     size_t actual_number = number;
-    if (jump + actual_number > total_events) {
+    if (actual_number > total_events - jump) {
         actual_number = total_events - jump;
     }
 
-- 
2.43.0


From e8bce50e39ad897895fbd0db89074f4514c86716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 28/37] fix: event log hides an error loading the second part

---
 gel/circular_event_log/circular_event_log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gel/circular_event_log/circular_event_log.c b/gel/circular_event_log/circular_event_log.c
index e6e5e0b..c0dc03a 100644
--- a/gel/circular_event_log/circular_event_log.c
+++ b/gel/circular_event_log/circular_event_log.c
@@ -49,7 +49,11 @@ int circular_event_log_load_last_events(circular_event_log_t logger, uint8_t *ev
         }
 
         size_t second_round = actual_number - to_read;
-        return res + logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        int    second_res   = logger.load_events(&events[to_read * logger.event_size], second_round, 0);
+        if (second_res < 0) {
+            return second_res;
+        }
+        return res + second_res;
     } else {
         return logger.load_events(&events[0], actual_number, start);
     }
-- 
2.43.0


From 993ca8c7110b38964d78ac91425af3ca2f6e4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 29/37] fix: restore the line endings of debounce.c

---
 gel/debounce/debounce.c | 114 ++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/gel/debounce/debounce.c b/gel/debounce/debounce.c
index cc7bc56..c48e123 100755
--- a/gel/debounce/debounce.c
+++ b/gel/debounce/debounce.c
@@ -1,58 +1,58 @@
-#include "debounce.h"
-
-#define BOOL(x)            ((x) > 0)
-#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
-
-void debounce_filter_init(debounce_filter_t *filter) {
-    int i;
-
-    filter->buffered = 0;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-    filter->old_input = 0;
-}
-
-void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
-    int i;
-
-    filter->old_input = set;
-    filter->buffered  = set;
-    for (i = 0; i < NUM_INPUTS; i++) {
-        filter->debounce_count[i] = 0;
-    }
-}
-
-unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
-    unsigned int change = 0;
-    size_t i            = 0;
-
-    for (i = 0; i < NUM_INPUTS; i++)
-        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
-
-    return change;
-}
-
-unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
-    unsigned int change = 0;
-
-    if (i >= NUM_INPUTS)
-        return 0;
-
-    if (BOOL(input) == NTH(filter->old_input, i)) {
-        filter->debounce_count[i] = 0;
-    } else {
-        if (filter->debounce_count[i] > 0)
-            filter->debounce_count[i]--;
-        else
-            filter->debounce_count[i] = debounce;
-
-        if (filter->debounce_count[i] == 0) {
-            filter->buffered  = SET_NTH(filter->buffered, i, input);
-            filter->old_input = SET_NTH(filter->old_input, i, input);
-            change            = SET_NTH(change, i, 1);
-        }
-    }
-
-    return change;
+#include "debounce.h"
+
+#define BOOL(x)            ((x) > 0)
+#define SET_NTH(x, i, val) ((x & (~((unsigned int)(1 << i)))) | BOOL(val) << i)
+
+void debounce_filter_init(debounce_filter_t *filter) {
+    int i;
+
+    filter->buffered = 0;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+    filter->old_input = 0;
+}
+
+void debounce_filter_set(debounce_filter_t *filter, unsigned int set) {
+    int i;
+
+    filter->old_input = set;
+    filter->buffered  = set;
+    for (i = 0; i < NUM_INPUTS; i++) {
+        filter->debounce_count[i] = 0;
+    }
+}
+
+unsigned int debounce_filter(debounce_filter_t *filter, unsigned int input, int debounce) {
+    unsigned int change = 0;
+    size_t i            = 0;
+
+    for (i = 0; i < NUM_INPUTS; i++)
+        change |= debounce_filter_single(filter, NTH(input, i), i, debounce);
+
+    return change;
+}
+
+unsigned int debounce_filter_single(debounce_filter_t *filter, unsigned int input, size_t i, int debounce) {
+    unsigned int change = 0;
+
+    if (i >= NUM_INPUTS)
+        return 0;
+
+    if (BOOL(input) == NTH(filter->old_input, i)) {
+        filter->debounce_count[i] = 0;
+    } else {
+        if (filter->debounce_count[i] > 0)
+            filter->debounce_count[i]--;
+        else
+            filter->debounce_count[i] = debounce;
+
+        if (filter->debounce_count[i] == 0) {
+            filter->buffered  = SET_NTH(filter->buffered, i, input);
+            filter->old_input = SET_NTH(filter->old_input, i, input);
+            change            = SET_NTH(change, i, 1);
+        }
+    }
+
+    return change;
 }
\ No newline at end of file
-- 
2.43.0


From 875ae925f9e7f577a490f2da728a75f7d7079c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 30/37] fix: STRUCT_UPDATE_ARRAY copies the wrong size when the
 length is an expression

---
 gel/data_structures/struct_update.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 1e9bb18..de0318e 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -35,7 +35,7 @@
  * length: number of elements to be used for the modification (follows pointer aritmetic)
  */
 #define STRUCT_UPDATE_ARRAY(object, field, array, length)                                                              \
-    struct_update_from_data(offsetof(typeof(object), field), array, sizeof(array[0]) * length);
+    struct_update_from_data(offsetof(typeof(object), field), array, sizeof((array)[0]) * (length));
 
 
 typedef struct {
-- 
2.43.0


From c89d929788ffdf244e1c4cb99e94fc8d3c2a0bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 31/37] fix: packing macros misread arguments named tmp or size

---
 gel/serializer/serializer.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/gel/serializer/serializer.h b/gel/serializer/serializer.h
index 6738128..1366578 100644
--- a/gel/serializer/serializer.h
+++ b/gel/serializer/serializer.h
@@ -16,41 +16,41 @@
 
 #define UNPACK_UINT16_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint16_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint16_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint16_t _gel_tmp;                                                                                             \
+        size_t   _gel_size = deserialize_uint16_be(&_gel_tmp, (buffer));                                               \
+        (var)         = _gel_tmp;                                                                                      \
+        _gel_size;                                                                                                     \
     })
 
 #define UNPACK_UINT32_BE(var, buffer)                                                                                  \
     ({                                                                                                                 \
-        uint32_t tmp;                                                                                                  \
-        size_t   size = deserialize_uint32_be(&tmp, (buffer));                                                         \
-        (var)         = tmp;                                                                                           \
-        size;                                                                                                          \
+        uint32_t _gel_tmp;                                                                                             \
+        size_t   _gel_size = deserialize_uint32_be(&_gel_tmp, (buffer));                                               \
+        (var)         = _gel_tmp;                                                                                      \
+        _gel_size;                                                                                                     \
     })
 
 #define UNPACK_UINT8(var, buffer)                                                                                      \
     ({                                                                                                                 \
-        uint8_t tmp;                                                                                                   \
-        size_t  size = deserialize_uint8(&tmp, (buffer));                                                              \
-        (var)        = tmp;                                                                                            \
-        size;                                                                                                          \
+        uint8_t _gel_tmp;                                                                                              \
+        size_t  _gel_size = deserialize_uint8(&_gel_tmp, (buffer));                                                    \
+        (var)        = _gel_tmp;                                                                                       \
+        _gel_size;                                                                                                     \
     })
 
 
 #define PACK_UINT16_BE(buffer, var)                                                                                    \
     ({                                                                                                                 \
-        uint16_t tmp  = (uint16_t)(var);                                                                               \
-        size_t   size = serialize_uint16_be((buffer), tmp);                                                            \
-        size;                                                                                                          \
+        uint16_t _gel_tmp  = (uint16_t)(var);                                                                          \
+        size_t   _gel_size = serialize_uint16_be((buffer), _gel_tmp);                                                  \
+        _gel_size;                                                                                                     \
     })
 
 #define PACK_UINT8(buffer, var)                                                                                        \
     ({                                                                                                                 \
-        uint8_t tmp  = (uint8_t)(var);                                                                                 \
-        size_t  size = serialize_uint8((buffer), tmp);                                                                 \
-        size;                                                                                                          \
+        uint8_t _gel_tmp  = (uint8_t)(var);                                                                            \
+        size_t  _gel_size = serialize_uint8((buffer), _gel_tmp);                                                       \
+        _gel_size;                                                                                                     \
     })
 
 
-- 
2.43.0


From 80d18ee6d45fc7e5ee1484a7b32855a021011e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 32/37] fix: STRUCT_UPDATE misreads a value named _value

---
 gel/data_structures/struct_update.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index de0318e..08ae01d 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -21,8 +21,8 @@
  */
 #define STRUCT_UPDATE(object, field, value)                                                                            \
     ({                                                                                                                 \
-        typeof(object.field) _value = value;                                                                           \
-        struct_update_from_data(offsetof(typeof(object), field), &_value, sizeof(object.field));                       \
+        typeof(object.field) _gel_update_value = value;                                                                \
+        struct_update_from_data(offsetof(typeof(object), field), &_gel_update_value, sizeof(object.field));            \
     })
 
 
-- 
2.43.0


From f4245246e2a25d10fb9a547f1e672f7d54ed8a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 33/37] fix: PARAMETER_FULL takes the type tag of a pointer
 expression from the wrong operand

---
 gel/parameter/parameter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gel/parameter/parameter.h b/gel/parameter/parameter.h
index 965981b..993bd71 100755
--- a/gel/parameter/parameter.h
+++ b/gel/parameter/parameter.h
@@ -136,7 +136,7 @@
                           type##_CAST(step), (lvl), (udata), (runtime), (arg)})
 
 #define PARAMETER_FULL(ptr, pmin, pmax, min, max, def, step, lvl, udata, runtime, arg)                                 \
-    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*ptr), (ptr), (pmin), (pmax),                                          \
+    ((parameter_handle_t){_PARAMETER_VALUE_TYPE(*(ptr)), (ptr), (pmin), (pmax),                                        \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (min)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (max)),  \
                           _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (def)), _PARAMETER_LIMIT_VALUE_OPTION(*(ptr), (step)), \
                           (lvl), (udata), (runtime), (arg)})
-- 
2.43.0


From 3d313e9ee3075dfab7708d6e9b9e80aa2e60e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 34/37] fix: stopwatch_setngo is two statements and evaluates
 the timer twice

---
 gel/timer/stopwatch.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gel/timer/stopwatch.h b/gel/timer/stopwatch.h
index 295a209..2ada418 100644
--- a/gel/timer/stopwatch.h
+++ b/gel/timer/stopwatch.h
@@ -20,7 +20,12 @@
 
 #define STOPWATCH_NULL  {.starting_time = 0, .elapsed_time = 0, .total_time = 0, .state = TIMER_STOPPED}
 
-#define stopwatch_setngo(timer, duration, timestamp) stopwatch_set(timer, duration); stopwatch_start(timer, timestamp)
+#define stopwatch_setngo(timer, duration, timestamp)                                                                   \
+    do {                                                                                                               \
+        stopwatch_t *_gel_timer = (timer);                                                                             \
+        stopwatch_set(_gel_timer, (duration));                                                                         \
+        stopwatch_start(_gel_timer, (timestamp));                                                                      \
+    } while (0)
 
 // Three possible states of a timer
 typedef enum {
-- 
2.43.0


From f4af183394c29bc35bef850b08eb94192a458558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 35/37] fix: STRUCT_UPDATE macros misread an object expression
 and end in a semicolon

---
 gel/data_structures/struct_update.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gel/data_structures/struct_update.h b/gel/data_structures/struct_update.h
index 08ae01d..9462051 100644
--- a/gel/data_structures/struct_update.h
+++ b/gel/data_structures/struct_update.h
@@ -21,8 +21,8 @@
  */
 #define STRUCT_UPDATE(object, field, value)                                                                            \
     ({                                                                                                                 \
-        typeof(object.field) _gel_update_value = value;                                                                \
-        struct_update_from_data(offsetof(typeof(object), field), &_gel_update_value, sizeof(object.field));            \
+        typeof((object).field) _gel_update_value = value;                                                              \
+        struct_update_from_data(offsetof(typeof(object), field), &_gel_update_value, sizeof((object).field));          \
     })
 
 
@@ -35,7 +35,7 @@
  * length: number of elements to be used for the modification (follows pointer aritmetic)
  */
 #define STRUCT_UPDATE_ARRAY(object, field, array, length)                                                              \
-    struct_update_from_data(offsetof(typeof(object), field), array, sizeof((array)[0]) * (length));
+    struct_update_from_data(offsetof(typeof(object), field), array, sizeof((array)[0]) * (length))
 
 
 typedef struct {
-- 
2.43.0


From ba2f3e6eb4dc5a8410e38afd7858b71cc47fbfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:18 +0000
Subject: [PATCH 36/37] fix: listx.h does not include what its macros use

---
 gel/collections/listx.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gel/collections/listx.h b/gel/collections/listx.h
index a959f92..89e85f4 100644
--- a/gel/collections/listx.h
+++ b/gel/collections/listx.h
@@ -3,6 +3,8 @@ CPLv2 */
 #ifndef _LISTX_H
 #define _LISTX_H
 
+#include <stddef.h>
+
 #ifndef NULL
 #define NULL ((void *) 0)
 #endif
-- 
2.43.0


From 7a7ebc7b791a6ef63a229c88af53c4965eb0319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 37/37] fix: scheduler active entries map is wrong for tables
 longer than its 16 bits

---
 gel/scheduler/scheduler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gel/scheduler/scheduler.c b/gel/scheduler/scheduler.c
index 8a63f79..146a32f 100644
--- a/gel/scheduler/scheduler.c
+++ b/gel/scheduler/scheduler.c
@@ -203,8 +203,8 @@ int scheduler_get_first_available_entry(scheduler_t *scheduler) {
 uint16_t scheduler_get_active_entries_map(scheduler_t *scheduler, struct tm *tm_info) {
     uint16_t result = 0;
 
-    for (size_t i = 0; i < NUM_ENTRIES(scheduler); i++) {
-        result |= (is_entry_active(&scheduler->entries[i], tm_info) ? 1 : 0) << i;
+    for (size_t i = 0; i < NUM_ENTRIES(scheduler) && i < sizeof(result) * 8; i++) {
+        result |= (is_entry_active(&scheduler->entries[i], tm_info) ? 1U : 0U) << i;
     }
 
     return result;
-- 
2.43.0

