From ce9d83a12f59908802d6badb3b922bd8e32f024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:14 +0000
Subject: [PATCH 01/85] fix: release the previous template token when a new one
 is needed

_lf_get_token is documented to make the new token the template and to
dissociate the previous one, but it left the previous token with the
template's reference, so a message that was still in use when its port was
written again (queued in an action, or forwarded) was never freed.
---
 core/lf_token.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index b97a3b3..994152e 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -247,10 +247,11 @@ lf_token_t* _lf_get_token(token_template_t* tmplt) {
     return tmplt->token;
   }
   LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
-  // If we get here, we need a new token.
-  lf_token_t* result = _lf_new_token((token_type_t*)tmplt, NULL, 0);
-  result->ref_count = 1;
-  return result;
+  // If we get here, we need a new token. Dissociate the template from its previous token, if any.
+  _lf_done_using(tmplt->token);
+  tmplt->token = _lf_new_token((token_type_t*)tmplt, NULL, 0);
+  tmplt->token->ref_count = 1;
+  return tmplt->token;
 }
 
 void _lf_initialize_template(token_template_t* tmplt, size_t element_size) {
-- 
2.43.0


From 2e7568f63686e7f6f27108bdb5c055ff741d964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 02/85] fix: schedule values with a token of their own

lf_schedule_copy and lf_schedule_value took the token from the action's
template. That token carries the template's reference, which was never
released when the token was new, so values were leaked when an action was
scheduled while its previous value was in use. A thread scheduling a physical
action could also reuse the template token while a reaction was replacing it.
---
 lib/schedule.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index 1683523..6a1b980 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -14,6 +14,25 @@
 #include <assert.h>
 #include <string.h> // Defines memcpy.
 
+#if !defined NDEBUG
+extern int _lf_count_payload_allocations; // Defined in lf_token.c.
+#endif
+
+/**
+ * @brief Create a token with a reference count of 0 for a dynamically allocated value to be scheduled.
+ *
+ * The template token of the action is not used for this because a reaction that is executing in another
+ * thread may be replacing it, without holding the mutex of the environment.
+ */
+static lf_token_t* new_token_with_value(token_template_t* tmplt, void* value, size_t length) {
+#if !defined NDEBUG
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+  _lf_count_payload_allocations++;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+#endif
+  return _lf_new_token((token_type_t*)tmplt, value, length);
+}
+
 trigger_handle_t lf_schedule(void* action, interval_t offset) {
   return lf_schedule_token((lf_action_base_t*)action, offset, NULL);
 }
@@ -55,8 +74,8 @@ trigger_handle_t lf_schedule_copy(void* action, interval_t offset, void* value,
     return -1;
   }
   LF_CRITICAL_SECTION_ENTER(env);
-  // Initialize token with an array size of length and a reference count of 0.
-  lf_token_t* token = _lf_initialize_token(template, length);
+  // Create a token with an array size of length and a reference count of 0.
+  lf_token_t* token = new_token_with_value(template, calloc(length, template->type.element_size), length);
   // Copy the value into the newly allocated memory.
   memcpy(token->value, value, template->type.element_size * length);
   // The schedule function will increment the reference count.
@@ -77,7 +96,7 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
   token_template_t* template = (token_template_t*)action;
   environment_t* env = ((lf_action_base_t*)action)->parent->environment;
   LF_CRITICAL_SECTION_ENTER(env);
-  lf_token_t* token = _lf_initialize_token_with_value(template, value, length);
+  lf_token_t* token = new_token_with_value(template, value, length);
   int return_value = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, extra_delay, token);
   // Notify the main thread in case it is waiting for physical time to elapse.
   lf_notify_of_event(env);
-- 
2.43.0


From 8475f2684522e5d4c8259becb526b7117f7bc880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:59 +0000
Subject: [PATCH 03/85] fix: release the reference of events that are discarded
 or replaced

An event that is rejected because its microstep would be after the stop tag,
or whose payload is replaced by the same token, kept its reference to the
token. Scheduling after the stop tag released a reference that had not been
taken yet.
---
 core/reactor_common.c | 11 ++++-------
 lib/schedule.c        | 14 ++++++++------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 358480e..d405b34 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -471,10 +471,8 @@ event_t* _lf_create_dummy_events(environment_t* env, tag_t tag) {
 }
 
 void lf_replace_token(event_t* event, lf_token_t* token) {
-  if (event->token != token) {
-    // Free the existing token, if any.
-    _lf_done_using(event->token);
-  }
+  // Free the existing token, if any. If it is the same token, then the event has two references to it.
+  _lf_done_using(event->token);
   // Replace the token with ours.
   event->token = token;
 }
@@ -525,9 +523,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
   if (found != NULL) {
     switch (trigger->policy) {
     case drop:
-      if (found->token != token) {
-        _lf_done_using(token);
-      }
+      _lf_done_using(token);
       lf_recycle_event(env, e);
       return (0);
       break;
@@ -546,6 +542,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
         // Scheduling e will incur a microstep after the stop tag,
         // which is illegal.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
diff --git a/lib/schedule.c b/lib/schedule.c
index 6a1b980..fd4cad3 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -129,6 +129,13 @@ bool lf_check_deadline(void* self, bool invoke_deadline_handler) {
 trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, interval_t extra_delay,
                                      lf_token_t* token) {
   assert(env != GLOBAL_ENVIRONMENT);
+
+  // Increment the reference count of the token.
+  if (token != NULL) {
+    token->ref_count++;
+    LF_PRINT_DEBUG("lf_schedule_trigger: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
+  }
+
   if (lf_is_tag_after_stop_tag(env, env->current_tag)) {
     // If schedule is called after stop_tag
     // This is a critical condition.
@@ -145,12 +152,6 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   LF_PRINT_DEBUG("lf_schedule_trigger: scheduling trigger %p with delay " PRINTF_TIME " and token %p.", (void*)trigger,
                  extra_delay, (void*)token);
 
-  // Increment the reference count of the token.
-  if (token != NULL) {
-    token->ref_count++;
-    LF_PRINT_DEBUG("lf_schedule_trigger: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
-  }
-
   // The trigger argument could be null, meaning that nothing is triggered.
   // Doing this after incrementing the reference count ensures that the
   // payload will be freed, if there is one.
@@ -231,6 +232,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
         LF_PRINT_DEBUG("Attempt to schedule an event after stop_tag was rejected.");
         // Scheduling an event will incur a microstep
         // after the stop tag.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
-- 
2.43.0


From fdfbffac3b9ea6b8e9a1615fc82c519915e23e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 04/85] fix: do not execute a queued reaction twice

When exactly one downstream reaction is enabled, it is executed immediately.
If another trigger of that reaction was present at the same tag, it was on
the reaction queue already and was executed a second time from there.
---
 core/reactor_common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index d405b34..48c3b99 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -753,7 +753,10 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               // avoids acquiring a mutex lock.
               // FIXME: Check the earliest deadline on the reaction queue.
               // This optimization could violate EDF scheduling otherwise.
-              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction) {
+              // A reaction that is already on the reaction queue, because another of its triggers is
+              // present, has to be executed from there or it would be executed twice.
+              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction &&
+                  downstream_reaction->status == inactive) {
                 // So far, this downstream reaction is a candidate to execute now.
                 downstream_to_execute_now = downstream_reaction;
               } else {
-- 
2.43.0


From e58467b8b4935e260a1c44cb6c50e957ab3921db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:39 +0000
Subject: [PATCH 05/85] fix: adaptive scheduler: do not let unawakened workers
 leave their sleep

The count of awakened workers included the calling worker even if its number
was greater, so that a worker between the two that woke up spuriously, or had
not gone to sleep yet, proceeded without being counted as loose and tripped
the scheduler's assertions.
---
 core/threaded/scheduler_adaptive.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 5a926ab..611527c 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -337,9 +337,10 @@ static void worker_states_awaken_locked(lf_scheduler_t* scheduler, size_t worker
   }
   // The predicate of the condition variable depends on num_awakened and level_counter, so
   // this is a critical section.
-  worker_states->num_loose_threads = worker_states->cumsum_of_worker_group_sizes[max_cond];
-  worker_states->num_loose_threads += worker >= worker_states->num_loose_threads;
-  worker_states->num_awakened = worker_states->num_loose_threads;
+  worker_states->num_awakened = worker_states->cumsum_of_worker_group_sizes[max_cond];
+  // The calling worker is loose in any case, but it does not make the other workers between the awakened ones
+  // and itself loose.
+  worker_states->num_loose_threads = worker_states->num_awakened + (worker >= worker_states->num_awakened);
   scheduler->custom_data->level_counter++;
   for (size_t cond = 0; cond <= max_cond; cond++) {
     lf_cond_broadcast(worker_states->worker_conds + cond);
-- 
2.43.0


From 779c9421ee1c178412034113cf7f4507b7c90097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:13 +0000
Subject: [PATCH 06/85] fix: adaptive scheduler: tolerate a transiently
 negative count in an assertion

The counts of reactions are decremented with 32-bit atomic operations, so a
count of zero that another worker has just tried to decrement reads as
0xFFFFFFFF, which the assertion took for a positive number.
---
 core/threaded/scheduler_adaptive.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 611527c..abc45e8 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -381,7 +381,8 @@ static bool worker_states_finished_with_level_locked(lf_scheduler_t* scheduler,
   worker_states_t* worker_states = scheduler->custom_data->worker_states;
   worker_assignments_t* worker_assignments = scheduler->custom_data->worker_assignments;
   LF_ASSERT(worker_assignments->num_reactions_by_worker[worker] != 1, "Sched: Current worker not assigned");
-  assert(((int64_t)worker_assignments->num_reactions_by_worker[worker]) <= 0);
+  // A worker looking for work may have decremented the count, as an int, and not have reset it yet.
+  assert(((int)worker_assignments->num_reactions_by_worker[worker]) <= 0);
   // Why use an atomic operation when we are supposed to be "as good as locked"? Because I took a
   // shortcut, and the shortcut was imperfect.
   size_t ret = lf_atomic_add_fetch(&worker_states->num_loose_threads, -1);
-- 
2.43.0


From 2400123bc86a169e915101b2ea0cf77b04027829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 07/85] fix: record a channel that is set twice at a tag only
 once

---
 core/reactor.c                   | 4 ++++
 core/threaded/reactor_threaded.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/reactor.c b/core/reactor.c
index 6e2fd24..7fcc89c 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -49,6 +49,10 @@ void lf_set_present(lf_port_base_t* port) {
     return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
+  if (*is_present_field) {
+    // The port has been written before at this tag. It must not be recorded twice.
+    return;
+  }
   if (env->is_present_fields_abbreviated_size < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[env->is_present_fields_abbreviated_size] = is_present_field;
   }
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 82dd2b6..4f7623f 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -176,6 +176,10 @@ void lf_set_present(lf_port_base_t* port) {
     return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
+  if (*is_present_field) {
+    // The port has been written before at this tag. It must not be recorded twice.
+    return;
+  }
   int ipfas = lf_atomic_fetch_add(&env->is_present_fields_abbreviated_size, 1);
   if (ipfas < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[ipfas] = is_present_field;
-- 
2.43.0


From a40adedbd47c0373cae84e7b0babe64184d8e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 08/85] fix: lf_time_add: detect overflow without relying on
 undefined behaviour

---
 core/tag.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index c5f8f88..435b1ab 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -46,16 +46,16 @@ instant_t lf_time_add(instant_t a, interval_t b) {
   if (a == FOREVER || b == FOREVER) {
     return FOREVER;
   }
-  instant_t res = a + b;
+  // Note that overflow in C is undefined for signed variables.
   // Check for overflow
-  if (res < a && b > 0) {
+  if (b > 0 && a > FOREVER - b) {
     return FOREVER;
   }
   // Check for underflow
-  if (res > a && b < 0) {
+  if (b < 0 && a < NEVER - b) {
     return NEVER;
   }
-  return res;
+  return a + b;
 }
 
 tag_t lf_tag_add(tag_t a, tag_t b) {
-- 
2.43.0


From 6cb135399a24c1135d13b1af317752076129a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 09/85] fix: never schedule a physical action at or before the
 current tag

---
 lib/schedule.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index fd4cad3..1b15dc9 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -188,9 +188,11 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // physical time is larger than the intended time and, if so,
   // modify the intended time.
   if (trigger->is_physical) {
-    // Get the current physical time and assign it as the intended time.
-    intended_tag.time = lf_time_physical() + delay;
-    intended_tag.microstep = 0;
+    // Get the current physical time and, unless it is no later than the current tag, assign it as the intended time.
+    tag_t physical_tag = (tag_t){.time = lf_time_physical() + delay, .microstep = 0};
+    if (lf_tag_compare(physical_tag, intended_tag) > 0) {
+      intended_tag = physical_tag;
+    }
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
 // See reactor_threaded.
-- 
2.43.0


From b772edf9d636cd99d815e50e7ccd61c385fb52bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:04 +0000
Subject: [PATCH 10/85] fix: saturate the delay of a scheduled event

---
 lib/schedule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index 1b15dc9..505bc62 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -167,7 +167,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // Add the offset if this is not a timer because, in that case,
   // it is the minimum delay.
   if (!trigger->is_timer) {
-    delay += trigger->offset;
+    delay = lf_time_add(extra_delay, trigger->offset);
   }
   tag_t intended_tag = lf_delay_tag(env->current_tag, delay);
 
@@ -189,7 +189,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // modify the intended time.
   if (trigger->is_physical) {
     // Get the current physical time and, unless it is no later than the current tag, assign it as the intended time.
-    tag_t physical_tag = (tag_t){.time = lf_time_physical() + delay, .microstep = 0};
+    tag_t physical_tag = (tag_t){.time = lf_time_add(lf_time_physical(), delay), .microstep = 0};
     if (lf_tag_compare(physical_tag, intended_tag) > 0) {
       intended_tag = physical_tag;
     }
-- 
2.43.0


From 2a41bdeba9069dcd107bb61e0b854178d5dc97e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:30 +0000
Subject: [PATCH 11/85] fix: honour the tag barrier of lf_request_stop in
 unfederated execution

---
 core/threaded/reactor_threaded.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 4f7623f..953f374 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -420,7 +420,6 @@ void _lf_next_locked(environment_t* env) {
                  ". This should be small unless -fast is used.",
                  lf_time_physical() - next_tag.time);
 
-#ifdef FEDERATED
   // In federated execution (at least under decentralized coordination),
   // it is possible that an incoming message has been partially read,
   // enough to see its tag. To prevent it from becoming tardy, the thread
@@ -428,12 +427,12 @@ void _lf_next_locked(environment_t* env) {
   // from exceeding the timestamp of the message. It will remove that barrier
   // once the complete message has been read. Also, if a federate requests
   // to stop exeuction barriers will used while reaching a consensus.
+  // In unfederated execution, lf_request_stop() uses a barrier while it determines the stop tag.
   // Here, we wait for that barrier to be removed, if appropriate.
   if (_lf_wait_on_tag_barrier(env, next_tag)) {
     // A wait actually occurred, so the next_tag may have changed again.
     next_tag = get_next_event_tag(env);
   }
-#endif // FEDERATED
 
   // If the first event in the event queue has a tag greater than or equal to the
   // stop time, and the current tag matches the stop tag (meaning that we have already
-- 
2.43.0


From 1c38ba85a7c199a476e982f1eca2e818b4264946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:30 +0000
Subject: [PATCH 12/85] fix: lf_request_stop: wake the environment whose stop
 tag was set

---
 core/threaded/reactor_threaded.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 953f374..d8a7d0d 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -526,7 +526,7 @@ void lf_request_stop(void) {
     // We signal instead of broadcast under the assumption that only
     // one worker thread can call wait_until at a given time because
     // the call to wait_until is protected by a mutex lock
-    lf_cond_signal(&env->event_q_changed);
+    lf_cond_signal(&env[i].event_q_changed);
     LF_MUTEX_UNLOCK(&env[i].mutex);
   }
 #endif
-- 
2.43.0


From 0d1c8140426a0703bebdc664536f4f9dc2f80043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 13/85] fix: adaptive scheduler: hold the mutex while advancing
 the tag

---
 core/threaded/scheduler_adaptive.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index abc45e8..de6b74f 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -433,6 +433,11 @@ static void advance_level_and_unlock(lf_scheduler_t* scheduler, size_t worker) {
       data_collection_end_tag(scheduler, worker_assignments->num_workers_by_level,
                               worker_assignments->max_num_workers_by_level);
       set_level(scheduler, 0);
+      if (!scheduler->custom_data->worker_states->mutex_held[worker]) {
+        // The only loose worker may have skipped locking the mutex, but the event queue is shared with other threads.
+        LF_MUTEX_LOCK(&scheduler->env->mutex);
+        scheduler->custom_data->worker_states->mutex_held[worker] = true;
+      }
       if (_lf_sched_advance_tag_locked(scheduler)) {
         scheduler->custom_data->should_stop = true;
         worker_states_awaken_locked(scheduler, worker, worker_assignments->max_num_workers);
-- 
2.43.0


From 99c0833e4048258408148ce75cbd220c1b7e751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:21 +0000
Subject: [PATCH 14/85] fix: execute deadline handlers like the reactions they
 replace

---
 core/reactor.c                   |  2 +-
 core/reactor_common.c            | 23 ++++++++++++++++++++++-
 core/threaded/reactor_threaded.c |  2 +-
 include/core/reactor_common.h    | 11 +++++++++++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 7fcc89c..4defac8 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -171,7 +171,7 @@ int _lf_do_step(environment_t* env) {
         tracepoint_reaction_starts(env, reaction, 0);
         reaction_function_t handler = reaction->deadline_violation_handler;
         if (handler != NULL) {
-          (*handler)(reaction->self);
+          _lf_invoke_deadline_handler(env, reaction);
           // If the reaction produced outputs, put the resulting
           // triggered reactions into the queue.
           schedule_output_reactions(env, reaction, 0);
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 48c3b99..831b53e 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -700,6 +700,27 @@ void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker) {
 #endif
 }
 
+void _lf_invoke_deadline_handler(environment_t* env, reaction_t* reaction) {
+  assert(env != GLOBAL_ENVIRONMENT);
+  self_base_t* self = (self_base_t*)reaction->self;
+
+#if !defined(LF_SINGLE_THREADED)
+  if (self->reactor_mutex != NULL) {
+    LF_MUTEX_LOCK((lf_mutex_t*)self->reactor_mutex);
+  }
+#endif
+
+  self->executing_reaction = reaction;
+  reaction->deadline_violation_handler(self);
+  self->executing_reaction = NULL;
+
+#if !defined(LF_SINGLE_THREADED)
+  if (self->reactor_mutex != NULL) {
+    LF_MUTEX_UNLOCK((lf_mutex_t*)self->reactor_mutex);
+  }
+#endif
+}
+
 /**
  * For the specified reaction, if it has produced outputs, insert the
  * resulting triggered reactions into the reaction queue.
@@ -840,7 +861,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         tracepoint_reaction_starts(env, downstream_to_execute_now, worker);
         if (handler != NULL) {
           // Assume the mutex is still not held.
-          (*handler)(downstream_to_execute_now->self);
+          _lf_invoke_deadline_handler(env, downstream_to_execute_now);
 
           // If the reaction produced outputs, put the resulting
           // triggered reactions into the queue or execute them directly if possible.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index d8a7d0d..8ea0117 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -696,7 +696,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
       reaction_function_t handler = reaction->deadline_violation_handler;
       if (handler != NULL) {
         LF_PRINT_LOG("Worker %d: Deadline violation. Invoking deadline handler.", worker_number);
-        (*handler)(reaction->self);
+        _lf_invoke_deadline_handler(env, reaction);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
diff --git a/include/core/reactor_common.h b/include/core/reactor_common.h
index 8086ed7..41771a4 100644
--- a/include/core/reactor_common.h
+++ b/include/core/reactor_common.h
@@ -264,6 +264,17 @@ void _lf_advance_tag(environment_t* env, tag_t next_tag);
 void _lf_pop_events(environment_t* env);
 
 void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker);
+
+/**
+ * @brief Invoke the deadline handler of the given reaction, which must have one.
+ *
+ * Like the reaction itself, the handler executes with the reaction recorded as the executing reaction of its
+ * reactor and in mutual exclusion with the watchdogs of its reactor.
+ *
+ * @param env The environment in which we are executing.
+ * @param reaction The reaction whose deadline was missed.
+ */
+void _lf_invoke_deadline_handler(environment_t* env, reaction_t* reaction);
 void schedule_output_reactions(environment_t* env, reaction_t* reaction, int worker);
 int process_args(int argc, const char* argv[]);
 
-- 
2.43.0


From cb16fa66d93ee3cabe206d79bab780a31697743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:22 +0000
Subject: [PATCH 15/85] fix: a deadline near FOREVER must not overflow

---
 core/reactor.c                   | 2 +-
 core/reactor_common.c            | 2 +-
 core/threaded/reactor_threaded.c | 2 +-
 lib/schedule.c                   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 4defac8..45b14f7 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -162,7 +162,7 @@ int _lf_do_step(environment_t* env) {
       // container deadlines are defined in the container.
       // They can have different deadlines, so we have to check both.
       // Handle the local deadline first.
-      if (reaction->deadline == 0 || physical_time > env->current_tag.time + reaction->deadline) {
+      if (reaction->deadline == 0 || physical_time > lf_time_add(env->current_tag.time, reaction->deadline)) {
         LF_PRINT_LOG("Deadline violation. Invoking deadline handler.");
         tracepoint_reaction_deadline_missed(env, reaction, 0);
         // Deadline violation has occurred.
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 831b53e..4e46258 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -852,7 +852,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
       instant_t physical_time = lf_time_physical();
       // Check for deadline violation.
       if (downstream_to_execute_now->deadline == 0 ||
-          physical_time > env->current_tag.time + downstream_to_execute_now->deadline) {
+          physical_time > lf_time_add(env->current_tag.time, downstream_to_execute_now->deadline)) {
         // Deadline violation has occurred.
         tracepoint_reaction_deadline_missed(env, downstream_to_execute_now, worker);
         violation = true;
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 8ea0117..d71b637 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -687,7 +687,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
     // Get the current physical time.
     instant_t physical_time = lf_time_physical();
     // Check for deadline violation.
-    if (reaction->deadline == 0 || physical_time > env->current_tag.time + reaction->deadline) {
+    if (reaction->deadline == 0 || physical_time > lf_time_add(env->current_tag.time, reaction->deadline)) {
       // Deadline violation has occurred.
       tracepoint_reaction_deadline_missed(env, reaction, worker_number);
       violation_occurred = true;
diff --git a/lib/schedule.c b/lib/schedule.c
index 505bc62..185f880 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -117,7 +117,7 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
  */
 bool lf_check_deadline(void* self, bool invoke_deadline_handler) {
   reaction_t* reaction = ((self_base_t*)self)->executing_reaction;
-  if (lf_time_physical() > (lf_time_logical(((self_base_t*)self)->environment) + reaction->deadline)) {
+  if (lf_time_physical() > lf_time_add(lf_time_logical(((self_base_t*)self)->environment), reaction->deadline)) {
     if (invoke_deadline_handler) {
       reaction->deadline_violation_handler(self);
     }
-- 
2.43.0


From a5b98479f25b74d767267cad69038318acff8c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 16/85] fix: free the mutex shared by watchdogs of a reactor
 only once

---
 core/reactor_common.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 4e46258..57f0bb1 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1223,9 +1223,12 @@ void termination(void) {
     }
 #endif
 #if !defined(LF_SINGLE_THREADED)
-    for (int i = 0; i < env->watchdogs_size; i++) {
-      if (env->watchdogs[i]->base->reactor_mutex != NULL) {
-        free(env->watchdogs[i]->base->reactor_mutex);
+    // Watchdogs of the same reactor share a mutex, so make sure to free it only once.
+    for (int i = 0; i < num_envs; i++) {
+      for (int j = 0; j < env[i].watchdogs_size; j++) {
+        self_base_t* base = env[i].watchdogs[j]->base;
+        free(base->reactor_mutex);
+        base->reactor_mutex = NULL;
       }
     }
 #endif
-- 
2.43.0


From b4405c53c95963d66bf89337ec4e482dcdc31e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 17/85] fix: initialize the mutex shared by watchdogs of a
 reactor only once

---
 core/threaded/watchdog.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 3240fc3..bf3ac34 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -29,7 +29,13 @@ static void* watchdog_thread_main(void* arg);
 void _lf_initialize_watchdogs(environment_t* env) {
   for (int i = 0; i < env->watchdogs_size; i++) {
     watchdog_t* watchdog = env->watchdogs[i];
-    if (watchdog->base->reactor_mutex != NULL) {
+    // Watchdogs of the same reactor share its mutex, which must be initialized only once
+    // because the thread of the first of them may already hold it.
+    bool initialized = false;
+    for (int j = 0; j < i && !initialized; j++) {
+      initialized = env->watchdogs[j]->base == watchdog->base;
+    }
+    if (watchdog->base->reactor_mutex != NULL && !initialized) {
       LF_MUTEX_INIT((lf_mutex_t*)(watchdog->base->reactor_mutex));
     }
     LF_COND_INIT(&watchdog->cond, watchdog->base->reactor_mutex);
-- 
2.43.0


From 4c4db40364bb149f078ae4d7a8f4626011af0e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 18/85] fix: let a watchdog that is restarted with an earlier
 expiration expire on time

---
 core/threaded/watchdog.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index bf3ac34..d03273c 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -151,10 +151,9 @@ void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   watchdog->terminate = false;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
-  // If the watchdog is inactive, signal it to start waiting.
-  if (!watchdog->active) {
-    LF_COND_SIGNAL(&watchdog->cond);
-  }
+  // Signal the watchdog to start waiting or, if it is already waiting for a later
+  // expiration, to wait for the new one.
+  LF_COND_SIGNAL(&watchdog->cond);
 }
 
 void lf_watchdog_stop(watchdog_t* watchdog) {
-- 
2.43.0


From bdb8e8fc743ed23acc119778c8e4bd0bfd9e09e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 19/85] fix: let a watchdog handler restart its watchdog

---
 core/threaded/watchdog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index d03273c..70524fa 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -133,9 +133,10 @@ static void* watchdog_thread_main(void* arg) {
 
       // If we reach here, the watchdog actually timed out. Handle it.
       LF_PRINT_DEBUG("Watchdog %p timed out", (void*)watchdog);
+      // The handler may restart the watchdog, so stop it before invoking the handler.
+      watchdog->expiration = NEVER;
       watchdog_function_t watchdog_func = watchdog->watchdog_function;
       (*watchdog_func)(base);
-      watchdog->expiration = NEVER;
     }
   }
 
-- 
2.43.0


From 84aa90fc258bbc8c7650a19622b2bf1e828ec63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 20/85] fix: a watchdog timeout near FOREVER must not overflow

---
 core/threaded/watchdog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 70524fa..0d9c258 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -150,7 +150,8 @@ void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
   watchdog->terminate = false;
-  watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
+  watchdog->expiration =
+      lf_time_add(lf_time_add(base->environment->current_tag.time, watchdog->min_expiration), additional_timeout);
 
   // Signal the watchdog to start waiting or, if it is already waiting for a later
   // expiration, to wait for the new one.
-- 
2.43.0


From 122d996422d5153d61798b4ee3a8e83c42c87172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 21/85] fix: a watchdog handler must not revoke the termination
 of another watchdog

---
 core/threaded/watchdog.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 0d9c258..63a330c 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -149,7 +149,6 @@ static void* watchdog_thread_main(void* arg) {
 void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
-  watchdog->terminate = false;
   watchdog->expiration =
       lf_time_add(lf_time_add(base->environment->current_tag.time, watchdog->min_expiration), additional_timeout);
 
-- 
2.43.0


From 05e3b685e80628a460cdb23eeb4145cf41ea6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 22/85] fix: do not restart a one-shot timer twice when its
 mode is entered with reset

---
 core/modal_models/modes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 42c35a6..a48ed56 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -385,7 +385,8 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           event_t* event = suspended_event->event;
           if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
             if (state->mode_change == reset_transition) { // Reset transition
-              if (event->trigger->is_timer) {             // Only reset timers
+              if (event->trigger->is_timer && event->trigger->period != 0) {
+                // Only reset timers; those with a period of 0 have been handled above.
                 trigger_t* timer = event->trigger;
 
                 LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-- 
2.43.0


From 32dac784fa3621a4f169e280355663ba868144af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 23/85] fix: resetting the active mode restarts its timers and
 discards its events

---
 core/modal_models/modes.c | 69 ++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index a48ed56..bf5327f 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -317,6 +317,42 @@ void _lf_handle_mode_shutdown_reactions(environment_t* env, reaction_t** shutdow
   }
 }
 
+/**
+ * Retract events from the event queue and save them as suspended.
+ *
+ * @param env The environment.
+ * @param mode The mode whose events to suspend or NULL to suspend the events of all inactive modes.
+ */
+static void _lf_suspend_events(environment_t* env, reactor_mode_t* mode) {
+  if (env->event_q != NULL) {
+    size_t q_size = pqueue_tag_size(env->event_q);
+    if (q_size > 0) {
+      event_t** delayed_removal = (event_t**)calloc(q_size, sizeof(event_t*));
+      size_t delayed_removal_count = 0;
+
+      // Find events
+      for (size_t i = 0; i < q_size; i++) {
+        event_t* event = (event_t*)env->event_q->d[i + 1]; // internal queue data structure omits index 0
+        if (event != NULL && event->trigger != NULL &&
+            (mode != NULL ? event->trigger->mode == mode : !_lf_mode_is_active(event->trigger->mode))) {
+          delayed_removal[delayed_removal_count++] = event;
+          // This will store the event including possibly those chained up in super dense time
+          _lf_add_suspended_event(event);
+        }
+      }
+
+      // Events are removed delayed in order to allow linear iteration over the queue
+      LF_PRINT_DEBUG("Modes: Pulling %zu events from the event queue to suspend them. %d events are now suspended.",
+                     delayed_removal_count, _lf_suspended_events_num);
+      for (size_t i = 0; i < delayed_removal_count; i++) {
+        pqueue_tag_remove(env->event_q, (pqueue_tag_element_t*)(delayed_removal[i]));
+      }
+
+      free(delayed_removal);
+    }
+  }
+}
+
 /**
  * Perform transitions in all modal reactors.
  *
@@ -356,6 +392,12 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
         transition = true;
 
         if (state->mode_change == reset_transition) {
+          // If the mode is already active, its pending events are on the event queue. Suspend them
+          // such that they are handled like those of an inactive mode below.
+          if (state->next_mode == state->current_mode) {
+            _lf_suspend_events(env, state->next_mode);
+          }
+
           // Reset state variables (if explicitly requested for automatic reset).
           // The generated code will not register all state variables by default.
           // Usually the reset trigger is used.
@@ -478,32 +520,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
     }
 
     // Retract all events from the event queue that are associated with now inactive modes
-    if (env->event_q != NULL) {
-      size_t q_size = pqueue_tag_size(env->event_q);
-      if (q_size > 0) {
-        event_t** delayed_removal = (event_t**)calloc(q_size, sizeof(event_t*));
-        size_t delayed_removal_count = 0;
-
-        // Find events
-        for (size_t i = 0; i < q_size; i++) {
-          event_t* event = (event_t*)env->event_q->d[i + 1]; // internal queue data structure omits index 0
-          if (event != NULL && event->trigger != NULL && !_lf_mode_is_active(event->trigger->mode)) {
-            delayed_removal[delayed_removal_count++] = event;
-            // This will store the event including possibly those chained up in super dense time
-            _lf_add_suspended_event(event);
-          }
-        }
-
-        // Events are removed delayed in order to allow linear iteration over the queue
-        LF_PRINT_DEBUG("Modes: Pulling %zu events from the event queue to suspend them. %d events are now suspended.",
-                       delayed_removal_count, _lf_suspended_events_num);
-        for (size_t i = 0; i < delayed_removal_count; i++) {
-          pqueue_tag_remove(env->event_q, (pqueue_tag_element_t*)(delayed_removal[i]));
-        }
-
-        free(delayed_removal);
-      }
-    }
+    _lf_suspend_events(env, NULL);
 
     if (env->modes->triggered_reactions_request) {
       // Insert a dummy event in the event queue for the next microstep to make
-- 
2.43.0


From 07aa77cc1192e0cf8b2f5970d25821549c5df850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 24/85] fix: resume the contents of nested modes when an
 enclosing mode is entered with history

---
 core/modal_models/modes.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index bf5327f..d73b1e5 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -385,6 +385,15 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
         LF_PRINT_DEBUG("Modes: Hierarchical mode reset to %s when entering %s.", state->initial_mode->name,
                        state->parent_mode->name);
       }
+      // Likewise, if the parent is entered with history, the contents of the current mode of this
+      // reactor have to be resumed, unless this reactor changes its mode itself.
+      else if (state->parent_mode != NULL && state->parent_mode->state != NULL && state->next_mode == NULL &&
+               state->parent_mode->state->next_mode == state->parent_mode &&
+               state->parent_mode->state->mode_change == history_transition) {
+        state->next_mode = state->current_mode;
+        // Enter with history, to cascade it further down.
+        state->mode_change = history_transition;
+      }
 
       // Handle effect of entering next mode
       if (state->next_mode != NULL) {
@@ -438,8 +447,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
               }
               // No further processing; drops all events upon reset (timer event was recreated by schedule and original
               // can be removed here)
-            } else if (state->next_mode != state->current_mode &&
-                       event->trigger != NULL) { // History transition to a different mode
+            } else { // History transition
               // Remaining time that the event would have been waiting before mode was left
               instant_t local_remaining_delay =
                   event->base.tag.time -
@@ -474,18 +482,24 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
     for (int i = 0; i < states_size; i++) {
       reactor_mode_state_t* state = states[i];
       if (state != NULL) {
+        // Save time when the mode was left (if it is) to handle suspended events in the future
+        if (_lf_mode_is_active(state->current_mode)) {
+          state->current_mode->deactivation_time = lf_time_logical(env);
+        }
+
         // Clear cached active flag on active state, because
         // parent activity might have changed or active state may change.
         state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_ACTIVE;
 
         // Apply transition effect
         if (state->next_mode != NULL) {
-          // Save time when mode was left to handle suspended events in the future
-          state->current_mode->deactivation_time = lf_time_logical(env);
-
           // Apply transition
+          bool same_mode = state->current_mode == state->next_mode;
           state->current_mode = state->next_mode;
 
+          // If an enclosing mode is inactive, so is the new mode, and the events resumed above will be suspended again.
+          state->current_mode->deactivation_time = lf_time_logical(env);
+
           // Trigger startup reactions if entered first time
           if (!(state->current_mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP)) {
             state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_STARTUP;
@@ -494,7 +508,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           // Trigger reset reactions
           if (state->mode_change == reset_transition) {
             state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_RESET;
-          } else {
+          } else if (!same_mode) {
             // Needs to be cleared because flag could be there from previous
             // entry (with subsequent inactivity) which is now obsolete
             state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_NEEDS_RESET;
-- 
2.43.0


From b838ee44755ecb05f75d00d5bc6ae4be1c6334ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 25/85] fix: restart all timers of a mode that is entered with
 reset

---
 core/modal_models/modes.c | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index d73b1e5..61f598c 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -418,13 +418,15 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
             }
           }
 
-          // Handle timers that have a period of 0. These timers will only trigger
-          // once and will not be on the event_q after their initial triggering.
-          // Therefore, the logic above cannot handle these timers. We need
-          // to trigger these timers manually if there is a reset transition.
+          // Restart all timers of the mode. This does not rely on their suspended events because
+          // there is none if the timer has a period of 0 and has triggered already or if its
+          // next event would have been after the stop tag.
           for (int j = 0; j < timer_triggers_size; j++) {
             trigger_t* timer = timer_triggers[j];
-            if (timer->period == 0 && timer->mode == state->next_mode) {
+            if (timer->mode == state->next_mode) {
+              // Reschedule the timer with no additional delay.
+              // This will take care of super dense time when offset is 0.
+              LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
               lf_schedule_trigger(env, timer, timer->offset, NULL);
             }
           }
@@ -435,19 +437,8 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
         while (suspended_event != NULL) {
           event_t* event = suspended_event->event;
           if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
-            if (state->mode_change == reset_transition) { // Reset transition
-              if (event->trigger->is_timer && event->trigger->period != 0) {
-                // Only reset timers; those with a period of 0 have been handled above.
-                trigger_t* timer = event->trigger;
-
-                LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-                // Reschedule the timer with no additional delay.
-                // This will take care of super dense time when offset is 0.
-                lf_schedule_trigger(env, timer, event->trigger->offset, NULL);
-              }
-              // No further processing; drops all events upon reset (timer event was recreated by schedule and original
-              // can be removed here)
-            } else { // History transition
+            // Drop all events upon reset (the timers have been restarted above).
+            if (state->mode_change != reset_transition) { // History transition
               // Remaining time that the event would have been waiting before mode was left
               instant_t local_remaining_delay =
                   event->base.tag.time -
@@ -462,7 +453,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
                                     .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
               _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
             }
-            // A fresh event was created by schedule, hence, recycle old one
+            // The event is dropped or a fresh event was created by schedule, hence, recycle old one
             lf_recycle_event(env, event);
 
             // Remove suspended event and continue
-- 
2.43.0


From 4a16b685d4693096f2116e0a81069f8b4bd7f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:36 +0000
Subject: [PATCH 26/85] fix: do not execute a downstream reaction of an
 inactive mode

---
 core/reactor_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 57f0bb1..bc78627 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -776,7 +776,12 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               // This optimization could violate EDF scheduling otherwise.
               // A reaction that is already on the reaction queue, because another of its triggers is
               // present, has to be executed from there or it would be executed twice.
-              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction &&
+              bool is_active = true;
+#ifdef MODAL_REACTORS
+              // A reaction that is disabled by mode inactivity must not be executed.
+              is_active = _lf_mode_is_active(downstream_reaction->mode);
+#endif
+              if (is_active && num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction &&
                   downstream_reaction->status == inactive) {
                 // So far, this downstream reaction is a candidate to execute now.
                 downstream_to_execute_now = downstream_reaction;
-- 
2.43.0


From f657d0ce8be0d2d7db1dde16a1d684152f2e798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:37 +0000
Subject: [PATCH 27/85] fix: preserve the order and the tokens of events that
 are suspended in inactive modes

---
 core/modal_models/modes.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 61f598c..39b3a0d 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -73,6 +73,7 @@ _lf_suspended_event_t* _lf_unsused_suspended_events_head =
 
 /**
  * Save the given event as suspended.
+ * Suspended events are kept in the order of their tags.
  */
 void _lf_add_suspended_event(event_t* event) {
   _lf_suspended_event_t* new_suspended_event;
@@ -83,11 +84,15 @@ void _lf_add_suspended_event(event_t* event) {
     new_suspended_event = (_lf_suspended_event_t*)malloc(sizeof(_lf_suspended_event_t));
   }
 
+  _lf_suspended_event_t** position = &_lf_suspended_events_head;
+  while (*position != NULL && lf_tag_compare((*position)->event->base.tag, event->base.tag) <= 0) {
+    position = &(*position)->next;
+  }
   new_suspended_event->event = event;
-  new_suspended_event->next = _lf_suspended_events_head; // prepend
+  new_suspended_event->next = *position;
   _lf_suspended_events_num++;
 
-  _lf_suspended_events_head = new_suspended_event;
+  *position = new_suspended_event;
 }
 
 /**
@@ -437,24 +442,32 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
         while (suspended_event != NULL) {
           event_t* event = suspended_event->event;
           if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
-            // Drop all events upon reset (the timers have been restarted above).
-            if (state->mode_change != reset_transition) { // History transition
+            if (state->mode_change == reset_transition) { // Reset transition
+              // Drop all events (the timers have been restarted above).
+              _lf_done_using(event->token);
+              lf_recycle_event(env, event);
+            } else { // History transition
               // Remaining time that the event would have been waiting before mode was left
               instant_t local_remaining_delay =
                   event->base.tag.time -
                   (state->next_mode->deactivation_time != 0 ? state->next_mode->deactivation_time : lf_time_start());
-              tag_t current_logical_tag = env->current_tag;
 
               // Reschedule event with original local delay
               LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME
                              " (previous TTH: " PRINTF_TIME ", Mode suspended at: " PRINTF_TIME ").",
                              local_remaining_delay, event->base.tag.time, state->next_mode->deactivation_time);
-              tag_t schedule_tag = {.time = current_logical_tag.time + local_remaining_delay,
-                                    .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
-              _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
+              event->base.tag = lf_delay_tag(env->current_tag, local_remaining_delay);
+              // Events that were suspended at the same time keep their order in super dense time.
+              while (pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)event) != NULL) {
+                event->base.tag.microstep++;
+              }
+              if (lf_is_tag_after_stop_tag(env, event->base.tag)) {
+                _lf_done_using(event->token);
+                lf_recycle_event(env, event);
+              } else {
+                pqueue_tag_insert(env->event_q, (pqueue_tag_element_t*)event);
+              }
             }
-            // The event is dropped or a fresh event was created by schedule, hence, recycle old one
-            lf_recycle_event(env, event);
 
             // Remove suspended event and continue
             suspended_event = _lf_remove_suspended_event(suspended_event);
@@ -543,6 +556,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
 void _lf_terminate_modal_reactors(environment_t* env) {
   _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
   while (suspended_event != NULL) {
+    _lf_done_using(suspended_event->event->token);
     lf_recycle_event(env, suspended_event->event);
     _lf_suspended_event_t* next = suspended_event->next;
     free(suspended_event);
-- 
2.43.0


From 2818753991e583a5c5371215ebb19c5258eab2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:00 +0000
Subject: [PATCH 28/85] fix: execute the shutdown reactions of a mode that is
 first activated at the final tag

---
 core/reactor.c                   | 11 ++++++-----
 core/threaded/reactor_threaded.c | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 45b14f7..03463d9 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -263,11 +263,6 @@ int next(environment_t* env) {
   // to the queue asynchronously will have a later tag than the current one.
   _lf_advance_tag(env, next_tag);
 
-  // Trigger shutdown reactions if appropriate.
-  if (lf_tag_compare(env->current_tag, env->stop_tag) >= 0) {
-    _lf_trigger_shutdown_reactions(env);
-  }
-
   // Invoke code that must execute before starting a new logical time round,
   // such as initializing outputs to be absent.
   _lf_start_time_step(env);
@@ -276,6 +271,12 @@ int next(environment_t* env) {
   // extract all the reactions triggered by these events, and
   // stick them into the reaction queue.
   _lf_pop_events(env);
+
+  // Trigger shutdown reactions if appropriate. This is done last because
+  // popping events also completes the activation of modes at this tag.
+  if (lf_tag_compare(env->current_tag, env->stop_tag) >= 0) {
+    _lf_trigger_shutdown_reactions(env);
+  }
   LF_CRITICAL_SECTION_EXIT(env);
 
   return _lf_do_step(env);
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index d71b637..88b8a94 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -450,16 +450,17 @@ void _lf_next_locked(environment_t* env) {
 
   _lf_start_time_step(env);
 
+  // Pop all events from event_q with timestamp equal to env->current_tag,
+  // extract all the reactions triggered by these events, and
+  // stick them into the reaction queue.
+  _lf_pop_events(env);
+
+  // This is done after popping events because that also completes the activation of modes at this tag.
   if (lf_tag_compare(env->current_tag, env->stop_tag) >= 0) {
     // Pop shutdown events
     LF_PRINT_DEBUG("Scheduling shutdown reactions.");
     _lf_trigger_shutdown_reactions(env);
   }
-
-  // Pop all events from event_q with timestamp equal to env->current_tag,
-  // extract all the reactions triggered by these events, and
-  // stick them into the reaction queue.
-  _lf_pop_events(env);
 #ifdef FEDERATED
   lf_enqueue_port_absent_reactions(env);
   // _lf_pop_events may have set some triggers present.
-- 
2.43.0


From 366324a6d318ee3130d193876d88d62c86c61274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:12 +0000
Subject: [PATCH 29/85] fix: remove all items from a tag queue when asked to
 remove up to FOREVER_TAG

---
 core/utils/pqueue_tag.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/utils/pqueue_tag.c b/core/utils/pqueue_tag.c
index c1abe35..187b33e 100644
--- a/core/utils/pqueue_tag.c
+++ b/core/utils/pqueue_tag.c
@@ -151,10 +151,8 @@ tag_t pqueue_tag_pop_tag(pqueue_tag_t* q) {
 void pqueue_tag_remove(pqueue_tag_t* q, pqueue_tag_element_t* e) { pqueue_remove((pqueue_t*)q, (void*)e); }
 
 void pqueue_tag_remove_up_to(pqueue_tag_t* q, tag_t t) {
-  tag_t head = pqueue_tag_peek_tag(q);
-  while (lf_tag_compare(head, FOREVER_TAG) < 0 && lf_tag_compare(head, t) <= 0) {
+  while (pqueue_tag_size(q) > 0 && lf_tag_compare(pqueue_tag_peek_tag(q), t) <= 0) {
     pqueue_tag_pop_tag(q);
-    head = pqueue_tag_peek_tag(q);
   }
 }
 
-- 
2.43.0


From 3efef841fcdf9836dca007f73b875200bb5d2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 30/85] fix: lf_delay_strict: leave the tag unmodified for
 every negative interval

---
 core/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/tag.c b/core/tag.c
index 435b1ab..bed4e23 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -117,7 +117,7 @@ tag_t lf_delay_tag(tag_t tag, interval_t interval) {
 
 tag_t lf_delay_strict(tag_t tag, interval_t interval) {
   tag_t result = lf_delay_tag(tag, interval);
-  if (interval != 0 && interval != NEVER && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
+  if (interval > 0 && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
     result.time -= 1;
     result.microstep = UINT_MAX;
   }
-- 
2.43.0


From 60b8d2154e9a803ee3c59b08c69e3285d184b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:39 +0000
Subject: [PATCH 31/85] fix: lf_delay_tag: a microstep that overflows must not
 yield an earlier tag

---
 core/tag.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index bed4e23..bcfe59c 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -104,9 +104,9 @@ tag_t lf_delay_tag(tag_t tag, interval_t interval) {
     return FOREVER_TAG; // Overflow.
   tag_t result = tag;
   if (interval == 0LL) {
-    // Note that unsigned variables will wrap on overflow.
-    // This is probably the only reasonable thing to do with overflowing
-    // microsteps.
+    // A tag whose microstep cannot be represented is never reached (as in lf_tag_add).
+    if (tag.microstep == UINT_MAX)
+      return FOREVER_TAG;
     result.microstep++;
   } else {
     result.time += interval;
-- 
2.43.0


From 5ccfdc09b9249cfdf852e39cd483f42344fc6b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 32/85] fix: vector_at: fill the elements that have not been
 set with NULL

---
 core/utils/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/utils/vector.c b/core/utils/vector.c
index 2124f12..2ee001b 100644
--- a/core/utils/vector.c
+++ b/core/utils/vector.c
@@ -101,6 +101,7 @@ void* vector_pop(vector_t* v) {
  * @return A pointer to the element at 'idx', which is itself a pointer.
  */
 void** vector_at(vector_t* v, size_t idx) {
+  size_t old_size = v->next - v->start;
   void** vector_position = v->start + idx;
   if ((vector_position + 1) > v->next) {
     v->next = vector_position + 1;
@@ -114,6 +115,10 @@ void** vector_at(vector_t* v, size_t idx) {
     }
     vector_resize(v, new_size);
   }
+  // Elements that have not been set are NULL.
+  for (size_t i = old_size; i <= idx; i++) {
+    v->start[i] = NULL;
+  }
   // Note: Can't re-use vector_position because v->start can move after
   // resizing.
   return v->start + idx;
-- 
2.43.0


From fe8ef1be75d65223e547d4cc5782d7b929c6bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:05 +0000
Subject: [PATCH 33/85] fix: the mark of deleted items is never a member of a
 hash set

---
 core/utils/hashset/hashset.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/utils/hashset/hashset.c b/core/utils/hashset/hashset.c
index fa67aac..f049b74 100644
--- a/core/utils/hashset/hashset.c
+++ b/core/utils/hashset/hashset.c
@@ -121,6 +121,9 @@ int hashset_add(hashset_t set, void* item) {
 }
 
 int hashset_remove(hashset_t set, void* item) {
+  if (item == (void*)1) {
+    return 0; // Marks a deleted item.
+  }
   size_t ii = set->mask & (prime_1 * (size_t)item);
 
   while (set->items[ii] != 0) {
@@ -137,6 +140,9 @@ int hashset_remove(hashset_t set, void* item) {
 }
 
 int hashset_is_member(hashset_t set, void* item) {
+  if (item == (void*)1) {
+    return 0; // Marks a deleted item.
+  }
   size_t ii = set->mask & (prime_1 * (size_t)item);
 
   while (set->items[ii] != 0) {
-- 
2.43.0


From 213175521ee16294e501691db98c519fa532c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 34/85] fix: render negative times with their sign and
 magnitude

---
 core/tag.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index bcfe59c..8df575a 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -143,11 +143,17 @@ instant_t lf_time_physical_elapsed(void) { return lf_time_physical() - start_tim
 instant_t lf_time_start(void) { return start_time; }
 
 size_t lf_readable_time(char* buffer, instant_t time) {
-  if (time <= (instant_t)0) {
+  if (time == (instant_t)0) {
     snprintf(buffer, 2, "0");
     return 1;
   }
   char* original_buffer = buffer;
+  bool is_never = (time == NEVER); // The magnitude of NEVER is not representable.
+  if (time < (instant_t)0) {
+    snprintf(buffer, 2, "-");
+    buffer++;
+    time = is_never ? FOREVER : -time;
+  }
   bool lead = false; // Set to true when first clause has been printed.
   if (time > WEEKS(1)) {
     lead = true;
@@ -211,6 +217,9 @@ size_t lf_readable_time(char* buffer, instant_t time) {
       buffer += 2;
     }
     const char* units = "ns";
+    if (is_never) {
+      time++;
+    }
     if (time % MSEC(1) == (instant_t)0) {
       units = "ms";
       time = time / MSEC(1);
@@ -234,20 +243,22 @@ size_t lf_comma_separated_time(char* buffer, instant_t time) {
     return 1;
   }
   // If the number is negative, print a minus sign.
+  uint64_t magnitude = (uint64_t)time;
   if (time < (instant_t)0) {
     snprintf(buffer, 2, "-");
     buffer++;
     result++;
+    magnitude = -magnitude; // Unlike -time, this is well defined for every value.
   }
   int count = 0;
   // Assume the time value is no larger than 64 bits.
-  instant_t clauses[7];
-  while (time > (instant_t)0) {
-    clauses[count++] = time;
-    time = time / 1000;
+  uint64_t clauses[7];
+  while (magnitude > 0) {
+    clauses[count++] = magnitude;
+    magnitude = magnitude / 1000;
   }
   // Highest order clause should not be filled with zeros.
-  instant_t to_print = clauses[--count] % 1000;
+  instant_t to_print = (instant_t)(clauses[--count] % 1000);
   snprintf(buffer, 5, "%lld", (long long)to_print);
   if (to_print >= 100LL) {
     buffer += 3;
@@ -260,7 +271,7 @@ size_t lf_comma_separated_time(char* buffer, instant_t time) {
     result += 1;
   }
   while (count-- > 0) {
-    to_print = clauses[count] % 1000LL;
+    to_print = (instant_t)(clauses[count] % 1000);
     snprintf(buffer, 8, ",%03lld", (long long)to_print);
     buffer += 4;
     result += 4;
-- 
2.43.0


From 4f524bf5b1cfd8bd7b133062c15dce54f7bd3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 35/85] fix: saturate a --timeout that cannot be represented

---
 core/reactor_common.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index bc78627..caf85b2 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -974,28 +974,31 @@ int process_args(int argc, const char* argv[]) {
         usage(argc, argv);
         return 0;
       }
+      interval_t unit;
       if (strncmp(units, "sec", 3) == 0) {
-        duration = SEC(duration);
+        unit = SEC(1);
       } else if (strncmp(units, "msec", 4) == 0) {
-        duration = MSEC(duration);
+        unit = MSEC(1);
       } else if (strncmp(units, "usec", 4) == 0) {
-        duration = USEC(duration);
+        unit = USEC(1);
       } else if (strncmp(units, "nsec", 4) == 0) {
-        duration = NSEC(duration);
+        unit = NSEC(1);
       } else if (strncmp(units, "min", 3) == 0) {
-        duration = MINUTE(duration);
+        unit = MINUTE(1);
       } else if (strncmp(units, "hour", 4) == 0) {
-        duration = HOUR(duration);
+        unit = HOUR(1);
       } else if (strncmp(units, "day", 3) == 0) {
-        duration = DAY(duration);
+        unit = DAY(1);
       } else if (strncmp(units, "week", 4) == 0) {
-        duration = WEEK(duration);
+        unit = WEEK(1);
       } else {
         // Invalid units.
         lf_print_error("Invalid time units: %s", units);
         usage(argc, argv);
         return 0;
       }
+      // A duration that cannot be represented is longer than any execution.
+      duration = (duration > FOREVER / unit) ? FOREVER : (duration < NEVER / unit) ? NEVER : duration * unit;
     } else if (strcmp(arg, "-k") == 0 || strcmp(arg, "--keepalive") == 0) {
       if (argc < i + 1) {
         lf_print_error("--keepalive needs a boolean.");
-- 
2.43.0


From 3e990f3f99720f415aebf1974db995f47638afea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 36/85] fix: a timeout near FOREVER must not overflow the stop
 tag

---
 core/environment.c               | 2 +-
 core/threaded/reactor_threaded.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/environment.c b/core/environment.c
index d24de4b..cdf2264 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -198,7 +198,7 @@ void environment_init_tags(environment_t* env, instant_t start_time, interval_t
   tag_t stop_tag = FOREVER_TAG_INITIALIZER;
   if (duration >= 0LL) {
     // A duration has been specified. Calculate the stop time.
-    stop_tag.time = env->current_tag.time + duration;
+    stop_tag.time = lf_time_add(env->current_tag.time, duration);
     stop_tag.microstep = 0;
   }
   env->stop_tag = stop_tag;
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 88b8a94..e053a88 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -581,7 +581,7 @@ void _lf_initialize_start_tag(environment_t* env) {
   env->current_tag = (tag_t){.time = start_time, .microstep = 0u};
   if (duration >= 0LL) {
     // A duration has been specified. Recalculate the stop time.
-    env->stop_tag = ((tag_t){.time = start_time + duration, .microstep = 0});
+    env->stop_tag = ((tag_t){.time = lf_time_add(start_time, duration), .microstep = 0});
   }
 
   _lf_initialize_timers(env);
-- 
2.43.0


From 7417fb2da195734909f79749ba420c495ebe9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 37/85] fix: reject an RTI address with excess characters
 instead of ignoring them

---
 core/federated/network/net_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/federated/network/net_util.c b/core/federated/network/net_util.c
index 61d4804..57a6f9f 100644
--- a/core/federated/network/net_util.c
+++ b/core/federated/network/net_util.c
@@ -520,7 +520,7 @@ bool extract_match_groups(const char* rti_addr, char** rti_addr_strs, bool** rti
 }
 
 void extract_rti_addr_info(const char* rti_addr, rti_addr_info_t* rti_addr_info) {
-  const char* regex_str = "(([a-zA-Z0-9_-]{1,254})@)?([a-zA-Z0-9._-]{1,255})(:([0-9]{1,5}))?";
+  const char* regex_str = "^(([a-zA-Z0-9_-]{1,254})@)?([a-zA-Z0-9._-]{1,255})(:([0-9]{1,5}))?$";
   size_t max_groups = 6;
   // The group indices of each field of interest in the regex.
   int user_gid = 2, host_gid = 3, port_gid = 5;
-- 
2.43.0


From 3f53bffe319b25a976392df93a0bd54f815a9bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:58 +0000
Subject: [PATCH 38/85] fix: a PTAG must wait for delayed messages from members
 of zero-delay cycles

---
 core/federated/RTI/rti_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 3a1b16f..044babe 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -127,8 +127,9 @@ tag_t eimt_strict(scheduling_node_t* e) {
   tag_t t_d = FOREVER_TAG;
   for (int i = 0; i < e->num_upstream; i++) {
     scheduling_node_t* upstream = rti_common->scheduling_nodes[e->upstream[i]];
-    // Skip this node if it is part of a zero-delay cycle.
-    if (is_in_zero_delay_cycle(upstream))
+    // Skip this node if it is part of a zero-delay cycle, but only if the connection from it has no delay.
+    // If the connection has a delay, then the federate does not wait for the status of the port.
+    if (e->upstream_delay[i] < 0 && is_in_zero_delay_cycle(upstream))
       continue;
     // If we haven't heard from the upstream node, then assume it can send an event at the start time.
     if (lf_tag_compare(upstream->next_event, NEVER_TAG) == 0) {
-- 
2.43.0


From 5d06803826aebd57526f346965aa67ac104db47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:22 +0000
Subject: [PATCH 39/85] fix: do not grant a PTAG to a federate outside of any
 zero-delay cycle

---
 core/federated/RTI/rti_remote.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3daaeff..dfd950f 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -265,7 +265,9 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
       // in which case, another will not be sent. But it may not have been already granted.
       if (lf_tag_compare(earliest, tag) > 0) {
         notify_tag_advance_grant(upstream, tag);
-      } else if (lf_tag_compare(earliest, tag) == 0 && lf_tag_compare(strict_earliest, tag) > 0) {
+      } else if (lf_tag_compare(earliest, tag) == 0 && is_in_zero_delay_cycle(upstream) &&
+                 lf_tag_compare(strict_earliest, tag) > 0) {
+        // Only members of a zero-delay cycle wait for the status of their ports under a PTAG.
         notify_provisional_tag_advance_grant(upstream, tag);
       }
     }
-- 
2.43.0


From 057727ed505d65d6b78a51e6bd52f0684e612329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:58 +0000
Subject: [PATCH 40/85] fix: grant an outstanding PTAG also to the upstream
 federates that could not get it at first

---
 core/federated/RTI/rti_common.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 044babe..6da5beb 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -202,7 +202,9 @@ tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
   //  1) The EIMT is greater than the NET we want to advance to. Grant a TAG.
   //  2) The EIMT is equal to the NET and the strict EIMT is greater than the net
   //     and the federate is part of a zero-delay cycle (ZDC).  Grant a PTAG.
-  //  3) Otherwise, grant nothing and wait for further updates.
+  //  3) The federate is part of a ZDC, the EIMT is equal to a PTAG that is outstanding for a downstream federate,
+  //     and the strict EIMT is greater than that. Grant a PTAG also.
+  //  4) Otherwise, grant nothing and wait for further updates.
 
   if (                                                           // Scenario (1) above
       lf_tag_compare(t_d, e->next_event) > 0                     // EIMT greater than NET
@@ -234,6 +236,23 @@ tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
                  e->next_event.microstep);
     result.tag = e->next_event;
     result.is_provisional = true;
+  } else if (is_in_zero_delay_cycle(e) && lf_tag_compare(t_d, e->next_event) < 0) { // Scenario (3) above
+    // When a downstream node was granted a PTAG, this node may not yet have been able to get it also
+    // (see notify_provisional_tag_advance_grant()). The downstream node waits for the status of its ports at that tag.
+    for (int i = 0; i < e->num_downstream; i++) {
+      scheduling_node_t* downstream = rti_common->scheduling_nodes[e->downstream[i]];
+      tag_t pending = downstream->last_provisionally_granted;
+      if (downstream->state != NOT_CONNECTED && lf_tag_compare(pending, t_d) == 0 // EIMT equal to the granted PTAG
+          && lf_tag_compare(pending, downstream->last_granted) > 0                // The PTAG is outstanding.
+          && lf_tag_compare(t_d_strict, pending) > 0
+          && lf_tag_compare(pending, e->last_provisionally_granted) > 0 // The grant is not redundant
+          && lf_tag_compare(pending, e->last_granted) > 0               // The grant is not redundant.
+      ) {
+        result.tag = pending;
+        result.is_provisional = true;
+        break;
+      }
+    }
   }
   return result;
 }
-- 
2.43.0


From 9bb922fd37a5cac59213284f035b377625b6d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:36 +0000
Subject: [PATCH 41/85] fix: the clock synchronization thread of the RTI must
 not outlive the scheduling nodes

---
 core/federated/RTI/rti_remote.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index dfd950f..5fbf0d6 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1538,6 +1538,9 @@ static bool authenticate_federate(int* socket) {
 }
 #endif
 
+/** Whether the thread performing clock synchronization has been created. */
+static bool clock_thread_created = false;
+
 void lf_connect_to_federates(int socket_descriptor) {
   for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
     // Wait for an incoming connection request.
@@ -1607,7 +1610,7 @@ void lf_connect_to_federates(int socket_descriptor) {
       }
     }
     if (rti_remote->final_port_UDP != UINT16_MAX && clock_sync_enabled) {
-      lf_thread_create(&rti_remote->clock_thread, clock_synchronization_thread, NULL);
+      clock_thread_created = (lf_thread_create(&rti_remote->clock_thread, clock_synchronization_thread, NULL) == 0);
     }
   }
 }
@@ -1712,6 +1715,12 @@ void wait_for_federates(int socket_descriptor) {
     }
     close(rti_remote->socket_descriptor_UDP);
   }
+
+  // The clock synchronization thread exits when no federate is connected. It must not outlive the scheduling nodes.
+  if (clock_thread_created) {
+    lf_thread_join(rti_remote->clock_thread, &thread_exit_status);
+    clock_thread_created = false;
+  }
 }
 
 void initialize_RTI(rti_remote_t* rti) {
-- 
2.43.0


From f56ce83407976a549e214d5f837de82829d2992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:36 +0000
Subject: [PATCH 42/85] fix: set the start time before waking the clock
 synchronization thread of the RTI

---
 core/federated/RTI/rti_remote.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 5fbf0d6..8ac0e24 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -799,6 +799,8 @@ void handle_timestamp(federate_info_t* my_fed) {
   }
   if (rti_remote->num_feds_proposed_start == rti_remote->base.number_of_scheduling_nodes) {
     // All federates have proposed a start time.
+    // Add an offset to this start time to get everyone starting together.
+    start_time = rti_remote->max_start_time + DELAY_START;
     lf_cond_broadcast(&received_start_times);
   } else {
     // Some federates have not yet proposed a start time.
@@ -815,8 +817,6 @@ void handle_timestamp(federate_info_t* my_fed) {
   // message.
   unsigned char start_time_buffer[MSG_TYPE_TIMESTAMP_LENGTH];
   start_time_buffer[0] = MSG_TYPE_TIMESTAMP;
-  // Add an offset to this start time to get everyone starting together.
-  start_time = rti_remote->max_start_time + DELAY_START;
   lf_tracing_set_start_time(start_time);
   encode_int64(swap_bytes_if_big_endian_int64(start_time), &start_time_buffer[1]);
 
-- 
2.43.0


From 7b087c0088d9e83e3ae97d31a319f304fcba854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 43/85] fix: failing to send a grant must not discard what the
 federate has sent before it closed its socket

---
 core/federated/RTI/rti_remote.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 8ac0e24..d71a364 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -200,10 +200,11 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   }
   // This function is called in notify_advance_grant_if_safe(), which is a long
   // function. During this call, the socket might close, causing the following write_to_socket
-  // to fail. Consider a failure here a soft failure and update the federate's status.
+  // to fail. Consider a failure here a soft failure. Do not update the federate's status here because messages
+  // that the federate has sent before closing the socket may not have been read yet.
+  // The thread that reads from the socket will notice that the socket is closed.
   if (write_to_socket(((federate_info_t*)e)->socket, message_length, buffer)) {
     lf_print_error("RTI failed to send tag advance grant to federate %d.", e->id);
-    e->state = NOT_CONNECTED;
   } else {
     e->last_granted = tag;
     LF_PRINT_LOG("RTI sent to federate %d the tag advance grant (TAG) " PRINTF_TAG ".", e->id, tag.time - start_time,
@@ -233,10 +234,11 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   }
   // This function is called in notify_advance_grant_if_safe(), which is a long
   // function. During this call, the socket might close, causing the following write_to_socket
-  // to fail. Consider a failure here a soft failure and update the federate's status.
+  // to fail. Consider a failure here a soft failure. Do not update the federate's status here because messages
+  // that the federate has sent before closing the socket may not have been read yet.
+  // The thread that reads from the socket will notice that the socket is closed.
   if (write_to_socket(((federate_info_t*)e)->socket, message_length, buffer)) {
     lf_print_error("RTI failed to send tag advance grant to federate %d.", e->id);
-    e->state = NOT_CONNECTED;
   } else {
     e->last_provisionally_granted = tag;
     LF_PRINT_LOG("RTI sent to federate %d the Provisional Tag Advance Grant (PTAG) " PRINTF_TAG ".", e->id,
-- 
2.43.0


From a37da2efa5746697c4d2352e058b18fb6d6f8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:07 +0000
Subject: [PATCH 44/85] fix: account for a federate that leaves or disconnects:
 stop consensus, grants to others, cycles through it

---
 core/federated/RTI/rti_remote.c | 56 +++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index d71a364..8ecaf03 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -975,6 +975,37 @@ void* clock_synchronization_thread(void* noargs) {
   return NULL;
 }
 
+/**
+ * Account for a federate that has resigned, failed, or closed its socket: it will produce no further events,
+ * paths through it no longer delay other federates, and it does not take part in agreeing on a stop tag.
+ *
+ * This function assumes the caller holds the rti_mutex lock.
+ *
+ * @param fed The federate.
+ */
+static void handle_federate_departure_locked(federate_info_t* fed) {
+  fed->enclave.state = NOT_CONNECTED;
+
+  // Indicate that there will no further events from this federate.
+  fed->enclave.next_event = FOREVER_TAG;
+
+  for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
+    invalidate_min_delays_upstream(rti_remote->base.scheduling_nodes[i]);
+  }
+
+  // Do not wait for a reply to a stop request from this federate.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(fed);
+  }
+
+  // Check downstream federates to see whether they should now be granted a TAG.
+  // To handle cycles, need to create a boolean array to keep
+  // track of which upstream federates have been visited.
+  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
+  notify_downstream_advance_grant_if_safe(&(fed->enclave), visited);
+  free(visited);
+}
+
 /**
  * Handle MSG_TYPE_FAILED sent by a federate. This message is sent by a federate
  * that is exiting in failure.  In this case, the RTI will
@@ -998,9 +1029,6 @@ static void handle_federate_failed(federate_info_t* my_fed) {
 
   my_fed->enclave.state = NOT_CONNECTED;
 
-  // Indicate that there will no further events from this federate.
-  my_fed->enclave.next_event = FOREVER_TAG;
-
   // According to this: https://stackoverflow.com/questions/4160347/close-vs-shutdown-socket,
   // the close should happen when receiving a 0 length message from the other end.
   // Here, we just signal the other side that no further writes to the socket are
@@ -1010,12 +1038,7 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
-  // Check downstream federates to see whether they should now be granted a TAG.
-  // To handle cycles, need to create a boolean array to keep
-  // track of which upstream federates have been visited.
-  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
-  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
-  free(visited);
+  handle_federate_departure_locked(my_fed);
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -1044,9 +1067,6 @@ static void handle_federate_resign(federate_info_t* my_fed) {
 
   my_fed->enclave.state = NOT_CONNECTED;
 
-  // Indicate that there will no further events from this federate.
-  my_fed->enclave.next_event = FOREVER_TAG;
-
   // According to this: https://stackoverflow.com/questions/4160347/close-vs-shutdown-socket,
   // the close should happen when receiving a 0 length message from the other end.
   // Here, we just signal the other side that no further writes to the socket are
@@ -1063,12 +1083,7 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
-  // Check downstream federates to see whether they should now be granted a TAG.
-  // To handle cycles, need to create a boolean array to keep
-  // track of which upstream federates have been visited.
-  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
-  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
-  free(visited);
+  handle_federate_departure_locked(my_fed);
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -1089,9 +1104,10 @@ void* federate_info_thread_TCP(void* fed) {
     if (read_failed) {
       // Socket is closed
       lf_print_error("RTI: Socket to federate %d is closed. Exiting the thread.", my_fed->enclave.id);
-      my_fed->enclave.state = NOT_CONNECTED;
-      my_fed->socket = -1;
       // FIXME: We need better error handling here, but do not stop execution here.
+      LF_MUTEX_LOCK(&rti_mutex);
+      handle_federate_departure_locked(my_fed);
+      LF_MUTEX_UNLOCK(&rti_mutex);
       break;
     }
     LF_PRINT_DEBUG("RTI: Received message type %u from federate %d.", buffer[0], my_fed->enclave.id);
-- 
2.43.0


From 5515f4a1e1060f6b3f5418262f086e0039b03164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:20 +0000
Subject: [PATCH 45/85] fix: the RTI must not exit when it cannot send to a
 federate that has just left

---
 core/federated/RTI/rti_remote.c | 38 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 8ecaf03..2aea7c2 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -178,6 +178,17 @@ static int create_rti_server(uint16_t port, socket_type_t socket_type) {
   return socket_descriptor;
 }
 
+/**
+ * Write to the socket of the specified federate. If this fails, then the federate has closed its socket and
+ * what is written can no longer be of interest to it. The RTI then continues to serve the other federates.
+ * The thread that reads from the socket will notice that the socket is closed.
+ */
+static void write_to_federate(federate_info_t* fed, size_t num_bytes, unsigned char* buffer, const char* what) {
+  if (write_to_socket(fed->socket, num_bytes, buffer)) {
+    lf_print_warning("RTI failed to send %s to federate %d.", what, fed->enclave.id);
+  }
+}
+
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
       lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
@@ -337,8 +348,7 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   }
 
   // Forward the message.
-  write_to_socket_fail_on_error(&fed->socket, message_size + 1, buffer, &rti_mutex,
-                                "RTI failed to forward message to federate %d.", federate_id);
+  write_to_federate(fed, message_size + 1, buffer, "port absent message");
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -433,8 +443,7 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
 
-  write_to_socket_fail_on_error(&fed->socket, bytes_read, buffer, &rti_mutex,
-                                "RTI failed to forward message to federate %d.", federate_id);
+  write_to_federate(fed, bytes_read, buffer, "message");
 
   // The message length may be longer than the buffer,
   // in which case we have to handle it in chunks.
@@ -453,8 +462,7 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
     // do not write to destination_socket and cause interleaving. However,
     // holding the rti_mutex might be very expensive. Instead, each outgoing
     // socket should probably have its own mutex.
-    write_to_socket_fail_on_error(&fed->socket, bytes_to_read, buffer, &rti_mutex,
-                                  "RTI failed to send message chunks.");
+    write_to_federate(fed, bytes_to_read, buffer, "message chunks");
   }
 
   // Record this in-transit message in federate's in-transit message queue.
@@ -559,8 +567,7 @@ static void broadcast_stop_time_to_federates_locked() {
     if (rti_remote->base.tracing_enabled) {
       tracepoint_rti_to_federate(send_STOP_GRN, fed->enclave.id, &rti_remote->base.max_stop_tag);
     }
-    write_to_socket_fail_on_error(&fed->socket, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, &rti_mutex,
-                                  "RTI failed to send MSG_TYPE_STOP_GRANTED message to federate %d.", fed->enclave.id);
+    write_to_federate(fed, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, "MSG_TYPE_STOP_GRANTED message");
   }
 
   LF_PRINT_LOG("RTI sent to federates MSG_TYPE_STOP_GRANTED with tag " PRINTF_TAG,
@@ -679,9 +686,7 @@ void handle_stop_request_message(federate_info_t* fed) {
       if (rti_remote->base.tracing_enabled) {
         tracepoint_rti_to_federate(send_STOP_REQ, f->enclave.id, &rti_remote->base.max_stop_tag);
       }
-      write_to_socket_fail_on_error(&f->socket, MSG_TYPE_STOP_REQUEST_LENGTH, stop_request_buffer, &rti_mutex,
-                                    "RTI failed to forward MSG_TYPE_STOP_REQUEST message to federate %d.",
-                                    f->enclave.id);
+      write_to_federate(f, MSG_TYPE_STOP_REQUEST_LENGTH, stop_request_buffer, "MSG_TYPE_STOP_REQUEST message");
     }
   }
   LF_PRINT_LOG("RTI forwarded to federates MSG_TYPE_STOP_REQUEST with tag (" PRINTF_TIME ", %u).",
@@ -745,13 +750,11 @@ void handle_address_query(uint16_t fed_id) {
   // Send the port number (which could be -1).
   LF_MUTEX_LOCK(&rti_mutex);
   encode_int32(remote_fed->server_port, (unsigned char*)&buffer[1]);
-  write_to_socket_fail_on_error(&fed->socket, sizeof(int32_t) + 1, (unsigned char*)buffer, &rti_mutex,
-                                "Failed to write port number to socket of federate %d.", fed_id);
+  write_to_federate(fed, sizeof(int32_t) + 1, (unsigned char*)buffer, "port number");
 
   // Send the server IP address to federate.
-  write_to_socket_fail_on_error(&fed->socket, sizeof(remote_fed->server_ip_addr),
-                                (unsigned char*)&remote_fed->server_ip_addr, &rti_mutex,
-                                "Failed to write ip address to socket of federate %d.", fed_id);
+  write_to_federate(fed, sizeof(remote_fed->server_ip_addr), (unsigned char*)&remote_fed->server_ip_addr,
+                    "ip address");
   LF_MUTEX_UNLOCK(&rti_mutex);
 
   LF_PRINT_DEBUG("Replied to address query from federate %d with address %s:%d.", fed_id, remote_fed->server_hostname,
@@ -865,8 +868,7 @@ void send_physical_clock(unsigned char message_type, federate_info_t* fed, socke
   } else if (socket_type == TCP) {
     LF_PRINT_DEBUG("Clock sync:  RTI sending TCP message type %u.", buffer[0]);
     LF_MUTEX_LOCK(&rti_mutex);
-    write_to_socket_fail_on_error(&fed->socket, 1 + sizeof(int64_t), buffer, &rti_mutex,
-                                  "Clock sync: RTI failed to send physical time to federate %d.", fed->enclave.id);
+    write_to_federate(fed, 1 + sizeof(int64_t), buffer, "physical time");
     LF_MUTEX_UNLOCK(&rti_mutex);
   }
   LF_PRINT_DEBUG("Clock sync: RTI sent PHYSICAL_TIME_SYNC_MESSAGE with timestamp " PRINTF_TIME " to federate %d.",
-- 
2.43.0


From 69b8ff23015d444c7e7059de48b80aa86f7e96b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:04 +0000
Subject: [PATCH 46/85] fix: a next event tag sent before a stop was granted
 must not exceed the stop tag

---
 core/federated/RTI/rti_remote.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 2aea7c2..a1f5095 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -507,6 +507,12 @@ void handle_latest_tag_confirmed(federate_info_t* fed) {
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
+/**
+ * Boolean used to prevent the RTI from sending the
+ * MSG_TYPE_STOP_GRANTED message multiple times.
+ */
+bool stop_granted_already_sent_to_federates = false;
+
 void handle_next_event_tag(federate_info_t* fed) {
   unsigned char buffer[sizeof(int64_t) + sizeof(uint32_t)];
   read_from_socket_fail_on_error(&fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer, NULL,
@@ -524,18 +530,16 @@ void handle_next_event_tag(federate_info_t* fed) {
   }
   LF_PRINT_LOG("RTI received from federate %d the Next Event Tag (NET) " PRINTF_TAG, fed->enclave.id,
                intended_tag.time - start_time, intended_tag.microstep);
+  if (stop_granted_already_sent_to_federates && lf_tag_compare(intended_tag, rti_remote->base.max_stop_tag) > 0) {
+    // The federate sent this before it learned of the stop tag, at which it will execute next at the latest.
+    intended_tag = rti_remote->base.max_stop_tag;
+  }
   update_federate_next_event_tag_locked(fed->enclave.id, intended_tag);
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
 /////////////////// STOP functions ////////////////////
 
-/**
- * Boolean used to prevent the RTI from sending the
- * MSG_TYPE_STOP_GRANTED message multiple times.
- */
-bool stop_granted_already_sent_to_federates = false;
-
 /**
  * Once the RTI has seen proposed tags from all connected federates,
  * it will broadcast a MSG_TYPE_STOP_GRANTED carrying the _RTI.max_stop_tag.
-- 
2.43.0


From 2589571b55e5c96264010bb6159718bc562345d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:06 +0000
Subject: [PATCH 47/85] fix: stimulate the members of a zero-delay cycle
 upstream of a PTAG with a PTAG also when a TAG would be safe

---
 core/federated/RTI/rti_remote.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index a1f5095..01baf93 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -276,12 +276,15 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
 
       // If these tags are equal, then a TAG or PTAG should have already been granted,
       // in which case, another will not be sent. But it may not have been already granted.
-      if (lf_tag_compare(earliest, tag) > 0) {
-        notify_tag_advance_grant(upstream, tag);
-      } else if (lf_tag_compare(earliest, tag) == 0 && is_in_zero_delay_cycle(upstream) &&
-                 lf_tag_compare(strict_earliest, tag) > 0) {
+      if (is_in_zero_delay_cycle(upstream)) {
         // Only members of a zero-delay cycle wait for the status of their ports under a PTAG.
-        notify_provisional_tag_advance_grant(upstream, tag);
+        // A TAG would not do, even if it is safe, because it does not make a federate that has no event at the tag
+        // send the absent messages that the recipient of the PTAG is waiting for.
+        if (lf_tag_compare(earliest, tag) >= 0 && lf_tag_compare(strict_earliest, tag) > 0) {
+          notify_provisional_tag_advance_grant(upstream, tag);
+        }
+      } else if (lf_tag_compare(earliest, tag) > 0) {
+        notify_tag_advance_grant(upstream, tag);
       }
     }
   }
-- 
2.43.0


From 9803f1fe9cf689e01771e3377aefb32fbe32e659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 48/85] fix: an outstanding PTAG must reach upstream members of
 zero-delay cycles also when their EIMT has passed it

---
 core/federated/RTI/rti_common.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 6da5beb..4d4e484 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -202,8 +202,8 @@ tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
   //  1) The EIMT is greater than the NET we want to advance to. Grant a TAG.
   //  2) The EIMT is equal to the NET and the strict EIMT is greater than the net
   //     and the federate is part of a zero-delay cycle (ZDC).  Grant a PTAG.
-  //  3) The federate is part of a ZDC, the EIMT is equal to a PTAG that is outstanding for a downstream federate,
-  //     and the strict EIMT is greater than that. Grant a PTAG also.
+  //  3) The federate is part of a ZDC, a PTAG less than the NET is outstanding for a downstream federate, the EIMT is
+  //     not less than that, and the strict EIMT is greater than that. Grant a PTAG also.
   //  4) Otherwise, grant nothing and wait for further updates.
 
   if (                                                           // Scenario (1) above
@@ -236,14 +236,14 @@ tag_advance_grant_t tag_advance_grant_if_safe(scheduling_node_t* e) {
                  e->next_event.microstep);
     result.tag = e->next_event;
     result.is_provisional = true;
-  } else if (is_in_zero_delay_cycle(e) && lf_tag_compare(t_d, e->next_event) < 0) { // Scenario (3) above
+  } else if (is_in_zero_delay_cycle(e)) { // Scenario (3) above
     // When a downstream node was granted a PTAG, this node may not yet have been able to get it also
     // (see notify_provisional_tag_advance_grant()). The downstream node waits for the status of its ports at that tag.
     for (int i = 0; i < e->num_downstream; i++) {
       scheduling_node_t* downstream = rti_common->scheduling_nodes[e->downstream[i]];
       tag_t pending = downstream->last_provisionally_granted;
-      if (downstream->state != NOT_CONNECTED && lf_tag_compare(pending, t_d) == 0 // EIMT equal to the granted PTAG
-          && lf_tag_compare(pending, downstream->last_granted) > 0                // The PTAG is outstanding.
+      if (downstream->state != NOT_CONNECTED && lf_tag_compare(pending, downstream->last_granted) > 0 // Outstanding.
+          && lf_tag_compare(pending, e->next_event) < 0 && lf_tag_compare(t_d, pending) >= 0
           && lf_tag_compare(t_d_strict, pending) > 0
           && lf_tag_compare(pending, e->last_provisionally_granted) > 0 // The grant is not redundant
           && lf_tag_compare(pending, e->last_granted) > 0               // The grant is not redundant.
-- 
2.43.0


From 6acd0210f8e755214acd7ca16958d39777f16de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:14 +0000
Subject: [PATCH 49/85] fix: a federate that disconnects in the middle of a
 message must not end the RTI

---
 core/federated/RTI/rti_remote.c | 68 ++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 01baf93..5f5c57b 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -302,9 +302,10 @@ void update_federate_next_event_tag_locked(uint16_t federate_id, tag_t next_even
 void handle_port_absent_message(federate_info_t* sending_federate, unsigned char* buffer) {
   size_t message_size = sizeof(uint16_t) + sizeof(uint16_t) + sizeof(int64_t) + sizeof(uint32_t);
 
-  read_from_socket_fail_on_error(&sending_federate->socket, message_size, &(buffer[1]), NULL,
-                                 " RTI failed to read port absent message from federate %u.",
-                                 sending_federate->enclave.id);
+  if (read_from_socket(sending_federate->socket, message_size, &(buffer[1]))) {
+    lf_print_error(" RTI failed to read port absent message from federate %u.", sending_federate->enclave.id);
+    return;
+  }
 
   uint16_t reactor_port_id = extract_uint16(&(buffer[1]));
   uint16_t federate_id = extract_uint16(&(buffer[1 + sizeof(uint16_t)]));
@@ -359,8 +360,10 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
 void handle_timed_message(federate_info_t* sending_federate, unsigned char* buffer) {
   size_t header_size = 1 + sizeof(uint16_t) + sizeof(uint16_t) + sizeof(uint32_t) + sizeof(int64_t) + sizeof(uint32_t);
   // Read the header, minus the first byte which has already been read.
-  read_from_socket_fail_on_error(&sending_federate->socket, header_size - 1, &(buffer[1]), NULL,
-                                 "RTI failed to read the timed message header from remote federate.");
+  if (read_from_socket(sending_federate->socket, header_size - 1, &(buffer[1]))) {
+    lf_print_error("RTI failed to read the timed message header from remote federate.");
+    return;
+  }
   // Extract the header information. of the sender
   uint16_t reactor_port_id;
   uint16_t federate_id;
@@ -388,8 +391,10 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
                sending_federate->enclave.id, federate_id, reactor_port_id, intended_tag.time - lf_time_start(),
                intended_tag.microstep);
 
-  read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, &(buffer[header_size]), NULL,
-                                 "RTI failed to read timed message from federate %d.", federate_id);
+  if (read_from_socket(sending_federate->socket, bytes_to_read, &(buffer[header_size]))) {
+    lf_print_error("RTI failed to read timed message from federate %d.", federate_id);
+    return;
+  }
   size_t bytes_read = bytes_to_read + header_size;
   // Following only works for string messages.
   // LF_PRINT_DEBUG("Message received by RTI: %s.", buffer + header_size);
@@ -424,8 +429,10 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
       if (bytes_to_read > FED_COM_BUFFER_SIZE) {
         bytes_to_read = FED_COM_BUFFER_SIZE;
       }
-      read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, buffer, NULL,
-                                     "RTI failed to clear message chunks.");
+      if (read_from_socket(sending_federate->socket, bytes_to_read, buffer)) {
+        lf_print_error("RTI failed to clear message chunks.");
+        break;
+      }
       total_bytes_read += bytes_to_read;
     }
     LF_MUTEX_UNLOCK(&rti_mutex);
@@ -494,9 +501,10 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
 
 void handle_latest_tag_confirmed(federate_info_t* fed) {
   unsigned char buffer[sizeof(int64_t) + sizeof(uint32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer, NULL,
-                                 "RTI failed to read the content of the logical tag complete from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_socket(fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer)) {
+    lf_print_error("RTI failed to read the content of the logical tag complete from federate %d.", fed->enclave.id);
+    return;
+  }
   tag_t completed = extract_tag(buffer);
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_from_federate(receive_LTC, fed->enclave.id, &completed);
@@ -518,9 +526,10 @@ bool stop_granted_already_sent_to_federates = false;
 
 void handle_next_event_tag(federate_info_t* fed) {
   unsigned char buffer[sizeof(int64_t) + sizeof(uint32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer, NULL,
-                                 "RTI failed to read the content of the next event tag from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_socket(fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer)) {
+    lf_print_error("RTI failed to read the content of the next event tag from federate %d.", fed->enclave.id);
+    return;
+  }
 
   // Acquire a mutex lock to ensure that this state does not change while a
   // message is in transport or being used to determine a TAG.
@@ -626,9 +635,10 @@ void handle_stop_request_message(federate_info_t* fed) {
 
   size_t bytes_to_read = MSG_TYPE_STOP_REQUEST_LENGTH - 1;
   unsigned char buffer[bytes_to_read];
-  read_from_socket_fail_on_error(&fed->socket, bytes_to_read, buffer, NULL,
-                                 "RTI failed to read the MSG_TYPE_STOP_REQUEST payload from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_socket(fed->socket, bytes_to_read, buffer)) {
+    lf_print_error("RTI failed to read the MSG_TYPE_STOP_REQUEST payload from federate %d.", fed->enclave.id);
+    return;
+  }
 
   // Extract the proposed stop tag for the federate
   tag_t proposed_stop_tag = extract_tag(buffer);
@@ -704,9 +714,10 @@ void handle_stop_request_message(federate_info_t* fed) {
 void handle_stop_request_reply(federate_info_t* fed) {
   size_t bytes_to_read = MSG_TYPE_STOP_REQUEST_REPLY_LENGTH - 1;
   unsigned char buffer_stop_time[bytes_to_read];
-  read_from_socket_fail_on_error(&fed->socket, bytes_to_read, buffer_stop_time, NULL,
-                                 "RTI failed to read the reply to MSG_TYPE_STOP_REQUEST message from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_socket(fed->socket, bytes_to_read, buffer_stop_time)) {
+    lf_print_error("RTI failed to read the reply to MSG_TYPE_STOP_REQUEST message from federate %d.", fed->enclave.id);
+    return;
+  }
 
   tag_t federate_stop_tag = extract_tag(buffer_stop_time);
 
@@ -734,8 +745,10 @@ void handle_address_query(uint16_t fed_id) {
   // Use buffer both for reading and constructing the reply.
   // The length is what is needed for the reply.
   unsigned char buffer[1 + sizeof(int32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(uint16_t), (unsigned char*)buffer, NULL,
-                                 "Failed to read address query.");
+  if (read_from_socket(fed->socket, sizeof(uint16_t), (unsigned char*)buffer)) {
+    lf_print_error("Failed to read address query.");
+    return;
+  }
   uint16_t remote_fed_id = extract_uint16(buffer);
 
   if (rti_remote->base.tracing_enabled) {
@@ -760,8 +773,7 @@ void handle_address_query(uint16_t fed_id) {
   write_to_federate(fed, sizeof(int32_t) + 1, (unsigned char*)buffer, "port number");
 
   // Send the server IP address to federate.
-  write_to_federate(fed, sizeof(remote_fed->server_ip_addr), (unsigned char*)&remote_fed->server_ip_addr,
-                    "ip address");
+  write_to_federate(fed, sizeof(remote_fed->server_ip_addr), (unsigned char*)&remote_fed->server_ip_addr, "ip address");
   LF_MUTEX_UNLOCK(&rti_mutex);
 
   LF_PRINT_DEBUG("Replied to address query from federate %d with address %s:%d.", fed_id, remote_fed->server_hostname,
@@ -774,8 +786,10 @@ void handle_address_ad(uint16_t federate_id) {
   // connections to other federates
   int32_t server_port = -1;
   unsigned char buffer[sizeof(int32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(int32_t), (unsigned char*)buffer, NULL,
-                                 "Error reading port data from federate %d.", federate_id);
+  if (read_from_socket(fed->socket, sizeof(int32_t), (unsigned char*)buffer)) {
+    lf_print_error("Error reading port data from federate %d.", federate_id);
+    return;
+  }
 
   server_port = extract_int32(buffer);
 
-- 
2.43.0


From bf830dc64b98eefae76afb0fee6c5f90ddf35f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:02 +0000
Subject: [PATCH 50/85] fix: the whole federation ID must match, not just a
 prefix of it

---
 core/federated/RTI/rti_remote.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 5f5c57b..2fdd65a 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1271,8 +1271,9 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
     if (rti_remote->base.tracing_enabled) {
       tracepoint_rti_from_federate(receive_FED_ID, fed_id, NULL);
     }
-    // Compare the received federation ID to mine.
-    if (strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
+    // Compare the received federation ID to mine. A federate sends at most 255 bytes of it.
+    if (federation_id_length != strnlen(rti_remote->federation_id, 255) ||
+        memcmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
       // Federation IDs do not match. Send back a MSG_TYPE_REJECT message.
       lf_print_warning("Federate from another federation %s attempted to connect to RTI in federation %s.",
                        federation_id_received, rti_remote->federation_id);
-- 
2.43.0


From 7eaf649fc588d36ddbc163b34c689a638624fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:02 +0000
Subject: [PATCH 51/85] fix: a connection that fails while joining must not end
 the RTI or keep the federate ID

---
 core/federated/RTI/rti_remote.c | 55 ++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 2fdd65a..62e97f4 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1205,6 +1205,28 @@ void send_reject(int* socket_id, unsigned char error_code) {
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
+/**
+ * Undo the effects of a connection that has not completed joining the federation, so that the federate ID that
+ * it has used is available again.
+ *
+ * @param fed_id The federate ID.
+ */
+static void forget_federate(uint16_t fed_id) {
+  federate_info_t* fed = GET_FED_INFO(fed_id);
+  LF_MUTEX_LOCK(&rti_mutex);
+  fed->enclave.state = NOT_CONNECTED;
+  fed->socket = -1;
+  free(fed->enclave.upstream);
+  free(fed->enclave.upstream_delay);
+  free(fed->enclave.downstream);
+  fed->enclave.upstream = NULL;
+  fed->enclave.upstream_delay = NULL;
+  fed->enclave.downstream = NULL;
+  fed->enclave.num_upstream = 0;
+  fed->enclave.num_downstream = 0;
+  LF_MUTEX_UNLOCK(&rti_mutex);
+}
+
 /**
  * Listen for a MSG_TYPE_FED_IDS message, which includes as a payload
  * a federate ID and a federation ID. If the federation ID
@@ -1336,9 +1358,10 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
     tracepoint_rti_to_federate(send_ACK, fed_id, NULL);
   }
   LF_MUTEX_LOCK(&rti_mutex);
-  if (write_to_socket_close_on_error(&fed->socket, 1, &ack_message)) {
+  if (write_to_socket_close_on_error(socket_id, 1, &ack_message)) {
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_error("RTI failed to write MSG_TYPE_ACK message to federate %d.", fed_id);
+    forget_federate(fed_id);
     return -1;
   }
   LF_MUTEX_UNLOCK(&rti_mutex);
@@ -1356,9 +1379,10 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
 static int receive_connection_information(int* socket_id, uint16_t fed_id) {
   LF_PRINT_DEBUG("RTI waiting for MSG_TYPE_NEIGHBOR_STRUCTURE from federate %d.", fed_id);
   unsigned char connection_info_header[MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE];
-  read_from_socket_fail_on_error(socket_id, MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE, connection_info_header, NULL,
-                                 "RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message header from federate %d.",
-                                 fed_id);
+  if (read_from_socket_close_on_error(socket_id, MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE, connection_info_header)) {
+    lf_print_error("RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message header from federate %d.", fed_id);
+    return 0;
+  }
 
   if (connection_info_header[0] != MSG_TYPE_NEIGHBOR_STRUCTURE) {
     lf_print_error("RTI was expecting a MSG_TYPE_UDP_PORT message from federate %d. Got %u instead. "
@@ -1398,9 +1422,11 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
     if (connections_info_body_size > 0) {
       connections_info_body = (unsigned char*)malloc(connections_info_body_size);
       LF_ASSERT_NON_NULL(connections_info_body);
-      read_from_socket_fail_on_error(socket_id, connections_info_body_size, connections_info_body, NULL,
-                                     "RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message body from federate %d.",
-                                     fed_id);
+      if (read_from_socket_close_on_error(socket_id, connections_info_body_size, connections_info_body)) {
+        lf_print_error("RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message body from federate %d.", fed_id);
+        free(connections_info_body);
+        return 0;
+      }
       // Keep track of where we are in the buffer
       size_t message_head = 0;
       // First, read the info about upstream federates
@@ -1442,8 +1468,10 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
   // is doing clock synchronization, and if it is, what port to use for UDP.
   LF_PRINT_DEBUG("RTI waiting for MSG_TYPE_UDP_PORT from federate %d.", fed_id);
   unsigned char response[1 + sizeof(uint16_t)];
-  read_from_socket_fail_on_error(socket_id, 1 + sizeof(uint16_t), response, NULL,
-                                 "RTI failed to read MSG_TYPE_UDP_PORT message from federate %d.", fed_id);
+  if (read_from_socket_close_on_error(socket_id, 1 + sizeof(uint16_t), response)) {
+    lf_print_error("RTI failed to read MSG_TYPE_UDP_PORT message from federate %d.", fed_id);
+    return 0;
+  }
   if (response[0] != MSG_TYPE_UDP_PORT) {
     lf_print_error("RTI was expecting a MSG_TYPE_UDP_PORT message from federate %d. Got %u instead. "
                    "Rejecting federate.",
@@ -1469,8 +1497,10 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
           // Listen for reply message, which should be T3.
           size_t message_size = 1 + sizeof(int32_t);
           unsigned char buffer[message_size];
-          read_from_socket_fail_on_error(socket_id, message_size, buffer, NULL,
-                                         "Socket to federate %d unexpectedly closed.", fed_id);
+          if (read_from_socket_close_on_error(socket_id, message_size, buffer)) {
+            lf_print_error("Socket to federate %d unexpectedly closed.", fed_id);
+            return 0;
+          }
           if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
             int32_t fed_id = extract_int32(&(buffer[1]));
             assert(fed_id > -1);
@@ -1633,6 +1663,9 @@ void lf_connect_to_federates(int socket_descriptor) {
       lf_thread_create(&(fed->thread_id), federate_info_thread_TCP, fed);
     } else {
       // Received message was rejected. Try again.
+      if (fed_id >= 0) {
+        forget_federate((uint16_t)fed_id);
+      }
       i--;
     }
   }
-- 
2.43.0


From 0e1a3f348ab3126f1df9ec2abea5dce738352971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:03 +0000
Subject: [PATCH 52/85] fix: reject a federate that reports neighbors that do
 not exist

---
 core/federated/RTI/rti_remote.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 62e97f4..1b5cb1c 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1398,6 +1398,13 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
     LF_PRINT_DEBUG("RTI got %d upstreams and %d downstreams from federate %d.", fed->enclave.num_upstream,
                    fed->enclave.num_downstream, fed_id);
 
+    if (fed->enclave.num_upstream < 0 || fed->enclave.num_upstream > rti_remote->base.number_of_scheduling_nodes ||
+        fed->enclave.num_downstream < 0 || fed->enclave.num_downstream > rti_remote->base.number_of_scheduling_nodes) {
+      lf_print_error("RTI got an impossible number of neighbors from federate %d. Rejecting federate.", fed_id);
+      send_reject(socket_id, UNEXPECTED_MESSAGE);
+      return 0;
+    }
+
     // Allocate memory for the upstream and downstream pointers
     if (fed->enclave.num_upstream > 0) {
       fed->enclave.upstream = (uint16_t*)malloc(sizeof(uint16_t) * fed->enclave.num_upstream);
@@ -1444,6 +1451,19 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
       }
 
       free(connections_info_body);
+
+      bool valid = true;
+      for (int i = 0; i < fed->enclave.num_upstream; i++) {
+        valid = valid && fed->enclave.upstream[i] < rti_remote->base.number_of_scheduling_nodes;
+      }
+      for (int i = 0; i < fed->enclave.num_downstream; i++) {
+        valid = valid && fed->enclave.downstream[i] < rti_remote->base.number_of_scheduling_nodes;
+      }
+      if (!valid) {
+        lf_print_error("RTI got a neighbor that is out of range from federate %d. Rejecting federate.", fed_id);
+        send_reject(socket_id, UNEXPECTED_MESSAGE);
+        return 0;
+      }
     }
   }
   LF_PRINT_DEBUG("RTI received neighbor structure from federate %d.", fed_id);
-- 
2.43.0


From 4e1b6ea3319cdf33c94bc43178de6a90a8e9f99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:03 +0000
Subject: [PATCH 53/85] fix: do not check the federate ID of an initial clock
 synchronization message by an assertion

---
 core/federated/RTI/rti_remote.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 1b5cb1c..93deb63 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1521,10 +1521,7 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
             lf_print_error("Socket to federate %d unexpectedly closed.", fed_id);
             return 0;
           }
-          if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
-            int32_t fed_id = extract_int32(&(buffer[1]));
-            assert(fed_id > -1);
-            assert(fed_id < 65536);
+          if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3 && extract_int32(&(buffer[1])) == fed_id) {
             LF_PRINT_DEBUG("RTI received T3 clock sync message from federate %d.", fed_id);
             handle_physical_clock_sync_message(fed, TCP);
           } else {
-- 
2.43.0


From 288ede1cc43b71a0f762de193c384a8335b3bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:03 +0000
Subject: [PATCH 54/85] fix: a connection that fails to authenticate must not
 end the RTI

---
 core/federated/RTI/rti_remote.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 93deb63..8b7e3fe 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1568,10 +1568,14 @@ static bool authenticate_federate(int* socket) {
   // Wait for MSG_TYPE_FED_NONCE from federate.
   size_t fed_id_length = sizeof(uint16_t);
   unsigned char buffer[1 + fed_id_length + NONCE_LENGTH];
-  read_from_socket_fail_on_error(socket, 1 + fed_id_length + NONCE_LENGTH, buffer, NULL,
-                                 "Failed to read MSG_TYPE_FED_NONCE");
+  if (read_from_socket_close_on_error(socket, 1 + fed_id_length + NONCE_LENGTH, buffer)) {
+    lf_print_error("Failed to read MSG_TYPE_FED_NONCE");
+    return false;
+  }
   if (buffer[0] != MSG_TYPE_FED_NONCE) {
-    lf_print_error_and_exit("Received unexpected response %u from the FED (see net_common.h).", buffer[0]);
+    lf_print_error("Received unexpected response %u from the FED (see net_common.h).", buffer[0]);
+    send_reject(socket, UNEXPECTED_MESSAGE);
+    return false;
   }
   unsigned int hmac_length = SHA256_HMAC_LENGTH;
   size_t federation_id_length = strnlen(rti_remote->federation_id, 255);
@@ -1599,9 +1603,13 @@ static bool authenticate_federate(int* socket) {
 
   // Wait for MSG_TYPE_FED_RESPONSE
   unsigned char received[1 + hmac_length];
-  read_from_socket_fail_on_error(socket, 1 + hmac_length, received, NULL, "Failed to read federate response.");
+  if (read_from_socket_close_on_error(socket, 1 + hmac_length, received)) {
+    lf_print_error("Failed to read federate response.");
+    return false;
+  }
   if (received[0] != MSG_TYPE_FED_RESPONSE) {
-    lf_print_error_and_exit("Received unexpected response %u from the federate (see net_common.h).", received[0]);
+    lf_print_error("Received unexpected response %u from the federate (see net_common.h).", received[0]);
+    send_reject(socket, UNEXPECTED_MESSAGE);
     return false;
   }
   // HMAC tag is created with MSG_TYPE_FED_RESPONSE and RTI's nonce.
@@ -1656,11 +1664,7 @@ void lf_connect_to_federates(int socket_descriptor) {
     if (rti_remote->authentication_enabled) {
       if (!authenticate_federate(&socket_id)) {
         lf_print_warning("RTI failed to authenticate the incoming federate.");
-        // Close the socket.
-        shutdown(socket_id, SHUT_RDWR);
-        close(socket_id);
-        socket_id = -1;
-        // Ignore the federate that failed authentication.
+        // The socket has been closed already. Ignore the federate that failed authentication.
         i--;
         continue;
       }
-- 
2.43.0


From ffca70ad6a690452d663498bb388b317a8539c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:03 +0000
Subject: [PATCH 55/85] fix: keep rejecting connections to a running federation
 after a time without any

---
 core/federated/RTI/rti_remote.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 8b7e3fe..ca37281 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1720,6 +1720,10 @@ void* respond_to_erroneous_connections(void* nothing) {
     // The following will block until either a federate attempts to connect
     // or close(rti->socket_descriptor_TCP) is called.
     int socket_id = accept(rti_remote->socket_descriptor_TCP, &client_fd, &client_length);
+    if (socket_id < 0 && !rti_remote->all_federates_exited && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+      // No connection request within the timeout set on the socket.
+      continue;
+    }
     if (socket_id < 0)
       return NULL;
 
-- 
2.43.0


From 044008662ab9b9eb385a58f93d93c87d3b83a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:58 +0000
Subject: [PATCH 56/85] fix: the RTI must not skip the argument after the clock
 synchronization arguments

---
 core/federated/RTI/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/main.c b/core/federated/RTI/main.c
index 17d73e9..0696f2e 100644
--- a/core/federated/RTI/main.c
+++ b/core/federated/RTI/main.c
@@ -253,7 +253,8 @@ int process_args(int argc, const char* argv[]) {
         return 0;
       }
       i++;
-      i += process_clock_sync_args((argc - i), &argv[i]);
+      // Stay at the last one that was processed; the for loop goes on to the next one.
+      i += process_clock_sync_args((argc - i), &argv[i]) - 1;
     } else if (strcmp(argv[i], "-a") == 0 || strcmp(argv[i], "--auth") == 0) {
 #ifndef __RTI_AUTH__
       lf_print_error("--auth requires the RTI to be built with the -DAUTH=ON option.");
-- 
2.43.0


From ec47b04cf84c19b2d95c35800935453b567d1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:37 +0000
Subject: [PATCH 57/85] fix: send the start time to all federates before any
 other message can follow

A federate that had received the start time could start and cause the RTI to send grants, stop requests and messages
to a federate whose start time was still to be sent, when the thread serving the latter was held up for long enough.
---
 core/federated/RTI/rti_remote.c | 53 ++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index ca37281..563e14e 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -805,6 +805,28 @@ void handle_address_ad(uint16_t federate_id) {
   }
 }
 
+/**
+ * Send the start time to the specified federate in a MSG_TYPE_TIMESTAMP message.
+ * This function assumes the caller holds the rti_mutex lock.
+ */
+static void send_start_time_locked(federate_info_t* fed) {
+  if (fed->enclave.state == NOT_CONNECTED) {
+    return;
+  }
+  unsigned char start_time_buffer[MSG_TYPE_TIMESTAMP_LENGTH];
+  start_time_buffer[0] = MSG_TYPE_TIMESTAMP;
+  encode_int64(swap_bytes_if_big_endian_int64(start_time), &start_time_buffer[1]);
+
+  if (rti_remote->base.tracing_enabled) {
+    tag_t tag = {.time = start_time, .microstep = 0};
+    tracepoint_rti_to_federate(send_TIMESTAMP, fed->enclave.id, &tag);
+  }
+  write_to_federate(fed, MSG_TYPE_TIMESTAMP_LENGTH, start_time_buffer, "start time");
+  // The MSG_TYPE_TIMESTAMP message grants time advance to the federate to the start time.
+  fed->enclave.state = GRANTED;
+  LF_PRINT_LOG("RTI sent start time " PRINTF_TIME " to federate %d.", start_time, fed->enclave.id);
+}
+
 void handle_timestamp(federate_info_t* my_fed) {
   unsigned char buffer[sizeof(int64_t)];
   // Read bytes from the socket. We need 8 bytes.
@@ -827,7 +849,14 @@ void handle_timestamp(federate_info_t* my_fed) {
     // All federates have proposed a start time.
     // Add an offset to this start time to get everyone starting together.
     start_time = rti_remote->max_start_time + DELAY_START;
+    lf_tracing_set_start_time(start_time);
+    // Send it to all federates before releasing the mutex so that no federate can start and cause other messages
+    // to be sent to a federate that has not received the start time yet.
+    for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
+      send_start_time_locked(GET_FED_INFO(i));
+    }
     lf_cond_broadcast(&received_start_times);
+    lf_cond_broadcast(&sent_start_time);
   } else {
     // Some federates have not yet proposed a start time.
     // wait for a notification.
@@ -838,30 +867,6 @@ void handle_timestamp(federate_info_t* my_fed) {
   }
 
   LF_MUTEX_UNLOCK(&rti_mutex);
-
-  // Send back to the federate the maximum time plus an offset on a TIMESTAMP
-  // message.
-  unsigned char start_time_buffer[MSG_TYPE_TIMESTAMP_LENGTH];
-  start_time_buffer[0] = MSG_TYPE_TIMESTAMP;
-  lf_tracing_set_start_time(start_time);
-  encode_int64(swap_bytes_if_big_endian_int64(start_time), &start_time_buffer[1]);
-
-  if (rti_remote->base.tracing_enabled) {
-    tag_t tag = {.time = start_time, .microstep = 0};
-    tracepoint_rti_to_federate(send_TIMESTAMP, my_fed->enclave.id, &tag);
-  }
-  if (write_to_socket(my_fed->socket, MSG_TYPE_TIMESTAMP_LENGTH, start_time_buffer)) {
-    lf_print_error("Failed to send the starting time to federate %d.", my_fed->enclave.id);
-  }
-
-  LF_MUTEX_LOCK(&rti_mutex);
-  // Update state for the federate to indicate that the MSG_TYPE_TIMESTAMP
-  // message has been sent. That MSG_TYPE_TIMESTAMP message grants time advance to
-  // the federate to the start time.
-  my_fed->enclave.state = GRANTED;
-  lf_cond_broadcast(&sent_start_time);
-  LF_PRINT_LOG("RTI sent start time " PRINTF_TIME " to federate %d.", start_time, my_fed->enclave.id);
-  LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
 void send_physical_clock(unsigned char message_type, federate_info_t* fed, socket_type_t socket_type) {
-- 
2.43.0


From d7c7afd17143c9c42acb74201fe5dd5077676989 Mon Sep 17 00:00:00 2001
From: fix <a@b>
Date: Thu, 19 Nov 2026 03:23:15 +0000
Subject: [PATCH 58/85] fix: do not send a later NET while waiting for a grant
 at the start tag

---
 core/federated/federate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 9be45fd..b5d1127 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2454,7 +2454,9 @@ tag_t lf_send_next_event_tag(environment_t* env, tag_t tag, bool wait_for_reply)
         if (lf_tag_compare(_fed.last_TAG, next_tag) >= 0 || lf_tag_compare(_fed.last_TAG, tag) >= 0) {
           return _fed.last_TAG;
         }
-        if (lf_tag_compare(next_tag, tag) != 0) {
+        // Only an earlier event does. In particular, while waiting to start executing at the start tag, for which
+        // there need not be any event on the event queue, a later event must not retract the promise made to the RTI.
+        if (lf_tag_compare(next_tag, tag) < 0) {
           send_tag(MSG_TYPE_NEXT_EVENT_TAG, next_tag);
           _fed.last_sent_NET = next_tag;
           LF_PRINT_LOG("Sent next event tag (NET) " PRINTF_TAG " to RTI from loop.", next_tag.time - lf_time_start(),
-- 
2.43.0


From eb274112511950dc632479f20a249ec4284f7733 Mon Sep 17 00:00:00 2001
From: fix <a@b>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 59/85] fix: give every event scheduled at a tag that is taken
 a tag of its own

---
 core/reactor_common.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index caf85b2..fe60792 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -535,10 +535,12 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       return 0;
       break;
     default:
-      // Adding a microstep to the original
-      // intended tag.
-      tag.microstep++;
-      e->base.tag = tag;
+      // Adding microsteps to the original
+      // intended tag until there is no event for this trigger at the tag.
+      do {
+        tag.microstep++;
+        e->base.tag = tag;
+      } while (pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e) != NULL);
       if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
         // Scheduling e will incur a microstep after the stop tag,
         // which is illegal.
-- 
2.43.0


From 659fe0918b519ca23e07ff6985eefbab48f7f0fe Mon Sep 17 00:00:00 2001
From: fix <a@b>
Date: Thu, 19 Nov 2026 03:39:52 +0000
Subject: [PATCH 60/85] fix: a port being absent at an earlier tag does not
 make it absent at the current tag

---
 core/federated/federate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index b5d1127..8488ce9 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -725,7 +725,12 @@ static int handle_port_absent_message(int* socket, int fed_id) {
   _lf_get_environments(&env);
 
   LF_MUTEX_LOCK(&env->mutex);
-  update_last_known_status_on_input_port(env, intended_tag, port_id);
+  // That the port is absent at a tag that has passed or at which its status is already known
+  // does not say anything about any later tag.
+  if (lf_tag_compare(intended_tag, env->current_tag) >= 0 &&
+      lf_tag_compare(intended_tag, action_for_port(port_id)->trigger->last_known_status_tag) > 0) {
+    update_last_known_status_on_input_port(env, intended_tag, port_id);
+  }
   LF_MUTEX_UNLOCK(&env->mutex);
 
   return 0;
-- 
2.43.0


From d5a7d87f63e047a6f539f58df43831d71516ef8f Mon Sep 17 00:00:00 2001
From: fix <a@b>
Date: Thu, 19 Nov 2026 03:41:30 +0000
Subject: [PATCH 61/85] fix: do not answer a stop request after having resigned

---
 core/federated/federate.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 8488ce9..ef707f0 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -91,6 +91,12 @@ federate_instance_t _fed = {.socket_TCP_RTI = -1,
                             .last_sent_NET = {.time = NEVER, .microstep = 0u},
                             .min_delay_from_physical_action_to_federate_output = NEVER};
 
+/**
+ * Whether this federate has told the RTI that it resigns. After that, the RTI expects nothing
+ * more from it and closes the connection. This is guarded by lf_outbound_socket_mutex.
+ */
+static bool has_resigned = false;
+
 federation_metadata_t federation_metadata = {
     .federation_id = "Unidentified Federation", .rti_host = NULL, .rti_port = -1, .rti_user = NULL};
 
@@ -1482,11 +1488,17 @@ static void handle_stop_request_message() {
   unsigned char outgoing_buffer[MSG_TYPE_STOP_REQUEST_REPLY_LENGTH];
   ENCODE_STOP_REQUEST_REPLY(outgoing_buffer, tag_to_stop.time, tag_to_stop.microstep);
 
+  // Send the current logical time to the RTI.
+  LF_MUTEX_LOCK(&lf_outbound_socket_mutex);
+  if (has_resigned) {
+    // The RTI does not wait for a reply from this federate and may have closed the connection.
+    LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
+    return;
+  }
+
   // Trace the event when tracing is enabled
   tracepoint_federate_to_rti(send_STOP_REQ_REP, _lf_my_fed_id, &tag_to_stop);
 
-  // Send the current logical time to the RTI.
-  LF_MUTEX_LOCK(&lf_outbound_socket_mutex);
   write_to_socket_fail_on_error(&_fed.socket_TCP_RTI, MSG_TYPE_STOP_REQUEST_REPLY_LENGTH, outgoing_buffer,
                                 &lf_outbound_socket_mutex,
                                 "Failed to send the answer to MSG_TYPE_STOP_REQUEST to RTI.");
@@ -1506,6 +1518,7 @@ static void send_resign_signal() {
   LF_MUTEX_LOCK(&lf_outbound_socket_mutex);
   write_to_socket_fail_on_error(&_fed.socket_TCP_RTI, bytes_to_write, &(buffer[0]), &lf_outbound_socket_mutex,
                                 "Failed to send MSG_TYPE_RESIGN.");
+  has_resigned = true;
   LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
   LF_PRINT_LOG("Resigned.");
 }
@@ -2580,7 +2593,7 @@ int lf_send_stop_request_to_rti(tag_t stop_tag) {
     LF_PRINT_LOG("Sending to RTI a MSG_TYPE_STOP_REQUEST message with tag " PRINTF_TAG ".", stop_tag.time - start_time,
                  stop_tag.microstep);
 
-    if (_fed.socket_TCP_RTI < 0) {
+    if (_fed.socket_TCP_RTI < 0 || has_resigned) {
       lf_print_warning("Socket is no longer connected. Dropping message.");
       LF_MUTEX_UNLOCK(&lf_outbound_socket_mutex);
       return -1;
-- 
2.43.0


From eb9a85cd5a6ca91e6cef88f84ffaaff5fec6668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:20 +0000
Subject: [PATCH 62/85] fix: do not count a clock synchronization round whose
 coded probe is missing

Such a round is skipped: it makes no contribution to the average. It was counted nevertheless, unlike
a round that is skipped because of an impure coded probe, so that the adjustment was too small or was
made after fewer exchanges than configured.
---
 core/federated/clock-sync.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/federated/clock-sync.c b/core/federated/clock-sync.c
index b18efb6..b67fdd0 100644
--- a/core/federated/clock-sync.c
+++ b/core/federated/clock-sync.c
@@ -351,6 +351,7 @@ void handle_T4_clock_sync_message(unsigned char* buffer, int socket, instant_t r
     if (read_failed || buffer[0] != MSG_TYPE_CLOCK_SYNC_CODED_PROBE) {
       lf_print_warning("Clock sync: Did not get the expected coded probe message from the RTI. "
                        "Skipping clock synchronization round.");
+      _lf_rti_socket_stat.received_T4_messages_in_current_sync_window--;
       return;
     }
     // Filter out noise.
-- 
2.43.0


From 892128de7450454b083d1aaeb43bd5dd7fe4b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:20 +0000
Subject: [PATCH 63/85] fix: avoid an integer overflow in the variance of clock
 synchronization delays

A round trip of more than about three seconds made the standard deviation negative, so that a window
of exchanges with extremely irregular delays was applied to the clock rather than rejected.
---
 core/federated/clock-sync.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/federated/clock-sync.c b/core/federated/clock-sync.c
index b67fdd0..ca2a61a 100644
--- a/core/federated/clock-sync.c
+++ b/core/federated/clock-sync.c
@@ -129,12 +129,15 @@ lf_stat_ll calculate_socket_stat(struct socket_stat_t* socket_stat) {
     }
     stats.average += socket_stat->network_stat_samples[i] / socket_stat->network_stat_sample_index;
   }
+  // The squares of delays of a few seconds exceed the range of a 64-bit integer.
+  long double variance = 0.0L;
   for (int i = 0; i < socket_stat->network_stat_sample_index; i++) {
     long long delta = socket_stat->network_stat_samples[i] - stats.average;
-    stats.variance += powl(delta, 2);
+    variance += powl(delta, 2);
   }
-  stats.variance /= socket_stat->network_stat_sample_index;
-  stats.standard_deviation = sqrtl(stats.variance);
+  variance /= socket_stat->network_stat_sample_index;
+  stats.variance = variance < (long double)INT64_MAX ? (int64_t)variance : INT64_MAX;
+  stats.standard_deviation = sqrtl(variance);
 
   return stats;
 }
-- 
2.43.0


From 15e1481a1e178dd9cf4d5057dd701008ee49bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:27 +0000
Subject: [PATCH 64/85] fix: do not overflow the trace buffers when the trace
 file cannot be written

---
 trace/impl/src/trace_impl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trace/impl/src/trace_impl.c b/trace/impl/src/trace_impl.c
index f819507..6815e0c 100644
--- a/trace/impl/src/trace_impl.c
+++ b/trace/impl/src/trace_impl.c
@@ -98,6 +98,7 @@ static void flush_trace_locked(trace_t* trace, int worker) {
     if (!trace->_lf_trace_header_written) {
       if (write_trace_header(trace) < 0) {
         lf_print_error("Failed to write trace header. Trace file will be incomplete.");
+        trace->_lf_trace_buffer_size[worker] = 0;
         return;
       }
       trace->_lf_trace_header_written = true;
@@ -119,8 +120,9 @@ static void flush_trace_locked(trace_t* trace, int worker) {
         trace->_lf_trace_file = NULL;
       }
     }
-    trace->_lf_trace_buffer_size[worker] = 0;
   }
+  // Reset the buffer even if it could not be written, because the caller relies on there being room in it.
+  trace->_lf_trace_buffer_size[worker] = 0;
 }
 
 /**
-- 
2.43.0


From b9f8f3e32ab0897dfac90a06f6ab8fa45325b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:42 +0000
Subject: [PATCH 65/85] fix: detect a thread id that is one beyond the last
 trace buffer

---
 trace/impl/src/trace_impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trace/impl/src/trace_impl.c b/trace/impl/src/trace_impl.c
index 6815e0c..3e34407 100644
--- a/trace/impl/src/trace_impl.c
+++ b/trace/impl/src/trace_impl.c
@@ -231,7 +231,7 @@ void lf_tracing_tracepoint(int worker, trace_record_nodeps_t* tr) {
     // Therefore we should fall back to using a mutex.
     lf_platform_mutex_lock(trace_mutex);
   }
-  if (tid > (int)trace._lf_number_of_trace_buffers) {
+  if (tid >= (int)trace._lf_number_of_trace_buffers) {
     lf_print_error_and_exit("the thread id (%d) exceeds the number of trace buffers (%zu)", tid,
                             trace._lf_number_of_trace_buffers);
   }
-- 
2.43.0


From d6980948cceb9ffae3838c93c7d766abef761830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:42 +0000
Subject: [PATCH 66/85] fix: count the watchdog threads when allocating the
 trace buffers

---
 core/reactor_common.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index fe60792..e5b6f07 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1124,6 +1124,9 @@ void initialize_global(void) {
   environment_t* envs;
   int num_envs = _lf_get_environments(&envs);
   int max_threads_tracing = envs[0].num_workers * num_envs + 1; // add 1 for the main thread
+  for (int i = 0; i < num_envs; i++) {
+    max_threads_tracing += envs[i].watchdogs_size; // add 1 for each watchdog thread
+  }
 #endif
 
 #if defined(FEDERATED)
-- 
2.43.0


From b371f5b8740efad151d10f5359f7126303416a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:42 +0000
Subject: [PATCH 67/85] fix: do not overflow the buffer for the name of the
 trace file

---
 trace/impl/src/trace_impl.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trace/impl/src/trace_impl.c b/trace/impl/src/trace_impl.c
index 3e34407..70d09c4 100644
--- a/trace/impl/src/trace_impl.c
+++ b/trace/impl/src/trace_impl.c
@@ -261,11 +261,11 @@ void lf_tracing_global_init(char* process_name, char* process_names, int fedid,
     exit(1);
   }
   process_id = fedid;
-  char filename[100];
+  char filename[TRACE_MAX_FILENAME_LENGTH];
   if (strcmp(process_name, "rti") == 0) {
-    sprintf(filename, "%s.lft", process_name);
+    snprintf(filename, sizeof(filename), "%s.lft", process_name);
   } else {
-    sprintf(filename, "%s_%d.lft", process_name, process_id);
+    snprintf(filename, sizeof(filename), "%s_%d.lft", process_name, process_id);
   }
   trace_new(filename);
   start_trace(&trace, max_num_local_threads);
-- 
2.43.0


From 2069548998e55c49c574e27788a9fc5ad2036a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:07 +0000
Subject: [PATCH 68/85] fix: do not attribute events of unregistered objects to
 the first one in the trace summary

---
 util/tracing/trace_to_csv.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/util/tracing/trace_to_csv.c b/util/tracing/trace_to_csv.c
index 1ddf4a9..d1a1f37 100644
--- a/util/tracing/trace_to_csv.c
+++ b/util/tracing/trace_to_csv.c
@@ -112,11 +112,13 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
     char* reactor_name = get_object_description(trace[i].pointer, &object_instance);
     if (reactor_name == NULL) {
       reactor_name = "NO REACTOR";
+      object_instance = -1;
     }
     int trigger_instance = -1;
     char* trigger_name = get_trigger_name(trace[i].trigger, &trigger_instance);
     if (trigger_name == NULL) {
       trigger_name = "NO TRIGGER";
+      trigger_instance = -1;
     }
     if ((trace[i].logical_time - start_time) >= trace_start_time &&
         (trace[i].logical_time - start_time) < trace_end_time) {
@@ -157,6 +159,10 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
           fprintf(stderr, "WARNING: Too many reactions. Not all will be shown in summary file.\n");
           continue;
         }
+        if (object_instance < 0) {
+          // No reactor. Do not report.
+          continue;
+        }
         stats = summary_stats[NUM_EVENT_TYPES + object_instance];
         stats->description = reactor_name;
         if (trace[i].dst_id >= stats->num_reactions_seen) {
@@ -189,12 +195,20 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
       case user_event:
         // Although these are not exec times and not reactions,
         // commandeer the first entry in the reactions array to track values.
+        if (object_instance < 0) {
+          // Not registered. Do not report.
+          continue;
+        }
         stats = summary_stats[NUM_EVENT_TYPES + object_instance];
         stats->description = reactor_name;
         break;
       case user_value:
         // Although these are not exec times and not reactions,
         // commandeer the first entry in the reactions array to track values.
+        if (object_instance < 0) {
+          // Not registered. Do not report.
+          continue;
+        }
         stats = summary_stats[NUM_EVENT_TYPES + object_instance];
         stats->description = reactor_name;
         rstats = &stats->reactions[0];
-- 
2.43.0


From 66da660e7e51fe8708e4f417d647b079ba3d7687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:07 +0000
Subject: [PATCH 69/85] fix: keep the statistics of all workers within bounds
 in the trace summary

---
 util/tracing/trace_to_csv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/tracing/trace_to_csv.c b/util/tracing/trace_to_csv.c
index d1a1f37..c038777 100644
--- a/util/tracing/trace_to_csv.c
+++ b/util/tracing/trace_to_csv.c
@@ -84,7 +84,7 @@ typedef struct summary_stats_t {
   const char* description;  // Description in the reaction table (e.g. reactor name).
   int occurrences;          // Number of occurrences of this description.
   int num_reactions_seen;
-  reaction_stats_t reactions[MAX_NUM_REACTIONS];
+  reaction_stats_t reactions[MAX_NUM_REACTIONS > MAX_NUM_WORKERS * 2 ? MAX_NUM_REACTIONS : MAX_NUM_WORKERS * 2];
 } summary_stats_t;
 
 /**
@@ -237,7 +237,7 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
             trace[i].event_type == scheduler_advancing_time_ends) {
           index++;
         }
-        if (object_table_size + index >= table_size) {
+        if (index < 0 || index >= MAX_NUM_WORKERS * 2) {
           fprintf(stderr, "WARNING: Too many workers. Not all will be shown in summary file.\n");
           continue;
         }
-- 
2.43.0


From 0551a03bbd995b663188ddac8cba3f4e74738862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:19 +0000
Subject: [PATCH 70/85] fix: do not pass half initialized microsteps to the
 tracing module

---
 core/tracepoint.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/tracepoint.c b/core/tracepoint.c
index b121be8..ab02751 100644
--- a/core/tracepoint.c
+++ b/core/tracepoint.c
@@ -67,16 +67,16 @@ void call_tracepoint(int event_type, void* reactor, tag_t tag, int worker, int s
     local_time = lf_time_physical();
     physical_time = &local_time;
   }
-  trace_record_t tr = {.event_type = event_type,
-                       .pointer = reactor,
-                       .src_id = src_id,
-                       .dst_id = dst_id,
-                       .logical_time = tag.time,
-                       .microstep = tag.microstep,
-                       .trigger = trigger,
-                       .extra_delay = extra_delay,
-                       .physical_time = *physical_time};
-  lf_tracing_tracepoint(worker, (trace_record_nodeps_t*)&tr);
+  trace_record_nodeps_t tr = {.event_type = event_type,
+                              .pointer = reactor,
+                              .src_id = src_id,
+                              .dst_id = dst_id,
+                              .logical_time = tag.time,
+                              .microstep = tag.microstep,
+                              .trigger = trigger,
+                              .extra_delay = extra_delay,
+                              .physical_time = *physical_time};
+  lf_tracing_tracepoint(worker, &tr);
 }
 
 /**
-- 
2.43.0


From afb62f69c407abd33c52888e03941a36408209fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:21 +0000
Subject: [PATCH 71/85] fix: trace also the events that are scheduled after a
 pending event of the same tag

---
 lib/schedule.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index 185f880..eec6012 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -240,6 +240,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
       }
       trigger->last_tag = intended_tag;
       pqueue_tag_insert(env->event_q, (pqueue_tag_element_t*)e);
+      tracepoint_schedule(env, trigger, e->base.tag.time - env->current_tag.time);
       return (0); // FIXME: return value
     }
     // If there are not conflicts, schedule as usual. If intended time is
-- 
2.43.0


From 323279aec07e3dcc07c8f99ccdf75f2d53054b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:31 +0000
Subject: [PATCH 72/85] fix: return NULL for wave files of an unsupported
 format, as documented

---
 util/wave_file_reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/util/wave_file_reader.c b/util/wave_file_reader.c
index e192ee2..1e0da4c 100644
--- a/util/wave_file_reader.c
+++ b/util/wave_file_reader.c
@@ -85,7 +85,11 @@ lf_waveform_t* read_wave_file(const char* path) {
     }
   }
 
-  fread(&wav, 1, sizeof(lf_wav_t), fp);
+  if (fread(&wav, 1, sizeof(lf_wav_t), fp) != sizeof(lf_wav_t)) {
+    fprintf(stderr, "WARNING: Waveform sample file is too short: %s\n", path);
+    fclose(fp);
+    return NULL;
+  }
 
   lf_wav_format_t fmt = wav.fmt;
   lf_wav_data_t data = wav.data;
@@ -109,6 +113,8 @@ lf_waveform_t* read_wave_file(const char* path) {
     fprintf(stderr, "Audio format was expected to be 1 (LPCM, no compression). Got: '%d'.\n", fmt.audio_format);
     fprintf(stderr, "Sample rate was expected to be 44100). Got: '%d'.\n", fmt.sample_rate);
     fprintf(stderr, "Bits per sample was expected to be 16. Got: '%d'.\n", fmt.bits_per_sample);
+    fclose(fp);
+    return NULL;
   }
   // Ignore any intermediate chunks that are not 'data' chunks.
   // Apparently, Apple software sometimes inserts junk here.
-- 
2.43.0


From 0ea0d8385eb2159cb5e93e460c5e6352f8e545b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:31 +0000
Subject: [PATCH 73/85] fix: skip chunks of any size, and their padding, before
 the data chunk of a wave file

---
 util/wave_file_reader.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util/wave_file_reader.c b/util/wave_file_reader.c
index 1e0da4c..439a523 100644
--- a/util/wave_file_reader.c
+++ b/util/wave_file_reader.c
@@ -120,17 +120,20 @@ lf_waveform_t* read_wave_file(const char* path) {
   // Apparently, Apple software sometimes inserts junk here.
   uint32_t expected_data_id = (uint32_t)'atad'; // Little-endian version of 'data'.
   while (*(uint32_t*)data.subchunk_id != expected_data_id) {
-    char junk[data.subchunk_size];
-    size_t bytes_read = fread(junk, 1, data.subchunk_size, fp);
-    if (bytes_read != data.subchunk_size) {
+    // A chunk of an odd size is followed by a padding byte. Skip in two steps because long may have 32 bits.
+    uint32_t half = data.subchunk_size / 2;
+    if (fseek(fp, (long)half, SEEK_CUR) != 0 ||
+        fseek(fp, (long)half + 2 * (long)(data.subchunk_size % 2), SEEK_CUR) != 0) {
       fprintf(stderr, "Intermediate junk chunk '%c%c%c%c' could not be read. Giving up.\n", data.subchunk_id[0],
               data.subchunk_id[1], data.subchunk_id[2], data.subchunk_id[3]);
-      break;
+      fclose(fp);
+      return NULL;
     }
-    bytes_read = fread(&data, 1, sizeof(lf_wav_data_t), fp);
+    size_t bytes_read = fread(&data, 1, sizeof(lf_wav_data_t), fp);
     if (bytes_read != sizeof(lf_wav_data_t)) {
       fprintf(stderr, "Missing 'data' chunk in file %s.\n", path);
-      break;
+      fclose(fp);
+      return NULL;
     }
   }
 
-- 
2.43.0


From b10754d1fb27d6eeefc49ff7466643e0a054aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:31 +0000
Subject: [PATCH 74/85] fix: close wave files after reading them and check for
 a failed allocation

---
 util/wave_file_reader.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/util/wave_file_reader.c b/util/wave_file_reader.c
index 439a523..b59250e 100644
--- a/util/wave_file_reader.c
+++ b/util/wave_file_reader.c
@@ -146,16 +146,29 @@ lf_waveform_t* read_wave_file(const char* path) {
   // printf("Data subchunk size \t%d\n", data.subchunk_size);
 
   lf_waveform_t* result = (lf_waveform_t*)malloc(sizeof(lf_waveform_t));
+  if (result == NULL) {
+    fprintf(stderr, "WARNING: Out of memory reading waveform sample file: %s\n", path);
+    fclose(fp);
+    return NULL;
+  }
   // printf("Size of lf_waveform_t %d", sizeof(lf_waveform_t));
   result->length = data.subchunk_size / 2; // Subchunk size is in bytes, but length is number of samples.
   result->num_channels = num_channels;
   result->waveform = (int16_t*)calloc(data.subchunk_size / 2, sizeof(int16_t));
+  if (result->waveform == NULL && data.subchunk_size / 2 > 0) {
+    fprintf(stderr, "WARNING: Out of memory reading waveform sample file: %s\n", path);
+    free(result);
+    fclose(fp);
+    return NULL;
+  }
 
   size_t bytes_read = fread(result->waveform, sizeof(int16_t), data.subchunk_size / 2, fp);
   if (bytes_read != data.subchunk_size / 2) {
     fprintf(stderr, "WARNING: Expected %d bytes, but got %zu.\n", data.subchunk_size, bytes_read);
   }
 
+  fclose(fp);
+
   // printf("duration \t%f\n", (data.subchunk_size * 1.0) / fmt.byte_rate);
   return result;
 }
-- 
2.43.0


From fa4d65cf0f8d8fdc79c6de0b2b3de4098cbb6bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:13 +0000
Subject: [PATCH 75/85] fix: do not release Python objects after the
 interpreter is finalized or without its lock

---
 python/lib/python_port.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/lib/python_port.c b/python/lib/python_port.c
index 62f4b47..1ec94f3 100644
--- a/python/lib/python_port.c
+++ b/python/lib/python_port.c
@@ -47,7 +47,16 @@ PyTypeObject py_port_capsule_t;
  * Python can free its memory.
  * @param py_object A PyObject with count 1 or greater.
  */
-void python_count_decrement(void* py_object) { Py_XDECREF((PyObject*)py_object); }
+void python_count_decrement(void* py_object) {
+  // When the program terminates, tokens are freed after the interpreter has been finalized.
+  if (!Py_IsInitialized()) {
+    return;
+  }
+  // The runtime may free tokens in a thread that does not hold the Global Interpreter Lock (GIL).
+  PyGILState_STATE gstate = PyGILState_Ensure();
+  Py_XDECREF((PyObject*)py_object);
+  PyGILState_Release(gstate);
+}
 
 //////////// set Function(s) /////////////
 /**
-- 
2.43.0


From 150183d70c333a75be6971a494ea169452bb32aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:08 +0000
Subject: [PATCH 76/85] fix: raise an IndexError for multiport indices that are
 out of range in the Python target

---
 python/lib/python_port.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/lib/python_port.c b/python/lib/python_port.c
index 1ec94f3..e8eb569 100644
--- a/python/lib/python_port.c
+++ b/python/lib/python_port.c
@@ -252,14 +252,16 @@ PyObject* py_port_capsule_get_item(PyObject* self, PyObject* key) {
     return NULL;
   }
 
-  generic_port_capsule_struct* pyport = (generic_port_capsule_struct*)self->ob_type->tp_new(self->ob_type, NULL, NULL);
-  long long index = -3;
-
-  index = PyLong_AsLong(key);
-  if (index == -3) {
-    PyErr_Format(PyExc_TypeError, "Multiport indices must be integers, not %.200s", Py_TYPE(key)->tp_name);
+  long long index = PyLong_AsLongLong(key);
+  if (index == -1 && PyErr_Occurred()) {
     return NULL;
   }
+  if (index < 0 || index >= port->width) {
+    PyErr_Format(PyExc_IndexError, "Multiport index %lld is out of range for width %d", index, port->width);
+    return NULL;
+  }
+
+  generic_port_capsule_struct* pyport = (generic_port_capsule_struct*)self->ob_type->tp_new(self->ob_type, NULL, NULL);
 
   generic_port_instance_struct** cport = (generic_port_instance_struct**)PyCapsule_GetPointer(port->port, "port");
   if (cport == NULL) {
-- 
2.43.0


From 61f7230490369577d2b979429aca52e35a9d8ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:08 +0000
Subject: [PATCH 77/85] fix: return a new reference from the subscript of a
 Python port that is not a multiport

---
 python/lib/python_port.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lib/python_port.c b/python/lib/python_port.c
index e8eb569..622e9e2 100644
--- a/python/lib/python_port.c
+++ b/python/lib/python_port.c
@@ -244,6 +244,7 @@ PyObject* py_port_capsule_get_item(PyObject* self, PyObject* key) {
 
   // Port is not a multiport
   if (port->width == -2) {
+    Py_INCREF(self);
     return self;
   }
 
-- 
2.43.0


From 8142c2e44206b04bbb82ea15ad16234be3412115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:08 +0000
Subject: [PATCH 78/85] fix: do not allocate Python objects of types without
 garbage collection as garbage collected

---
 python/lib/modal_models/impl.c | 2 +-
 python/lib/python_tag.c        | 2 +-
 python/lib/pythontarget.c      | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/lib/modal_models/impl.c b/python/lib/modal_models/impl.c
index c8cdff1..89a9bf3 100644
--- a/python/lib/modal_models/impl.c
+++ b/python/lib/modal_models/impl.c
@@ -109,7 +109,7 @@ void initialize_mode_capsule_t(PyObject* current_module) {
  */
 PyObject* convert_C_mode_to_py(reactor_mode_t* mode, self_base_t* lf_self, lf_mode_change_type_t change_type) {
   // Create the mode struct in Python
-  mode_capsule_struct_t* cap = (mode_capsule_struct_t*)PyObject_GC_New(mode_capsule_struct_t, &mode_capsule_t);
+  mode_capsule_struct_t* cap = (mode_capsule_struct_t*)PyObject_New(mode_capsule_struct_t, &mode_capsule_t);
   if (cap == NULL) {
     lf_print_error_and_exit("Failed to convert mode.");
   }
diff --git a/python/lib/python_tag.c b/python/lib/python_tag.c
index 991f94f..ccb834b 100644
--- a/python/lib/python_tag.c
+++ b/python/lib/python_tag.c
@@ -191,7 +191,7 @@ PyTypeObject PyTagType = {
  * @return PyObject* The tag in Python.
  */
 py_tag_t* convert_C_tag_to_py(tag_t c_tag) {
-  py_tag_t* py_tag = PyObject_GC_New(py_tag_t, &PyTagType);
+  py_tag_t* py_tag = PyObject_New(py_tag_t, &PyTagType);
   if (py_tag == NULL) {
     lf_print_error_and_exit("Failed to convert tag from C to Python.");
   }
diff --git a/python/lib/pythontarget.c b/python/lib/pythontarget.c
index 8e41f40..8550bc1 100644
--- a/python/lib/pythontarget.c
+++ b/python/lib/pythontarget.c
@@ -445,7 +445,7 @@ void destroy_action_capsule(PyObject* capsule) { free(PyCapsule_GetPointer(capsu
  */
 PyObject* convert_C_port_to_py(void* port, int width) {
   // Create the port struct in Python
-  PyObject* cap = (PyObject*)PyObject_GC_New(generic_port_capsule_struct, &py_port_capsule_t);
+  PyObject* cap = (PyObject*)PyObject_New(generic_port_capsule_struct, &py_port_capsule_t);
   if (cap == NULL) {
     lf_print_error_and_exit("Failed to convert port.");
   }
@@ -512,7 +512,7 @@ PyObject* convert_C_action_to_py(void* action) {
   trigger_t* trigger = ((lf_action_base_t*)action)->trigger;
 
   // Create the action struct in Python
-  PyObject* cap = (PyObject*)PyObject_GC_New(generic_action_capsule_struct, &py_action_capsule_t);
+  PyObject* cap = (PyObject*)PyObject_New(generic_action_capsule_struct, &py_action_capsule_t);
   if (cap == NULL) {
     lf_print_error_and_exit("Failed to convert action.");
   }
-- 
2.43.0


From 40ed587e4e555ba9424f54b8d95a8c4a612cd014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:08 +0000
Subject: [PATCH 79/85] fix: initialize the value of Python actions without a
 token

---
 python/lib/pythontarget.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lib/pythontarget.c b/python/lib/pythontarget.c
index 8550bc1..0706cf3 100644
--- a/python/lib/pythontarget.c
+++ b/python/lib/pythontarget.c
@@ -542,8 +542,12 @@ PyObject* convert_C_action_to_py(void* action) {
   }
 
   // Actions in Python always use token type
-  if (((generic_action_instance_struct*)action)->token != NULL)
+  if (((generic_action_instance_struct*)action)->token != NULL) {
     ((generic_action_capsule_struct*)cap)->value = ((generic_action_instance_struct*)action)->token->value;
+  } else {
+    Py_INCREF(Py_None);
+    ((generic_action_capsule_struct*)cap)->value = Py_None;
+  }
 
   return cap;
 }
-- 
2.43.0


From 9c103f90d5c6b226e3d1d12ed619a7454cb5630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:09 +0000
Subject: [PATCH 80/85] fix: do not overwrite the present value of a Python
 action, nor drop a value, when scheduling it

---
 python/lib/pythontarget.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/python/lib/pythontarget.c b/python/lib/pythontarget.c
index 0706cf3..b491855 100644
--- a/python/lib/pythontarget.c
+++ b/python/lib/pythontarget.c
@@ -88,15 +88,13 @@ PyObject* py_schedule(PyObject* self, PyObject* args) {
     exit(1);
   }
 
-  trigger_t* trigger = action->trigger;
   lf_token_t* t = NULL;
 
-  // Check to see if value exists and token is not NULL
-  if (value && (trigger->tmplt.token != NULL)) {
-    // DEBUG: adjust the element_size (might not be necessary)
-    trigger->tmplt.token->type->element_size = sizeof(PyObject*);
-    trigger->tmplt.type.element_size = sizeof(PyObject*);
-    t = _lf_initialize_token_with_value(&trigger->tmplt, value, 1);
+  // Check to see if value exists
+  if (value) {
+    // Use a new token, because the one of the trigger's template holds the value that the action has at the current
+    // tag (or is NULL if the action had no value when it was last present).
+    t = lf_new_token((void*)action, value, 1);
 
     // Also give the new value back to the Python action itself
     Py_INCREF(value);
-- 
2.43.0


From 06c641b70a25dcf426e3d1acf4aef1baa016e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:22 +0000
Subject: [PATCH 81/85] fix: execute STP violation handlers like the reactions
 they replace

---
 core/reactor_common.c            | 15 ++++++++++++---
 core/threaded/reactor_threaded.c |  2 +-
 include/core/reactor_common.h    | 11 +++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index e5b6f07..d5fca00 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -702,7 +702,8 @@ void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker) {
 #endif
 }
 
-void _lf_invoke_deadline_handler(environment_t* env, reaction_t* reaction) {
+/** Invoke a handler of the given reaction in place of the reaction itself. */
+static void invoke_handler(environment_t* env, reaction_t* reaction, reaction_function_t handler) {
   assert(env != GLOBAL_ENVIRONMENT);
   self_base_t* self = (self_base_t*)reaction->self;
 
@@ -713,7 +714,7 @@ void _lf_invoke_deadline_handler(environment_t* env, reaction_t* reaction) {
 #endif
 
   self->executing_reaction = reaction;
-  reaction->deadline_violation_handler(self);
+  handler(self);
   self->executing_reaction = NULL;
 
 #if !defined(LF_SINGLE_THREADED)
@@ -723,6 +724,14 @@ void _lf_invoke_deadline_handler(environment_t* env, reaction_t* reaction) {
 #endif
 }
 
+void _lf_invoke_deadline_handler(environment_t* env, reaction_t* reaction) {
+  invoke_handler(env, reaction, reaction->deadline_violation_handler);
+}
+
+void _lf_invoke_STP_handler(environment_t* env, reaction_t* reaction) {
+  invoke_handler(env, reaction, reaction->STP_handler);
+}
+
 /**
  * For the specified reaction, if it has produced outputs, insert the
  * resulting triggered reactions into the reaction queue.
@@ -841,7 +850,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         // to downstream reactions.
         violation = true;
         LF_PRINT_LOG("Invoke tardiness handler.");
-        (*handler)(downstream_to_execute_now->self);
+        _lf_invoke_STP_handler(env, downstream_to_execute_now);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index e053a88..ce68e56 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -748,7 +748,7 @@ bool _lf_worker_handle_STP_violation_for_reaction(environment_t* env, int worker
       LF_PRINT_LOG("Worker %d: Invoking STP violation handler.", worker_number);
       // There is a violation
       violation_occurred = true;
-      (*handler)(reaction->self);
+      _lf_invoke_STP_handler(env, reaction);
 
       // Reset the STP violation flag because it has been dealt with.
       // Downstream handlers should not be invoked.
diff --git a/include/core/reactor_common.h b/include/core/reactor_common.h
index 41771a4..8ff275b 100644
--- a/include/core/reactor_common.h
+++ b/include/core/reactor_common.h
@@ -275,6 +275,17 @@ void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker);
  * @param reaction The reaction whose deadline was missed.
  */
 void _lf_invoke_deadline_handler(environment_t* env, reaction_t* reaction);
+
+/**
+ * @brief Invoke the STP violation handler of the given reaction, which must have one.
+ *
+ * Like the reaction itself, the handler executes with the reaction recorded as the executing reaction of its
+ * reactor and in mutual exclusion with the watchdogs of its reactor.
+ *
+ * @param env The environment in which we are executing.
+ * @param reaction The reaction with an STP violation.
+ */
+void _lf_invoke_STP_handler(environment_t* env, reaction_t* reaction);
 void schedule_output_reactions(environment_t* env, reaction_t* reaction, int worker);
 int process_args(int argc, const char* argv[]);
 
-- 
2.43.0


From dd635b98d4868593ab811a7248936cebbe1e2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:22 +0000
Subject: [PATCH 82/85] fix: keep an STP violation of one input when another
 input is on time

---
 core/reactor_common.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index d5fca00..4cc361c 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -771,8 +771,9 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
             reaction_t* downstream_reaction = trigger->reactions[k];
 #ifdef FEDERATED_DECENTRALIZED // Only pass down tardiness for federated LF programs
             // Set the is_STP_violated for the downstream reaction
-            if (downstream_reaction != NULL) {
-              downstream_reaction->is_STP_violated = inherited_STP_violation;
+            // Do not clear a violation that it has inherited from another reaction.
+            if (downstream_reaction != NULL && inherited_STP_violation) {
+              downstream_reaction->is_STP_violated = true;
               LF_PRINT_DEBUG("Passing is_STP_violated of %d to the downstream reaction: %s",
                              downstream_reaction->is_STP_violated, downstream_reaction->name);
             }
-- 
2.43.0


From a0dc6e4df4824555c7bd7c2bf1c1c806d909066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:22 +0000
Subject: [PATCH 83/85] fix: do not pass on an STP violation that a directly
 executed handler has dealt with

---
 core/reactor_common.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 4cc361c..28977c2 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -853,14 +853,14 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         LF_PRINT_LOG("Invoke tardiness handler.");
         _lf_invoke_STP_handler(env, downstream_to_execute_now);
 
-        // If the reaction produced outputs, put the resulting
-        // triggered reactions into the queue or execute them directly if possible.
-        schedule_output_reactions(env, downstream_to_execute_now, worker);
-
         // Reset the tardiness because it has been dealt with in the
-        // STP handler
+        // STP handler. Downstream handlers should not be invoked.
         downstream_to_execute_now->is_STP_violated = false;
         LF_PRINT_DEBUG("Reset reaction's is_STP_violated field to false: %s", downstream_to_execute_now->name);
+
+        // If the reaction produced outputs, put the resulting
+        // triggered reactions into the queue or execute them directly if possible.
+        schedule_output_reactions(env, downstream_to_execute_now, worker);
       }
     }
 #endif
-- 
2.43.0


From ad946ec1cbac2037c9dbee5e68cfdb0ca21af70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:15 +0000
Subject: [PATCH 84/85] fix: do not let a message that arrives alter the
 intended tag that reactions see

---
 core/federated/federate.c | 10 +++++-----
 core/reactor_common.c     |  2 +-
 include/core/lf_types.h   |  2 ++
 lib/schedule.c            |  2 +-
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index ef707f0..58988f9 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -367,9 +367,9 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
   // in the future relative to the tag of this
   // federate. By default, assume it is not.
   bool message_tag_is_in_the_future = lf_tag_compare(tag, env->current_tag) > 0;
-  // Assign the intended tag temporarily to restore later.
-  tag_t previous_intended_tag = trigger->intended_tag;
-  trigger->intended_tag = tag;
+  // Provide the intended tag for the event. Do not alter the intended_tag of the trigger
+  // because a reaction to a previous message could be executing and reading it.
+  trigger->network_intended_tag = &tag;
 
   // Calculate the extra_delay required to be passed
   // to the schedule function.
@@ -389,7 +389,7 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
     // Set the delay back to 0
     extra_delay = 0LL;
     LF_PRINT_LOG("Calling schedule with 0 delay and intended tag " PRINTF_TAG ".",
-                 trigger->intended_tag.time - start_time, trigger->intended_tag.microstep);
+                 tag.time - start_time, tag.microstep);
     return_value = lf_schedule_trigger(env, trigger, extra_delay, token);
 #endif
   } else {
@@ -400,7 +400,7 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
                  extra_delay, tag.microstep - env->current_tag.microstep);
     return_value = _lf_schedule_at_tag(env, trigger, tag, token);
   }
-  trigger->intended_tag = previous_intended_tag;
+  trigger->network_intended_tag = NULL;
   // Notify the main thread in case it is waiting for physical time to elapse.
   LF_PRINT_DEBUG("Broadcasting notification that event queue changed.");
   lf_cond_broadcast(&env->event_q_changed);
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 28977c2..1e65915 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -516,7 +516,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
 
 #ifdef FEDERATED_DECENTRALIZED
   // Set the intended tag
-  e->intended_tag = trigger->intended_tag;
+  e->intended_tag = trigger->network_intended_tag ? *trigger->network_intended_tag : trigger->intended_tag;
 #endif
 
   event_t* found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e);
diff --git a/include/core/lf_types.h b/include/core/lf_types.h
index b6d754c..82304ee 100644
--- a/include/core/lf_types.h
+++ b/include/core/lf_types.h
@@ -241,6 +241,8 @@ struct trigger_t {
                                // trigger time of this trigger and the actual trigger time. This currently
                                // can only happen when logical connections are used using a decentralized coordination
                                // mechanism (@see https://github.com/icyphy/lingua-franca/wiki/Logical-Connections).
+  tag_t* network_intended_tag; // The intended tag of the network message that is being scheduled, or NULL if none is.
+                               // This is not stored in intended_tag because reactions could be reading that.
   instant_t physical_time_of_arrival; // The physical time at which the message has been received on the network
                                       // according to the local clock. Note: The physical_time_of_arrival is only passed
                                       // down one level of the hierarchy. Default: NEVER.
diff --git a/lib/schedule.c b/lib/schedule.c
index eec6012..b29e814 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -215,7 +215,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
 #ifdef FEDERATED_DECENTRALIZED
   // Event inherits the original intended_tag of the trigger
   // set by the network stack (or the default, which is (NEVER,0))
-  e->intended_tag = trigger->intended_tag;
+  e->intended_tag = trigger->network_intended_tag ? *trigger->network_intended_tag : trigger->intended_tag;
 #endif
 
   // Check for conflicts (a queued event with the same trigger and tag).
-- 
2.43.0


From cb5ddb21c7b94e603d9cbcd607b3197369ed699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:54 +0000
Subject: [PATCH 85/85] fix: name the sender, not the receiver, in the trace
 record of a message received on a physical connection

---
 core/federated/federate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 58988f9..594d773 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -516,7 +516,7 @@ static int handle_message(int* socket, int fed_id) {
     return -1;
   }
   // Trace the event when tracing is enabled
-  tracepoint_federate_from_federate(receive_P2P_MSG, _lf_my_fed_id, federate_id, NULL);
+  tracepoint_federate_from_federate(receive_P2P_MSG, _lf_my_fed_id, fed_id, NULL);
   LF_PRINT_LOG("Message received by federate: %s. Length: %zu.", message_contents, length);
 
   LF_PRINT_DEBUG("Calling schedule for message received on a physical connection.");
-- 
2.43.0

