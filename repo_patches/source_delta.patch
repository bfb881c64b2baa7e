From e09b00c2a162db22fcee7b88f509e6325f8a171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:25 +0000
Subject: [PATCH 01/50] fix: queue piled-up events through the common path

When an event with the same trigger and tag was already queued,
lf_schedule_trigger returned 0 (meaning that no event was created) although it
had queued one, and did not release the token when the new tag was past the
stop tag.
---
 lib/schedule.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index 1683523..9f7ee9c 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -208,16 +208,6 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
         e->base.tag = intended_tag;
         found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e);
       }
-      if (lf_is_tag_after_stop_tag(env, intended_tag)) {
-        LF_PRINT_DEBUG("Attempt to schedule an event after stop_tag was rejected.");
-        // Scheduling an event will incur a microstep
-        // after the stop tag.
-        lf_recycle_event(env, e);
-        return 0;
-      }
-      trigger->last_tag = intended_tag;
-      pqueue_tag_insert(env->event_q, (pqueue_tag_element_t*)e);
-      return (0); // FIXME: return value
     }
     // If there are not conflicts, schedule as usual. If intended time is
     // equal to the current logical time, the event will effectively be
-- 
2.43.0


From 83c7776d5ba1347f82d56d38f2e6afbfd976bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:43 +0000
Subject: [PATCH 02/50] fix: release the references of newly allocated tokens

When the template's token is in use, _lf_get_token returns a new token with a
reference count of 1. lf_schedule_value and lf_schedule_copy never released that
reference, and lf_set and lf_set_array overwrote the port's token without
releasing the reference to the previous one, so tokens and payloads leaked.
---
 core/lf_token.c               |  7 +++++++
 include/api/reaction_macros.h |  6 +++---
 include/core/lf_token.h       | 10 ++++++++++
 lib/schedule.c                |  8 ++++++++
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index b97a3b3..2308bdf 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -350,6 +350,13 @@ void _lf_replace_template_token(token_template_t* tmplt, lf_token_t* newtoken) {
   }
 }
 
+void _lf_set_template_token(token_template_t* tmplt, lf_token_t* newtoken) {
+  if (tmplt->token != newtoken) {
+    _lf_done_using(tmplt->token);
+    tmplt->token = newtoken;
+  }
+}
+
 token_freed _lf_done_using(lf_token_t* token) {
   if (token == NULL) {
     return NOT_FREED;
diff --git a/include/api/reaction_macros.h b/include/api/reaction_macros.h
index 52c39e1..a517594 100644
--- a/include/api/reaction_macros.h
+++ b/include/api/reaction_macros.h
@@ -77,7 +77,7 @@
       /* The cast "*((void**) &out->value)" is a hack to make the code */                                              \
       /* compile with non-token types where value is not a pointer. */                                                 \
       lf_token_t* token = _lf_initialize_token_with_value((token_template_t*)out, *((void**)&out->value), 1);          \
-      out->token = token;                                                                                              \
+      _lf_set_template_token((token_template_t*)out, token);                                                           \
     }                                                                                                                  \
   } while (0)
 
@@ -98,7 +98,7 @@
   do {                                                                                                                 \
     lf_set_present(out);                                                                                               \
     lf_token_t* token = _lf_initialize_token_with_value((token_template_t*)out, val, len);                             \
-    out->token = token;                                                                                                \
+    _lf_set_template_token((token_template_t*)out, token);                                                             \
     out->value = token->value;                                                                                         \
     out->length = len;                                                                                                 \
   } while (0)
@@ -107,7 +107,7 @@
   do {                                                                                                                 \
     lf_set_present(out);                                                                                               \
     lf_token_t* token = _lf_initialize_token_with_value((token_template_t*)out, val, len);                             \
-    out->token = token;                                                                                                \
+    _lf_set_template_token((token_template_t*)out, token);                                                             \
     out->value = static_cast<decltype(out->value)>(token->value);                                                      \
     out->length = len;                                                                                                 \
   } while (0)
diff --git a/include/core/lf_token.h b/include/core/lf_token.h
index 49069fa..61cb94c 100644
--- a/include/core/lf_token.h
+++ b/include/core/lf_token.h
@@ -309,6 +309,16 @@ void _lf_free_all_tokens();
  */
 void _lf_replace_template_token(token_template_t* tmplt, lf_token_t* newtoken);
 
+/**
+ * @brief Store in the specified template a token just obtained for it by
+ * `_lf_initialize_token_with_value` or `_lf_initialize_token`.
+ * If this is a new token, the template takes over the reference with which it was
+ * created, and the reference of the template to its previous token is released.
+ * @param tmplt Pointer to a template. // template is a C++ keyword.
+ * @param newtoken The token obtained.
+ */
+void _lf_set_template_token(token_template_t* tmplt, lf_token_t* newtoken);
+
 /**
  * Decrement the reference count of the specified token.
  * If the reference count hits 0, free the memory for the value
diff --git a/lib/schedule.c b/lib/schedule.c
index 9f7ee9c..2e49bf9 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -61,6 +61,10 @@ trigger_handle_t lf_schedule_copy(void* action, interval_t offset, void* value,
   memcpy(token->value, value, template->type.element_size * length);
   // The schedule function will increment the reference count.
   trigger_handle_t result = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, offset, token);
+  if (token != template->token) {
+    // A new token has a reference count of 1, and only the event queue uses it.
+    _lf_done_using(token);
+  }
   // Notify the main thread in case it is waiting for physical time to elapse.
   lf_notify_of_event(env);
   LF_CRITICAL_SECTION_EXIT(env);
@@ -79,6 +83,10 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
   LF_CRITICAL_SECTION_ENTER(env);
   lf_token_t* token = _lf_initialize_token_with_value(template, value, length);
   int return_value = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, extra_delay, token);
+  if (token != template->token) {
+    // A new token has a reference count of 1, and only the event queue uses it.
+    _lf_done_using(token);
+  }
   // Notify the main thread in case it is waiting for physical time to elapse.
   lf_notify_of_event(env);
   LF_CRITICAL_SECTION_EXIT(env);
-- 
2.43.0


From eb957db5be2fb8444c4ff6a1be494465690bfc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 03/50] fix: do not execute a queued reaction a second time

schedule_output_reactions executes the only downstream reaction directly, even
if a timer or an action had already put it on the reaction queue, so that it
executed twice at the same tag.
---
 core/reactor_common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 358480e..10847f0 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -756,7 +756,10 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               // avoids acquiring a mutex lock.
               // FIXME: Check the earliest deadline on the reaction queue.
               // This optimization could violate EDF scheduling otherwise.
-              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction) {
+              // A reaction that is already queued at this tag (because a timer or an action
+              // triggers it too) has to be left to the queue, or it would execute twice.
+              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction &&
+                  downstream_reaction->status == inactive) {
                 // So far, this downstream reaction is a candidate to execute now.
                 downstream_to_execute_now = downstream_reaction;
               } else {
-- 
2.43.0


From 87b8811dc9478301d4f38cc2ee2e6e69fcd8c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 04/50] fix: keep the tags of physical actions after the
 current tag

A physical action that is scheduled when physical time has not passed the
current tag got a tag in the past if the microstep is nonzero, which is a fatal
error later, or the same tag as a preceding event of the action.
---
 lib/schedule.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index 2e49bf9..b0e2691 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -179,6 +179,11 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // Get the current physical time and assign it as the intended time.
     intended_tag.time = lf_time_physical() + delay;
     intended_tag.microstep = 0;
+    // Physical time may not have passed the current tag (which may have a nonzero microstep),
+    // but the event has to be later than the current tag.
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+      intended_tag = lf_delay_tag(env->current_tag, 0);
+    }
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
 // See reactor_threaded.
-- 
2.43.0


From 8b0c87140070a771a2089f3843ce0181852fa0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 05/50] fix: do not advance past the barrier of a stop request

In unfederated programs, lf_request_stop() raises a barrier on the tag that
nothing waited for. When called outside reactions, the tag could advance beyond
the stop tag before that was set, after which no shutdown reaction executed.
---
 core/threaded/reactor_threaded.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 82dd2b6..291f3bd 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -416,20 +416,19 @@ void _lf_next_locked(environment_t* env) {
                  ". This should be small unless -fast is used.",
                  lf_time_physical() - next_tag.time);
 
-#ifdef FEDERATED
   // In federated execution (at least under decentralized coordination),
   // it is possible that an incoming message has been partially read,
   // enough to see its tag. To prevent it from becoming tardy, the thread
   // that is reading the message has set a barrier to prevent logical time
   // from exceeding the timestamp of the message. It will remove that barrier
   // once the complete message has been read. Also, if a federate requests
-  // to stop exeuction barriers will used while reaching a consensus.
+  // to stop exeuction barriers will used while reaching a consensus. In unfederated execution,
+  // lf_request_stop() uses a barrier until it has set the stop tag, which this must not pass.
   // Here, we wait for that barrier to be removed, if appropriate.
   if (_lf_wait_on_tag_barrier(env, next_tag)) {
     // A wait actually occurred, so the next_tag may have changed again.
     next_tag = get_next_event_tag(env);
   }
-#endif // FEDERATED
 
   // If the first event in the event queue has a tag greater than or equal to the
   // stop time, and the current tag matches the stop tag (meaning that we have already
-- 
2.43.0


From 1f898323914e25bcd4ab1ad5db572f1bedca3efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:04 +0000
Subject: [PATCH 06/50] fix: keep the adaptive scheduler's reaction counters
 nonnegative

Taking a reaction decremented the counter below zero for a moment. With the
32-bit atomic operation on a size_t, another worker could see a huge number
and fail an assertion in builds with assertions.
---
 core/threaded/scheduler_adaptive.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 5a926ab..73b52a3 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -206,16 +206,9 @@ static void worker_assignments_free(lf_scheduler_t* scheduler) {
  */
 static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
   worker_assignments_t* worker_assignments = scheduler->custom_data->worker_assignments;
-#ifndef FEDERATED
-  int index = lf_atomic_add_fetch(worker_assignments->num_reactions_by_worker + worker, -1);
-  if (index >= 0) {
-    return worker_assignments->reactions_by_worker[worker][index];
-  }
-  worker_assignments->num_reactions_by_worker[worker] = 0;
-  return NULL;
-#else
-  // This is necessary for federated programs because reactions may be inserted into the current
-  // level.
+  // The counter must never be decremented below zero, not even temporarily: another worker that looks
+  // at it in the meantime would see (part of) a negative number. Moreover, in federated programs,
+  // reactions may be inserted into the current level.
   int old_num_reactions;
   int current_num_reactions = worker_assignments->num_reactions_by_worker[worker];
   int index;
@@ -227,7 +220,6 @@ static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
                 lf_atomic_val_compare_and_swap(worker_assignments->num_reactions_by_worker + worker, old_num_reactions,
                                                (index = old_num_reactions - 1))) != old_num_reactions);
   return worker_assignments->reactions_by_worker[worker][index];
-#endif
 }
 
 /**
-- 
2.43.0


From b98bb7dd53cf978c925c78202007b4b20f6f5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 07/50] fix: release the tokens of events left at termination

---
 core/modal_models/modes.c | 1 +
 core/reactor_common.c     | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 42c35a6..ecc3ddc 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -520,6 +520,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
 void _lf_terminate_modal_reactors(environment_t* env) {
   _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
   while (suspended_event != NULL) {
+    _lf_done_using(suspended_event->event->token);
     lf_recycle_event(env, suspended_event->event);
     _lf_suspended_event_t* next = suspended_event->next;
     free(suspended_event);
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 10847f0..55f539b 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1171,6 +1171,11 @@ void termination(void) {
         event_t* event = (event_t*)pqueue_tag_peek(env[i].event_q);
         lf_print_warning("---- The first future event has timestamp " PRINTF_TAG " after start tag.",
                          event->base.tag.time - start_time, event->base.tag.microstep);
+        // Release the tokens of these events.
+        while ((event = (event_t*)pqueue_tag_pop(env[i].event_q)) != NULL) {
+          _lf_done_using(event->token);
+          lf_recycle_event(&env[i], event);
+        }
       }
       // Print elapsed times.
       // If these are negative, then the program failed to start up.
-- 
2.43.0


From 8b9ae7156d36cb440b0a2973e2071976d539b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 08/50] fix: run the shutdown reactions of a mode entered at
 the stop tag

---
 core/reactor_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 55f539b..aa4e937 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -446,6 +446,8 @@ void _lf_trigger_shutdown_reactions(environment_t* env) {
   }
 #ifdef MODAL_REACTORS
   if (env->modes) {
+    // A mode that is entered at this very tag has its startup at this tag.
+    _lf_handle_mode_triggered_reactions(env);
     _lf_handle_mode_shutdown_reactions(env, env->shutdown_reactions, env->shutdown_reactions_size);
   }
 #endif
-- 
2.43.0


From 9a7e0f3a1c62c639979678b1c8bf928cb7e274a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 09/50] fix: trigger the startup of modes that become active
 with their parent

---
 core/modal_models/modes.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index ecc3ddc..a7097c2 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -443,11 +443,6 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           // Apply transition
           state->current_mode = state->next_mode;
 
-          // Trigger startup reactions if entered first time
-          if (!(state->current_mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP)) {
-            state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_STARTUP;
-          }
-
           // Trigger reset reactions
           if (state->mode_change == reset_transition) {
             state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_RESET;
@@ -467,6 +462,11 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           // then set active flag on active mode
           state->current_mode->flags |= _LF_MODE_FLAG_MASK_ACTIVE;
 
+          // Trigger startup reactions if active for the first time
+          if (!(state->current_mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP)) {
+            state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_STARTUP;
+          }
+
           // Register execution of special triggers
           // This is not done when setting the flag because actual triggering
           // might be delayed by parent mode inactivity.
-- 
2.43.0


From feecca1c8346e2664eafe021aceb4a96ef38a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 10/50] fix: keep or discard the pending events of modes when
 entering them

Suspended events are kept with the delay they had left and resumed when
their mode is active again, also if it becomes active with its parent.
A reset entry discards all pending events of the mode, also if it is
entered from itself, and restarts each of its timers once.
---
 core/modal_models/modes.c | 177 ++++++++++++++++++++++----------------
 core/reactor_common.c     |   2 +-
 2 files changed, 104 insertions(+), 75 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index a7097c2..d852d4e 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -73,6 +73,7 @@ _lf_suspended_event_t* _lf_unsused_suspended_events_head =
 
 /**
  * Save the given event as suspended.
+ * The tag of a suspended event is the delay that was left when it was suspended.
  */
 void _lf_add_suspended_event(event_t* event) {
   _lf_suspended_event_t* new_suspended_event;
@@ -317,6 +318,95 @@ void _lf_handle_mode_shutdown_reactions(environment_t* env, reaction_t** shutdow
   }
 }
 
+/**
+ * Pull all events that are associated with the given mode, or, if the given mode is NULL, with any
+ * inactive mode, from the event queue and suspend them with the delay that they have left.
+ *
+ * @param mode The mode or NULL for all inactive modes.
+ */
+static void _lf_suspend_events(environment_t* env, reactor_mode_t* mode) {
+  size_t q_size = env->event_q != NULL ? pqueue_tag_size(env->event_q) : 0;
+  if (q_size == 0) {
+    return;
+  }
+  event_t** delayed_removal = (event_t**)calloc(q_size, sizeof(event_t*));
+  size_t delayed_removal_count = 0;
+
+  // Find events
+  for (size_t i = 0; i < q_size; i++) {
+    event_t* event = (event_t*)env->event_q->d[i + 1]; // internal queue data structure omits index 0
+    if (event != NULL && event->trigger != NULL &&
+        (mode != NULL ? event->trigger->mode == mode : !_lf_mode_is_active(event->trigger->mode))) {
+      delayed_removal[delayed_removal_count++] = event;
+    }
+  }
+
+  // Events are removed delayed in order to allow linear iteration over the queue
+  for (size_t i = 0; i < delayed_removal_count; i++) {
+    event_t* event = delayed_removal[i];
+    pqueue_tag_remove(env->event_q, (pqueue_tag_element_t*)event);
+    if (event->base.tag.time == env->current_tag.time) {
+      event->base.tag.microstep -= env->current_tag.microstep;
+    }
+    event->base.tag.time -= env->current_tag.time;
+    _lf_add_suspended_event(event);
+  }
+  LF_PRINT_DEBUG("Modes: Pulled %zu events from the event queue to suspend them. %d events are now suspended.",
+                 delayed_removal_count, _lf_suspended_events_num);
+  free(delayed_removal);
+}
+
+/**
+ * Put all suspended events that are associated with a mode that is now active back on the event queue,
+ * with the delay that they had left when they were suspended.
+ */
+static void _lf_resume_events(environment_t* env) {
+  _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
+  while (suspended_event != NULL) {
+    event_t* event = suspended_event->event;
+    if (!_lf_mode_is_active(event->trigger->mode)) {
+      suspended_event = suspended_event->next;
+      continue;
+    }
+    tag_t delay = event->base.tag;
+    tag_t tag = {.time = lf_time_add(env->current_tag.time, delay.time), .microstep = delay.microstep};
+    if (delay.time == 0) {
+      // The earliest possible tag is in the next microstep.
+      tag.microstep = env->current_tag.microstep + (delay.microstep > 0 ? delay.microstep : 1);
+    }
+    LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME ".", delay.time);
+    if (lf_is_tag_after_stop_tag(env, tag)) {
+      _lf_done_using(event->token);
+      lf_recycle_event(env, event);
+    } else {
+      event->base.tag = tag;
+      if (lf_tag_compare(tag, event->trigger->last_tag) > 0) {
+        event->trigger->last_tag = tag;
+      }
+      pqueue_tag_insert(env->event_q, (pqueue_tag_element_t*)event);
+      tracepoint_schedule(env, event->trigger, delay.time);
+    }
+    suspended_event = _lf_remove_suspended_event(suspended_event);
+  }
+}
+
+/**
+ * Discard all suspended events that are associated with the given mode.
+ */
+static void _lf_discard_suspended_events(environment_t* env, reactor_mode_t* mode) {
+  _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
+  while (suspended_event != NULL) {
+    event_t* event = suspended_event->event;
+    if (event->trigger->mode == mode) {
+      _lf_done_using(event->token);
+      lf_recycle_event(env, event);
+      suspended_event = _lf_remove_suspended_event(suspended_event);
+    } else {
+      suspended_event = suspended_event->next;
+    }
+  }
+}
+
 /**
  * Perform transitions in all modal reactors.
  *
@@ -367,59 +457,21 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
             }
           }
 
-          // Handle timers that have a period of 0. These timers will only trigger
-          // once and will not be on the event_q after their initial triggering.
-          // Therefore, the logic above cannot handle these timers. We need
-          // to trigger these timers manually if there is a reset transition.
+          // Discard all pending events of the mode, whether they are suspended or, if
+          // the mode is active, still on the event queue, and restart its timers.
+          _lf_suspend_events(env, state->next_mode);
+          _lf_discard_suspended_events(env, state->next_mode);
           for (int j = 0; j < timer_triggers_size; j++) {
             trigger_t* timer = timer_triggers[j];
-            if (timer->period == 0 && timer->mode == state->next_mode) {
-              lf_schedule_trigger(env, timer, timer->offset, NULL);
+            if (timer->mode == state->next_mode) {
+              // The timer is suspended until the mode is active.
+              event_t* event = lf_get_new_event(env);
+              event->trigger = timer;
+              event->base.tag = (tag_t){.time = timer->offset, .microstep = 0};
+              _lf_add_suspended_event(event);
             }
           }
         }
-
-        // Reset/Reactivate previously suspended events of next state
-        _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
-        while (suspended_event != NULL) {
-          event_t* event = suspended_event->event;
-          if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
-            if (state->mode_change == reset_transition) { // Reset transition
-              if (event->trigger->is_timer) {             // Only reset timers
-                trigger_t* timer = event->trigger;
-
-                LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-                // Reschedule the timer with no additional delay.
-                // This will take care of super dense time when offset is 0.
-                lf_schedule_trigger(env, timer, event->trigger->offset, NULL);
-              }
-              // No further processing; drops all events upon reset (timer event was recreated by schedule and original
-              // can be removed here)
-            } else if (state->next_mode != state->current_mode &&
-                       event->trigger != NULL) { // History transition to a different mode
-              // Remaining time that the event would have been waiting before mode was left
-              instant_t local_remaining_delay =
-                  event->base.tag.time -
-                  (state->next_mode->deactivation_time != 0 ? state->next_mode->deactivation_time : lf_time_start());
-              tag_t current_logical_tag = env->current_tag;
-
-              // Reschedule event with original local delay
-              LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME
-                             " (previous TTH: " PRINTF_TIME ", Mode suspended at: " PRINTF_TIME ").",
-                             local_remaining_delay, event->base.tag.time, state->next_mode->deactivation_time);
-              tag_t schedule_tag = {.time = current_logical_tag.time + local_remaining_delay,
-                                    .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
-              _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
-            }
-            // A fresh event was created by schedule, hence, recycle old one
-            lf_recycle_event(env, event);
-
-            // Remove suspended event and continue
-            suspended_event = _lf_remove_suspended_event(suspended_event);
-          } else {
-            suspended_event = suspended_event->next;
-          }
-        }
       }
     }
   }
@@ -437,7 +489,6 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
 
         // Apply transition effect
         if (state->next_mode != NULL) {
-          // Save time when mode was left to handle suspended events in the future
           state->current_mode->deactivation_time = lf_time_logical(env);
 
           // Apply transition
@@ -477,32 +528,10 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
     }
 
     // Retract all events from the event queue that are associated with now inactive modes
-    if (env->event_q != NULL) {
-      size_t q_size = pqueue_tag_size(env->event_q);
-      if (q_size > 0) {
-        event_t** delayed_removal = (event_t**)calloc(q_size, sizeof(event_t*));
-        size_t delayed_removal_count = 0;
-
-        // Find events
-        for (size_t i = 0; i < q_size; i++) {
-          event_t* event = (event_t*)env->event_q->d[i + 1]; // internal queue data structure omits index 0
-          if (event != NULL && event->trigger != NULL && !_lf_mode_is_active(event->trigger->mode)) {
-            delayed_removal[delayed_removal_count++] = event;
-            // This will store the event including possibly those chained up in super dense time
-            _lf_add_suspended_event(event);
-          }
-        }
-
-        // Events are removed delayed in order to allow linear iteration over the queue
-        LF_PRINT_DEBUG("Modes: Pulling %zu events from the event queue to suspend them. %d events are now suspended.",
-                       delayed_removal_count, _lf_suspended_events_num);
-        for (size_t i = 0; i < delayed_removal_count; i++) {
-          pqueue_tag_remove(env->event_q, (pqueue_tag_element_t*)(delayed_removal[i]));
-        }
+    _lf_suspend_events(env, NULL);
 
-        free(delayed_removal);
-      }
-    }
+    // Put suspended events that are associated with now active modes back on the event queue
+    _lf_resume_events(env);
 
     if (env->modes->triggered_reactions_request) {
       // Insert a dummy event in the event queue for the next microstep to make
diff --git a/core/reactor_common.c b/core/reactor_common.c
index aa4e937..3d79ca8 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -363,7 +363,7 @@ void _lf_initialize_timer(environment_t* env, trigger_t* timer) {
     // && (timer->offset != 0 || timer->period != 0)) {
     event_t* e = lf_get_new_event(env);
     e->trigger = timer;
-    e->base.tag = (tag_t){.time = lf_time_logical(env) + timer->offset, .microstep = 0};
+    e->base.tag = (tag_t){.time = timer->offset, .microstep = 0};
     _lf_add_suspended_event(e);
     return;
   }
-- 
2.43.0


From 5d4cd8738738f13f8e54b1e7370d53df2fec5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:37 +0000
Subject: [PATCH 11/50] fix: keep a watchdog started that its handler starts
 again

---
 core/threaded/watchdog.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 3240fc3..8731b00 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -128,8 +128,9 @@ static void* watchdog_thread_main(void* arg) {
       // If we reach here, the watchdog actually timed out. Handle it.
       LF_PRINT_DEBUG("Watchdog %p timed out", (void*)watchdog);
       watchdog_function_t watchdog_func = watchdog->watchdog_function;
-      (*watchdog_func)(base);
+      // The handler may start the watchdog again.
       watchdog->expiration = NEVER;
+      (*watchdog_func)(base);
     }
   }
 
-- 
2.43.0


From 000968a0612af7a37cc1f9b6a8cf2b2d1052a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:37 +0000
Subject: [PATCH 12/50] fix: let a restarted watchdog expire earlier than
 before

---
 core/threaded/watchdog.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 8731b00..1101d06 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -146,10 +146,9 @@ void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   watchdog->terminate = false;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
-  // If the watchdog is inactive, signal it to start waiting.
-  if (!watchdog->active) {
-    LF_COND_SIGNAL(&watchdog->cond);
-  }
+  // Signal the watchdog to start waiting or, because it may
+  // now expire earlier, to wait for the new expiration.
+  LF_COND_SIGNAL(&watchdog->cond);
 }
 
 void lf_watchdog_stop(watchdog_t* watchdog) {
-- 
2.43.0


From 232a09a3946a183119bd072cc65da943454747e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:37 +0000
Subject: [PATCH 13/50] fix: initialize and free the mutex of a reactor with
 several watchdogs once

---
 core/reactor_common.c    | 2 ++
 core/threaded/watchdog.c | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 3d79ca8..da0ea7c 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1215,6 +1215,8 @@ void termination(void) {
     for (int i = 0; i < env->watchdogs_size; i++) {
       if (env->watchdogs[i]->base->reactor_mutex != NULL) {
         free(env->watchdogs[i]->base->reactor_mutex);
+        // The reactor may have further watchdogs.
+        env->watchdogs[i]->base->reactor_mutex = NULL;
       }
     }
 #endif
diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 1101d06..8a779a3 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -29,7 +29,12 @@ static void* watchdog_thread_main(void* arg);
 void _lf_initialize_watchdogs(environment_t* env) {
   for (int i = 0; i < env->watchdogs_size; i++) {
     watchdog_t* watchdog = env->watchdogs[i];
-    if (watchdog->base->reactor_mutex != NULL) {
+    // The watchdogs of one reactor share its mutex.
+    bool initialized = false;
+    for (int j = 0; j < i; j++) {
+      initialized = initialized || env->watchdogs[j]->base == watchdog->base;
+    }
+    if (watchdog->base->reactor_mutex != NULL && !initialized) {
       LF_MUTEX_INIT((lf_mutex_t*)(watchdog->base->reactor_mutex));
     }
     LF_COND_INIT(&watchdog->cond, watchdog->base->reactor_mutex);
-- 
2.43.0


From adf70cfe3da378c926d114d75c84353ed1aafe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:24 +0000
Subject: [PATCH 14/50] fix: do not restart a watchdog that is being terminated

The handler of another watchdog of the reactor may start it just then,
and joining its thread did not return.
---
 core/threaded/watchdog.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 8a779a3..8ad5c14 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -148,7 +148,6 @@ static void* watchdog_thread_main(void* arg) {
 void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
-  watchdog->terminate = false;
   watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
 
   // Signal the watchdog to start waiting or, because it may
-- 
2.43.0


From ac6aab0bffbc0e8f6a0f77d707afa981100d0f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 15/50] fix: fill the elements that vector_at adds with NULL

---
 core/utils/vector.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/utils/vector.c b/core/utils/vector.c
index 2124f12..c31f1c8 100644
--- a/core/utils/vector.c
+++ b/core/utils/vector.c
@@ -101,9 +101,9 @@ void* vector_pop(vector_t* v) {
  * @return A pointer to the element at 'idx', which is itself a pointer.
  */
 void** vector_at(vector_t* v, size_t idx) {
-  void** vector_position = v->start + idx;
-  if ((vector_position + 1) > v->next) {
-    v->next = vector_position + 1;
+  size_t old_size = vector_size(v);
+  if (idx >= old_size) {
+    v->next = v->start + idx + 1;
   }
   if (v->next >= v->end) {
     v->votes_required++;
@@ -114,8 +114,10 @@ void** vector_at(vector_t* v, size_t idx) {
     }
     vector_resize(v, new_size);
   }
-  // Note: Can't re-use vector_position because v->start can move after
-  // resizing.
+  // The elements that have not been set before are NULL.
+  for (size_t i = old_size; i <= idx; i++) {
+    v->start[i] = NULL;
+  }
   return v->start + idx;
 }
 
-- 
2.43.0


From 9aaeac137b56d76543360ab40b824ad42ba0f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 16/50] fix: do not take the markers of a hashset for members

---
 core/utils/hashset/hashset.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/utils/hashset/hashset.c b/core/utils/hashset/hashset.c
index fa67aac..446b1f8 100644
--- a/core/utils/hashset/hashset.c
+++ b/core/utils/hashset/hashset.c
@@ -121,6 +121,9 @@ int hashset_add(hashset_t set, void* item) {
 }
 
 int hashset_remove(hashset_t set, void* item) {
+  if (item == 0 || item == (void*)1) {
+    return 0; // Markers of empty and deleted slots are never members.
+  }
   size_t ii = set->mask & (prime_1 * (size_t)item);
 
   while (set->items[ii] != 0) {
@@ -137,6 +140,9 @@ int hashset_remove(hashset_t set, void* item) {
 }
 
 int hashset_is_member(hashset_t set, void* item) {
+  if (item == 0 || item == (void*)1) {
+    return 0; // Markers of empty and deleted slots are never members.
+  }
   size_t ii = set->mask & (prime_1 * (size_t)item);
 
   while (set->items[ii] != 0) {
-- 
2.43.0


From 1298804387558d4a9e98993c59e7625f546c123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 17/50] fix: remove also elements with tag FOREVER up to
 FOREVER

---
 core/utils/pqueue_tag.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/utils/pqueue_tag.c b/core/utils/pqueue_tag.c
index c1abe35..187b33e 100644
--- a/core/utils/pqueue_tag.c
+++ b/core/utils/pqueue_tag.c
@@ -151,10 +151,8 @@ tag_t pqueue_tag_pop_tag(pqueue_tag_t* q) {
 void pqueue_tag_remove(pqueue_tag_t* q, pqueue_tag_element_t* e) { pqueue_remove((pqueue_t*)q, (void*)e); }
 
 void pqueue_tag_remove_up_to(pqueue_tag_t* q, tag_t t) {
-  tag_t head = pqueue_tag_peek_tag(q);
-  while (lf_tag_compare(head, FOREVER_TAG) < 0 && lf_tag_compare(head, t) <= 0) {
+  while (pqueue_tag_size(q) > 0 && lf_tag_compare(pqueue_tag_peek_tag(q), t) <= 0) {
     pqueue_tag_pop_tag(q);
-    head = pqueue_tag_peek_tag(q);
   }
 }
 
-- 
2.43.0


From 72b3772f40b433200623ac6a4892d3627e8929ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 18/50] fix: check time additions without overflowing

---
 core/tag.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index c5f8f88..97f03bb 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -46,16 +46,15 @@ instant_t lf_time_add(instant_t a, interval_t b) {
   if (a == FOREVER || b == FOREVER) {
     return FOREVER;
   }
-  instant_t res = a + b;
-  // Check for overflow
-  if (res < a && b > 0) {
+  // Check for overflow. Note that overflow in C is undefined for signed variables.
+  if (b > 0 && a > FOREVER - b) {
     return FOREVER;
   }
   // Check for underflow
-  if (res > a && b < 0) {
+  if (b < 0 && a < NEVER - b) {
     return NEVER;
   }
-  return res;
+  return a + b;
 }
 
 tag_t lf_tag_add(tag_t a, tag_t b) {
-- 
2.43.0


From c974e10bfce6db6adeda1d6a3a91ab086c504516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 19/50] fix: lf_delay_strict leaves the tag unmodified for
 negative intervals

---
 core/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/tag.c b/core/tag.c
index 97f03bb..06c2df4 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -116,7 +116,7 @@ tag_t lf_delay_tag(tag_t tag, interval_t interval) {
 
 tag_t lf_delay_strict(tag_t tag, interval_t interval) {
   tag_t result = lf_delay_tag(tag, interval);
-  if (interval != 0 && interval != NEVER && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
+  if (interval > 0 && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
     result.time -= 1;
     result.microstep = UINT_MAX;
   }
-- 
2.43.0


From a3df7faa647c6f885fbb236ebaf7cfd20e766f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 20/50] fix: print negative times with thousands separators

---
 core/tag.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index 06c2df4..ee7371b 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -241,8 +241,8 @@ size_t lf_comma_separated_time(char* buffer, instant_t time) {
   int count = 0;
   // Assume the time value is no larger than 64 bits.
   instant_t clauses[7];
-  while (time > (instant_t)0) {
-    clauses[count++] = time;
+  while (time != (instant_t)0) {
+    clauses[count++] = (time % 1000 < 0) ? -(time % 1000) : time % 1000;
     time = time / 1000;
   }
   // Highest order clause should not be filled with zeros.
-- 
2.43.0


From 72fa971cc9ed19bad991566670057b8aad1360d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:25 +0000
Subject: [PATCH 21/50] fix: change reference counts of tokens under a lock

Reactions executing in parallel forward, schedule and release the same token.
Their unsynchronized increments and decrements could be lost, so that the payload
leaked or was released while in use.
---
 core/lf_token.c         | 25 +++++++++++++++++++------
 core/reactor_common.c   |  3 +--
 include/core/lf_token.h |  6 ++++++
 lib/schedule.c          |  3 +--
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index 2308bdf..4109bc3 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -91,7 +91,10 @@ static lf_token_t* _lf_writable_copy_locked(lf_port_base_t* port) {
     return NULL;
   LF_PRINT_DEBUG("lf_writable_copy: Requesting writable copy of token %p with reference count %zu.", (void*)token,
                  token->ref_count);
-  if (port->num_destinations == 1 && token->ref_count == 1) {
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+  bool only_reference = token->ref_count == 1;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+  if (port->num_destinations == 1 && only_reference) {
     LF_PRINT_DEBUG("lf_writable_copy: Avoided copy because there "
                    "is only one reader and the reference count is %zu.",
                    token->ref_count);
@@ -342,9 +345,7 @@ void _lf_replace_template_token(token_template_t* tmplt, lf_token_t* newtoken) {
       _lf_done_using(tmplt->token);
     }
     if (newtoken != NULL) {
-      newtoken->ref_count++;
-      LF_PRINT_DEBUG("_lf_replace_template_token: Incremented ref_count of %p to %zu.", (void*)newtoken,
-                     newtoken->ref_count);
+      _lf_add_reference(newtoken);
     }
     tmplt->token = newtoken;
   }
@@ -357,17 +358,29 @@ void _lf_set_template_token(token_template_t* tmplt, lf_token_t* newtoken) {
   }
 }
 
+void _lf_add_reference(lf_token_t* token) {
+  // Reactions executing in parallel may hold references to the same token.
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+  token->ref_count++;
+  LF_PRINT_DEBUG("_lf_add_reference: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+}
+
 token_freed _lf_done_using(lf_token_t* token) {
   if (token == NULL) {
     return NOT_FREED;
   }
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
   LF_PRINT_DEBUG("_lf_done_using: token = %p, ref_count = %zu.", (void*)token, token->ref_count);
   if (token->ref_count == 0) {
+    LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
     lf_print_warning("Token being freed that has already been freed: %p", (void*)token);
     return NOT_FREED;
   }
-  token->ref_count--;
-  return _lf_free_token(token);
+  size_t remaining = --token->ref_count;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+  // If references remain, then the token may be freed by another thread at any time.
+  return remaining == 0 ? _lf_free_token(token) : NOT_FREED;
 }
 
 void _lf_free_token_copies() {
diff --git a/core/reactor_common.c b/core/reactor_common.c
index da0ea7c..e813b41 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -494,8 +494,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
 
   // Increment the reference count of the token.
   if (token != NULL) {
-    token->ref_count++;
-    LF_PRINT_DEBUG("_lf_schedule_at_tag: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
+    _lf_add_reference(token);
   }
 
   // Do not schedule events if the tag is after the stop tag
diff --git a/include/core/lf_token.h b/include/core/lf_token.h
index 61cb94c..f72302a 100644
--- a/include/core/lf_token.h
+++ b/include/core/lf_token.h
@@ -319,6 +319,12 @@ void _lf_replace_template_token(token_template_t* tmplt, lf_token_t* newtoken);
  */
 void _lf_set_template_token(token_template_t* tmplt, lf_token_t* newtoken);
 
+/**
+ * @brief Increment the reference count of the specified token.
+ * @param token Pointer to a token (must not be NULL).
+ */
+void _lf_add_reference(lf_token_t* token);
+
 /**
  * Decrement the reference count of the specified token.
  * If the reference count hits 0, free the memory for the value
diff --git a/lib/schedule.c b/lib/schedule.c
index b0e2691..461fccd 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -136,8 +136,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
 
   // Increment the reference count of the token.
   if (token != NULL) {
-    token->ref_count++;
-    LF_PRINT_DEBUG("lf_schedule_trigger: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
+    _lf_add_reference(token);
   }
 
   // The trigger argument could be null, meaning that nothing is triggered.
-- 
2.43.0


From f44439ba6780983970603ecaedf721db8e574ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:27 +0000
Subject: [PATCH 22/50] fix: record a channel of a sparse multiport once per
 tag

Setting a channel twice at one tag recorded it twice, so that iterators over the
input multiport yielded it twice.
---
 core/reactor.c                   | 4 +++-
 core/threaded/reactor_threaded.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 6e2fd24..8805d5d 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -53,10 +53,12 @@ void lf_set_present(lf_port_base_t* port) {
     env->is_present_fields_abbreviated[env->is_present_fields_abbreviated_size] = is_present_field;
   }
   env->is_present_fields_abbreviated_size++;
+  bool already_present = *is_present_field;
   *is_present_field = true;
 
   // Support for sparse destination multiports.
-  if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
+  // A channel is recorded only the first time that it is set at a tag.
+  if (!already_present && port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
     size_t next = port->sparse_record->size++;
     if (next >= port->sparse_record->capacity) {
       // Buffer is full. Have to revert to the classic iteration.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 291f3bd..a747f70 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -180,10 +180,12 @@ void lf_set_present(lf_port_base_t* port) {
   if (ipfas < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[ipfas] = is_present_field;
   }
+  bool already_present = *is_present_field;
   *is_present_field = true;
 
   // Support for sparse destination multiports.
-  if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
+  // A channel is recorded only the first time that it is set at a tag.
+  if (!already_present && port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
     size_t next = (size_t)lf_atomic_fetch_add(&port->sparse_record->size, 1);
     if (next >= port->sparse_record->capacity) {
       // Buffer is full. Have to revert to the classic iteration.
-- 
2.43.0


From 46b9830b5048c40cec38b7ceb904ad1f8c3a9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:27 +0000
Subject: [PATCH 23/50] fix: do not read tokens of writable copies after
 freeing them

When the list of recycled tokens is full, releasing a token frees its memory.
---
 core/lf_token.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index 4109bc3..8486466 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -385,7 +385,9 @@ token_freed _lf_done_using(lf_token_t* token) {
 
 void _lf_free_token_copies() {
   while (_lf_tokens_allocated_in_reactions != NULL) {
-    _lf_done_using(_lf_tokens_allocated_in_reactions);
-    _lf_tokens_allocated_in_reactions = _lf_tokens_allocated_in_reactions->next;
+    // The token may be freed, so get the next one first.
+    lf_token_t* token = _lf_tokens_allocated_in_reactions;
+    _lf_tokens_allocated_in_reactions = token->next;
+    _lf_done_using(token);
   }
 }
-- 
2.43.0


From 64c12146764e22d7cd7a2c20cefacf3f30aee88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:12 +0000
Subject: [PATCH 24/50] fix: reject malformed timeouts and worker counts on the
 command line

Values with trailing characters, values that overflow and units that only
start like a valid unit were accepted. A timeout beyond the largest time
overflowed when added to the start time.
---
 core/environment.c               |  3 +-
 core/reactor_common.c            | 76 +++++++++++++++++++++-----------
 core/threaded/reactor_threaded.c |  2 +-
 3 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/core/environment.c b/core/environment.c
index d24de4b..9f762bd 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -198,8 +198,7 @@ void environment_init_tags(environment_t* env, instant_t start_time, interval_t
   tag_t stop_tag = FOREVER_TAG_INITIALIZER;
   if (duration >= 0LL) {
     // A duration has been specified. Calculate the stop time.
-    stop_tag.time = env->current_tag.time + duration;
-    stop_tag.microstep = 0;
+    stop_tag = lf_tag_add(env->current_tag, (tag_t){.time = duration, .microstep = 0u});
   }
   env->stop_tag = stop_tag;
 }
diff --git a/core/reactor_common.c b/core/reactor_common.c
index e813b41..500f3e8 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -11,6 +11,8 @@
  * @brief Runtime infrastructure common to the threaded and single-threaded versions of the C runtime.
  */
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <time.h>
@@ -905,6 +907,27 @@ void usage(int argc, const char* argv[]) {
 int default_argc = 0;
 const char** default_argv = NULL;
 
+/**
+ * Parse the given string, all of which has to be a decimal integer.
+ * @return true if the value has been stored in `result`, false if the string is not an integer or is out of range.
+ */
+static bool parse_integer(const char* spec, long long* result) {
+  char* end;
+  errno = 0;
+#if defined(PLATFORM_ARDUINO)
+  *result = strtol(spec, &end, 10);
+#else
+  *result = strtoll(spec, &end, 10);
+#endif
+  return end != spec && *end == '\0' && errno == 0;
+}
+
+/** Return true if the given string is the given name of a time unit or its plural. */
+static bool is_unit(const char* units, const char* name) {
+  size_t length = strlen(name);
+  return strncmp(units, name, length) == 0 && (units[length] == '\0' || strcmp(units + length, "s") == 0);
+}
+
 /**
  * Process the command-line arguments. If the command line arguments are not
  * understood, then print a usage message and return 0. Otherwise, return 1.
@@ -939,41 +962,42 @@ int process_args(int argc, const char* argv[]) {
       const char* time_spec = argv[i++];
       const char* units = argv[i++];
 
-#if defined(PLATFORM_ARDUINO)
-      duration = atol(time_spec);
-#else
-      duration = atoll(time_spec);
-#endif
-
-      // A parse error returns 0LL, so check to see whether that is what is meant.
-      if (duration == 0LL && strncmp(time_spec, "0", 1) != 0) {
+      long long time_value;
+      if (!parse_integer(time_spec, &time_value)) {
         // Parse error.
         lf_print_error("Invalid time value: %s", time_spec);
         usage(argc, argv);
         return 0;
       }
-      if (strncmp(units, "sec", 3) == 0) {
-        duration = SEC(duration);
-      } else if (strncmp(units, "msec", 4) == 0) {
-        duration = MSEC(duration);
-      } else if (strncmp(units, "usec", 4) == 0) {
-        duration = USEC(duration);
-      } else if (strncmp(units, "nsec", 4) == 0) {
-        duration = NSEC(duration);
-      } else if (strncmp(units, "min", 3) == 0) {
-        duration = MINUTE(duration);
-      } else if (strncmp(units, "hour", 4) == 0) {
-        duration = HOUR(duration);
-      } else if (strncmp(units, "day", 3) == 0) {
-        duration = DAY(duration);
-      } else if (strncmp(units, "week", 4) == 0) {
-        duration = WEEK(duration);
+      interval_t unit;
+      if (is_unit(units, "sec") || is_unit(units, "second")) {
+        unit = SEC(1);
+      } else if (is_unit(units, "msec")) {
+        unit = MSEC(1);
+      } else if (is_unit(units, "usec")) {
+        unit = USEC(1);
+      } else if (is_unit(units, "nsec")) {
+        unit = NSEC(1);
+      } else if (is_unit(units, "min") || is_unit(units, "minute")) {
+        unit = MINUTE(1);
+      } else if (is_unit(units, "hour")) {
+        unit = HOUR(1);
+      } else if (is_unit(units, "day")) {
+        unit = DAY(1);
+      } else if (is_unit(units, "week")) {
+        unit = WEEK(1);
       } else {
         // Invalid units.
         lf_print_error("Invalid time units: %s", units);
         usage(argc, argv);
         return 0;
       }
+      if (time_value > FOREVER / unit || time_value < NEVER / unit) {
+        lf_print_error("Time value out of range: %s %s", time_spec, units);
+        usage(argc, argv);
+        return 0;
+      }
+      duration = time_value * unit;
     } else if (strcmp(arg, "-k") == 0 || strcmp(arg, "--keepalive") == 0) {
       if (argc < i + 1) {
         lf_print_error("--keepalive needs a boolean.");
@@ -995,8 +1019,8 @@ int process_args(int argc, const char* argv[]) {
         return 0;
       }
       const char* threads_spec = argv[i++];
-      int num_workers = atoi(threads_spec);
-      if (num_workers <= 0) {
+      long long num_workers;
+      if (!parse_integer(threads_spec, &num_workers) || num_workers <= 0 || num_workers > INT_MAX) {
         lf_print_error("Invalid value for --workers: %s. Using 1.", threads_spec);
         num_workers = 1;
       }
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index a747f70..7b72ae5 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -578,7 +578,7 @@ void _lf_initialize_start_tag(environment_t* env) {
   env->current_tag = (tag_t){.time = start_time, .microstep = 0u};
   if (duration >= 0LL) {
     // A duration has been specified. Recalculate the stop time.
-    env->stop_tag = ((tag_t){.time = start_time + duration, .microstep = 0});
+    env->stop_tag = lf_tag_add(env->current_tag, (tag_t){.time = duration, .microstep = 0u});
   }
 
   _lf_initialize_timers(env);
-- 
2.43.0


From a766e22d30eba471a1cf6b127c6fa801592e2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:23 +0000
Subject: [PATCH 25/50] fix: RTI rejects malformed and out-of-range numbers on
 its command line

Trailing characters were ignored and values that do not fit were truncated,
e.g., -n 4294967297 became one federate.
---
 core/federated/RTI/main.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/core/federated/RTI/main.c b/core/federated/RTI/main.c
index 17d73e9..2f620c5 100644
--- a/core/federated/RTI/main.c
+++ b/core/federated/RTI/main.c
@@ -49,6 +49,8 @@ THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "rti_remote.h"
 #include "net_util.h"
+#include <errno.h>
+#include <limits.h>
 #include <signal.h> // To trap ctrl-c and invoke a clean stop to save the trace file, if needed.
 #include <string.h>
 
@@ -144,6 +146,17 @@ void usage(int argc, const char* argv[]) {
   lf_print("\n");
 }
 
+/**
+ * Parse the given string, all of which has to be a decimal integer from 1 to `max`.
+ * @return true if the value has been stored in `result`, false otherwise.
+ */
+static bool parse_positive(const char* spec, long long max, long long* result) {
+  char* end;
+  errno = 0;
+  *result = strtoll(spec, &end, 10);
+  return end != spec && *end == '\0' && errno == 0 && *result > 0 && *result <= max;
+}
+
 int process_clock_sync_args(int argc, const char* argv[]) {
   for (int i = 0; i < argc; i++) {
     if (strcmp(argv[i], "off") == 0) {
@@ -167,8 +180,8 @@ int process_clock_sync_args(int argc, const char* argv[]) {
         continue;
       }
       i++;
-      long long period_ns = strtoll(argv[i], NULL, 10);
-      if (period_ns == 0LL || period_ns == LLONG_MAX || period_ns == LLONG_MIN) {
+      long long period_ns;
+      if (!parse_positive(argv[i], LLONG_MAX - 1, &period_ns)) {
         lf_print_error("clock sync period value is invalid.");
         continue; // Try to parse the rest of the arguments as clock sync args.
       }
@@ -186,12 +199,12 @@ int process_clock_sync_args(int argc, const char* argv[]) {
         continue; // Try to parse the rest of the arguments as clock sync args.
       }
       i++;
-      long exchanges = (long)strtol(argv[i], NULL, 10);
-      if (exchanges == 0L || exchanges == LONG_MAX || exchanges == LONG_MIN) {
+      long long exchanges;
+      if (!parse_positive(argv[i], INT32_MAX, &exchanges)) {
         lf_print_error("clock sync exchanges-per-interval value is invalid.");
         continue; // Try to parse the rest of the arguments as clock sync args.
       }
-      rti.clock_sync_exchanges_per_interval = (int32_t)exchanges; // FIXME: Loses numbers on 64-bit machines
+      rti.clock_sync_exchanges_per_interval = (int32_t)exchanges;
       lf_print("RTI: Clock sync exchanges per interval: %d", rti.clock_sync_exchanges_per_interval);
     } else if (strcmp(argv[i], " ") == 0) {
       // Tolerate spaces
@@ -224,13 +237,13 @@ int process_args(int argc, const char* argv[]) {
         return 0;
       }
       i++;
-      long num_federates = strtol(argv[i], NULL, 10);
-      if (num_federates <= 0L || num_federates == LONG_MAX || num_federates == LONG_MIN) {
+      long long num_federates;
+      if (!parse_positive(argv[i], UINT16_MAX - 1, &num_federates)) {
         lf_print_error("--number_of_federates needs a valid positive integer argument.");
         usage(argc, argv);
         return 0;
       }
-      rti.base.number_of_scheduling_nodes = (int32_t)num_federates; // FIXME: Loses numbers on 64-bit machines
+      rti.base.number_of_scheduling_nodes = (int32_t)num_federates;
       lf_print("RTI: Number of federates: %d", rti.base.number_of_scheduling_nodes);
     } else if (strcmp(argv[i], "-p") == 0 || strcmp(argv[i], "--port") == 0) {
       if (argc < i + 2) {
@@ -239,8 +252,8 @@ int process_args(int argc, const char* argv[]) {
         return 0;
       }
       i++;
-      uint32_t RTI_port = (uint32_t)strtoul(argv[i], NULL, 10);
-      if (RTI_port <= 0 || RTI_port >= UINT16_MAX) {
+      long long RTI_port;
+      if (!parse_positive(argv[i], UINT16_MAX - 1, &RTI_port)) {
         lf_print_error("--port needs a short unsigned integer argument ( > 0 and < %d).", UINT16_MAX);
         usage(argc, argv);
         return 0;
-- 
2.43.0


From 0b8ae94158856616b0558962199cbdbfe3d3e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:23 +0000
Subject: [PATCH 26/50] fix: RTI no longer skips the option after the clock
 synchronization options

---
 core/federated/RTI/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/main.c b/core/federated/RTI/main.c
index 2f620c5..02d7802 100644
--- a/core/federated/RTI/main.c
+++ b/core/federated/RTI/main.c
@@ -266,7 +266,13 @@ int process_args(int argc, const char* argv[]) {
         return 0;
       }
       i++;
-      i += process_clock_sync_args((argc - i), &argv[i]);
+      int processed = process_clock_sync_args((argc - i), &argv[i]);
+      if (processed == 0) {
+        lf_print_error("--clock-sync needs off|init|on.");
+        usage(argc, argv);
+        return 0;
+      }
+      i += processed - 1; // The loop moves on by one.
     } else if (strcmp(argv[i], "-a") == 0 || strcmp(argv[i], "--auth") == 0) {
 #ifndef __RTI_AUTH__
       lf_print_error("--auth requires the RTI to be built with the -DAUTH=ON option.");
-- 
2.43.0


From 699fbe05b452c2963285c41bf970026878d429e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 27/50] fix: reject RTI addresses that match the address syntax
 only in part

---
 core/federated/network/net_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/federated/network/net_util.c b/core/federated/network/net_util.c
index 61d4804..57a6f9f 100644
--- a/core/federated/network/net_util.c
+++ b/core/federated/network/net_util.c
@@ -520,7 +520,7 @@ bool extract_match_groups(const char* rti_addr, char** rti_addr_strs, bool** rti
 }
 
 void extract_rti_addr_info(const char* rti_addr, rti_addr_info_t* rti_addr_info) {
-  const char* regex_str = "(([a-zA-Z0-9_-]{1,254})@)?([a-zA-Z0-9._-]{1,255})(:([0-9]{1,5}))?";
+  const char* regex_str = "^(([a-zA-Z0-9_-]{1,254})@)?([a-zA-Z0-9._-]{1,255})(:([0-9]{1,5}))?$";
   size_t max_groups = 6;
   // The group indices of each field of interest in the regex.
   int user_gid = 2, host_gid = 3, port_gid = 5;
-- 
2.43.0


From 9ebb3d0a3fac65fec31687fdeda60cd733273e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 28/50] fix: socket helpers no longer pass an argument list to
 a printf-like function

---
 core/federated/network/net_util.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/federated/network/net_util.c b/core/federated/network/net_util.c
index 57a6f9f..bde3f7d 100644
--- a/core/federated/network/net_util.c
+++ b/core/federated/network/net_util.c
@@ -143,9 +143,11 @@ void read_from_socket_fail_on_error(int* socket, size_t num_bytes, unsigned char
       LF_MUTEX_UNLOCK(mutex);
     }
     if (format != NULL) {
+      int err = errno;
       va_start(args, format);
-      lf_print_error_system_failure(format, args);
+      lf_vprint_error(format, args);
       va_end(args);
+      lf_print_error_and_exit("Error %d: %s", err, strerror(err));
     } else {
       lf_print_error_system_failure("Failed to read from socket.");
     }
@@ -212,9 +214,11 @@ void write_to_socket_fail_on_error(int* socket, size_t num_bytes, unsigned char*
       LF_MUTEX_UNLOCK(mutex);
     }
     if (format != NULL) {
+      int err = errno;
       va_start(args, format);
-      lf_print_error_system_failure(format, args);
+      lf_vprint_error(format, args);
       va_end(args);
+      lf_print_error_and_exit("Error %d: %s", err, strerror(err));
     } else {
       lf_print_error("Failed to write to socket. Closing it.");
     }
-- 
2.43.0


From 7d6a120ad71849a7a1a2ae6ef86a3ac35647099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:01 +0000
Subject: [PATCH 29/50] fix: RTI does not grant a PTAG while delayed messages
 from another zero-delay cycle are outstanding

---
 core/federated/RTI/rti_common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 3a1b16f..714ec4a 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -121,14 +121,15 @@ tag_t earliest_future_incoming_message_tag(scheduling_node_t* e) {
 
 tag_t eimt_strict(scheduling_node_t* e) {
   // Find the tag of the earliest possible incoming message from immediately upstream
-  // enclaves or federates that are not part of a zero-delay cycle.
+  // enclaves or federates that are not part of a zero-delay cycle or that are connected with a delay.
   // This will be the smallest upstream NET plus the least delay.
   // This could be NEVER_TAG if the RTI has not seen a NET from some upstream node.
   tag_t t_d = FOREVER_TAG;
   for (int i = 0; i < e->num_upstream; i++) {
     scheduling_node_t* upstream = rti_common->scheduling_nodes[e->upstream[i]];
-    // Skip this node if it is part of a zero-delay cycle.
-    if (is_in_zero_delay_cycle(upstream))
+    // Skip this node if it is part of a zero-delay cycle and the connection has no delay. In contrast, messages
+    // over a connection with a delay must not arrive anymore once a PTAG has been granted.
+    if (is_in_zero_delay_cycle(upstream) && e->upstream_delay[i] < 0)
       continue;
     // If we haven't heard from the upstream node, then assume it can send an event at the start time.
     if (lf_tag_compare(upstream->next_event, NEVER_TAG) == 0) {
-- 
2.43.0


From c4cc4aecb3c28036b282ac5eeabe15472387fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:01 +0000
Subject: [PATCH 30/50] fix: RTI re-examines upstream federates of a PTAG when
 reported events change

---
 core/federated/RTI/rti_remote.c | 80 ++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 27 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3daaeff..5ea0117 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -211,6 +211,55 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   }
 }
 
+/**
+ * Having provisionally granted `tag` to the node `e`, grant it to all upstream federates, if they have not had
+ * a later or equal PTAG or TAG sent previously and if their transitive
+ * NET is greater than or equal to the tag.
+ * This is needed to stimulate absent messages from upstream and break deadlocks.
+ * The scenario this deals with is illustrated in `test/C/src/federated/FeedbackDelay2.lf`
+ * and `test/C/src/federated/FeedbackDelay4.lf`.
+ * Note that this is transitive.
+ * NOTE: This is not needed for enclaves because zero-delay loops are prohibited.
+ * It's only needed for federates, which is why this is implemented here.
+ * This function assumes the caller holds the rti_mutex lock.
+ */
+static void grant_upstream_of_ptag_locked(scheduling_node_t* e, tag_t tag) {
+  for (int j = 0; j < e->num_upstream; j++) {
+    scheduling_node_t* upstream = rti_remote->base.scheduling_nodes[e->upstream[j]];
+
+    // Ignore this federate if it has resigned.
+    if (upstream->state == NOT_CONNECTED)
+      continue;
+
+    tag_t earliest = earliest_future_incoming_message_tag(upstream);
+    tag_t strict_earliest = eimt_strict(upstream); // Non-ZDC version.
+
+    // If these tags are equal, then a TAG or PTAG should have already been granted,
+    // in which case, another will not be sent. But it may not have been already granted.
+    if (lf_tag_compare(earliest, tag) > 0) {
+      notify_tag_advance_grant(upstream, tag);
+    } else if (lf_tag_compare(earliest, tag) == 0 && lf_tag_compare(strict_earliest, tag) > 0) {
+      notify_provisional_tag_advance_grant(upstream, tag);
+    }
+  }
+}
+
+/**
+ * Some upstream federates of a provisionally granted federate may not have been grantable when the PTAG
+ * was sent because of earlier events elsewhere. Now that the recorded next event of some
+ * federate has changed, check them again for all federates whose most recent grant is a PTAG. Otherwise, these
+ * could wait forever for absent messages from such upstream federates.
+ * This function assumes the caller holds the rti_mutex lock.
+ */
+static void update_upstream_of_ptags_locked() {
+  for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
+    scheduling_node_t* e = rti_remote->base.scheduling_nodes[i];
+    if (e->state != NOT_CONNECTED && lf_tag_compare(e->last_provisionally_granted, e->last_granted) > 0) {
+      grant_upstream_of_ptag_locked(e, e->last_provisionally_granted);
+    }
+  }
+}
+
 void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
       lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
@@ -242,33 +291,7 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
     LF_PRINT_LOG("RTI sent to federate %d the Provisional Tag Advance Grant (PTAG) " PRINTF_TAG ".", e->id,
                  tag.time - start_time, tag.microstep);
 
-    // Send PTAG to all upstream federates, if they have not had
-    // a later or equal PTAG or TAG sent previously and if their transitive
-    // NET is greater than or equal to the tag.
-    // This is needed to stimulate absent messages from upstream and break deadlocks.
-    // The scenario this deals with is illustrated in `test/C/src/federated/FeedbackDelay2.lf`
-    // and `test/C/src/federated/FeedbackDelay4.lf`.
-    // Note that this is transitive.
-    // NOTE: This is not needed for enclaves because zero-delay loops are prohibited.
-    // It's only needed for federates, which is why this is implemented here.
-    for (int j = 0; j < e->num_upstream; j++) {
-      scheduling_node_t* upstream = rti_remote->base.scheduling_nodes[e->upstream[j]];
-
-      // Ignore this federate if it has resigned.
-      if (upstream->state == NOT_CONNECTED)
-        continue;
-
-      tag_t earliest = earliest_future_incoming_message_tag(upstream);
-      tag_t strict_earliest = eimt_strict(upstream); // Non-ZDC version.
-
-      // If these tags are equal, then a TAG or PTAG should have already been granted,
-      // in which case, another will not be sent. But it may not have been already granted.
-      if (lf_tag_compare(earliest, tag) > 0) {
-        notify_tag_advance_grant(upstream, tag);
-      } else if (lf_tag_compare(earliest, tag) == 0 && lf_tag_compare(strict_earliest, tag) > 0) {
-        notify_provisional_tag_advance_grant(upstream, tag);
-      }
-    }
+    grant_upstream_of_ptag_locked(e, tag);
   }
 }
 
@@ -279,6 +302,7 @@ void update_federate_next_event_tag_locked(uint16_t federate_id, tag_t next_even
     next_event_tag = min_in_transit_tag;
   }
   update_scheduling_node_next_event_tag_locked(&(fed->enclave), next_event_tag);
+  update_upstream_of_ptags_locked();
 }
 
 void handle_port_absent_message(federate_info_t* sending_federate, unsigned char* buffer) {
@@ -1012,6 +1036,7 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
   notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
   free(visited);
+  update_upstream_of_ptags_locked();
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -1065,6 +1090,7 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
   notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
   free(visited);
+  update_upstream_of_ptags_locked();
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
-- 
2.43.0


From 0f03ffee4fae4b8e99a88417a63d7bd8e3b4f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:01 +0000
Subject: [PATCH 31/50] fix: RTI does not grant a PTAG upstream before the
 completion of earlier tags is reported

---
 core/federated/RTI/rti_remote.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 5ea0117..55c2539 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -231,6 +231,12 @@ static void grant_upstream_of_ptag_locked(scheduling_node_t* e, tag_t tag) {
     if (upstream->state == NOT_CONNECTED)
       continue;
 
+    // Ignore this federate if it has not reported completing all earlier tags. If granted this tag now, it
+    // would advance to it without sending another NET, and nobody would learn that it has completed those.
+    // It will be considered again when its NET arrives.
+    if (lf_tag_compare(upstream->next_event, tag) < 0)
+      continue;
+
     tag_t earliest = earliest_future_incoming_message_tag(upstream);
     tag_t strict_earliest = eimt_strict(upstream); // Non-ZDC version.
 
-- 
2.43.0


From 476624e4842873aca505faa499b866a6f6128295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:38 +0000
Subject: [PATCH 32/50] fix: RTI does not wait for stop replies from federates
 that have left

---
 core/federated/RTI/rti_remote.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 55c2539..bdcfa05 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1027,6 +1027,11 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   // Indicate that there will no further events from this federate.
   my_fed->enclave.next_event = FOREVER_TAG;
 
+  // It will not reply to a stop request anymore, so do not wait for that.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // According to this: https://stackoverflow.com/questions/4160347/close-vs-shutdown-socket,
   // the close should happen when receiving a 0 length message from the other end.
   // Here, we just signal the other side that no further writes to the socket are
@@ -1074,6 +1079,11 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   // Indicate that there will no further events from this federate.
   my_fed->enclave.next_event = FOREVER_TAG;
 
+  // It will not reply to a stop request anymore, so do not wait for that.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // According to this: https://stackoverflow.com/questions/4160347/close-vs-shutdown-socket,
   // the close should happen when receiving a 0 length message from the other end.
   // Here, we just signal the other side that no further writes to the socket are
-- 
2.43.0


From ebc1bde9f28b7eb59fa499568c803b1fedc05994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:16 +0000
Subject: [PATCH 33/50] fix: RTI treats a federate whose connection is lost as
 having resigned

---
 core/federated/RTI/rti_remote.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index bdcfa05..ad236ea 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1127,8 +1127,6 @@ void* federate_info_thread_TCP(void* fed) {
     if (read_failed) {
       // Socket is closed
       lf_print_error("RTI: Socket to federate %d is closed. Exiting the thread.", my_fed->enclave.id);
-      my_fed->enclave.state = NOT_CONNECTED;
-      my_fed->socket = -1;
       // FIXME: We need better error handling here, but do not stop execution here.
       break;
     }
@@ -1179,10 +1177,23 @@ void* federate_info_thread_TCP(void* fed) {
     }
   }
 
-  // Nothing more to do. Close the socket and exit.
+  // The connection is lost although the federate did not resign. Close the socket and exit.
   // Prevent multiple threads from closing the same socket at the same time.
   LF_MUTEX_LOCK(&rti_mutex);
+  my_fed->enclave.state = NOT_CONNECTED;
+
+  // As when a federate resigns, there will be no further events and no reply to a stop request from this federate.
+  my_fed->enclave.next_event = FOREVER_TAG;
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
   close(my_fed->socket); //  from unistd.h
+
+  // Check downstream federates to see whether they should now be granted a TAG.
+  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
+  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
+  free(visited);
+  update_upstream_of_ptags_locked();
   LF_MUTEX_UNLOCK(&rti_mutex);
   return NULL;
 }
-- 
2.43.0


From 5d24336bd118432e623553c3f96149da5d12e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:45 +0000
Subject: [PATCH 34/50] fix: RTI does not exit when forwarding to a federate
 whose connection is lost

A message, port absent, stop request, or stop granted message that cannot be
written to one federate terminated the RTI and with it the whole federation.
---
 core/federated/RTI/rti_remote.c | 36 +++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index ad236ea..8343d7b 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -311,6 +311,19 @@ void update_federate_next_event_tag_locked(uint16_t federate_id, tag_t next_even
   update_upstream_of_ptags_locked();
 }
 
+/**
+ * Forward a message to the specified federate. If this fails, the connection to that federate has been lost.
+ * This is no reason to terminate the whole federation, so just update the federate's status.
+ * The thread that listens to the federate handles the rest.
+ * This function assumes the caller holds the rti_mutex lock.
+ */
+static void forward_to_federate_locked(federate_info_t* fed, size_t num_bytes, unsigned char* buffer) {
+  if (write_to_socket(fed->socket, num_bytes, buffer)) {
+    lf_print_error("RTI failed to forward a message to federate %d.", fed->enclave.id);
+    fed->enclave.state = NOT_CONNECTED;
+  }
+}
+
 void handle_port_absent_message(federate_info_t* sending_federate, unsigned char* buffer) {
   size_t message_size = sizeof(uint16_t) + sizeof(uint16_t) + sizeof(int64_t) + sizeof(uint32_t);
 
@@ -363,8 +376,7 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   }
 
   // Forward the message.
-  write_to_socket_fail_on_error(&fed->socket, message_size + 1, buffer, &rti_mutex,
-                                "RTI failed to forward message to federate %d.", federate_id);
+  forward_to_federate_locked(fed, message_size + 1, buffer);
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -459,8 +471,7 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
 
-  write_to_socket_fail_on_error(&fed->socket, bytes_read, buffer, &rti_mutex,
-                                "RTI failed to forward message to federate %d.", federate_id);
+  forward_to_federate_locked(fed, bytes_read, buffer);
 
   // The message length may be longer than the buffer,
   // in which case we have to handle it in chunks.
@@ -479,8 +490,14 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
     // do not write to destination_socket and cause interleaving. However,
     // holding the rti_mutex might be very expensive. Instead, each outgoing
     // socket should probably have its own mutex.
-    write_to_socket_fail_on_error(&fed->socket, bytes_to_read, buffer, &rti_mutex,
-                                  "RTI failed to send message chunks.");
+    // If forwarding has failed, the remainder of the message still has to be removed from the socket.
+    if (fed->enclave.state != NOT_CONNECTED) {
+      forward_to_federate_locked(fed, bytes_to_read, buffer);
+    }
+  }
+  if (fed->enclave.state == NOT_CONNECTED) {
+    LF_MUTEX_UNLOCK(&rti_mutex);
+    return;
   }
 
   // Record this in-transit message in federate's in-transit message queue.
@@ -585,8 +602,7 @@ static void broadcast_stop_time_to_federates_locked() {
     if (rti_remote->base.tracing_enabled) {
       tracepoint_rti_to_federate(send_STOP_GRN, fed->enclave.id, &rti_remote->base.max_stop_tag);
     }
-    write_to_socket_fail_on_error(&fed->socket, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, &rti_mutex,
-                                  "RTI failed to send MSG_TYPE_STOP_GRANTED message to federate %d.", fed->enclave.id);
+    forward_to_federate_locked(fed, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer);
   }
 
   LF_PRINT_LOG("RTI sent to federates MSG_TYPE_STOP_GRANTED with tag " PRINTF_TAG,
@@ -705,9 +721,7 @@ void handle_stop_request_message(federate_info_t* fed) {
       if (rti_remote->base.tracing_enabled) {
         tracepoint_rti_to_federate(send_STOP_REQ, f->enclave.id, &rti_remote->base.max_stop_tag);
       }
-      write_to_socket_fail_on_error(&f->socket, MSG_TYPE_STOP_REQUEST_LENGTH, stop_request_buffer, &rti_mutex,
-                                    "RTI failed to forward MSG_TYPE_STOP_REQUEST message to federate %d.",
-                                    f->enclave.id);
+      forward_to_federate_locked(f, MSG_TYPE_STOP_REQUEST_LENGTH, stop_request_buffer);
     }
   }
   LF_PRINT_LOG("RTI forwarded to federates MSG_TYPE_STOP_REQUEST with tag (" PRINTF_TIME ", %u).",
-- 
2.43.0


From b00e3da3c03396ac5d6d768bc448e48246f0eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:09 +0000
Subject: [PATCH 35/50] fix: while waiting for a tag advance grant, never
 announce a later next event tag

---
 core/federated/federate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 9be45fd..0222366 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2454,9 +2454,12 @@ tag_t lf_send_next_event_tag(environment_t* env, tag_t tag, bool wait_for_reply)
         if (lf_tag_compare(_fed.last_TAG, next_tag) >= 0 || lf_tag_compare(_fed.last_TAG, tag) >= 0) {
           return _fed.last_TAG;
         }
-        if (lf_tag_compare(next_tag, tag) != 0) {
+        // Only an earlier event does. The tag this federate is waiting for is not necessarily that of an
+        // event on the queue (it may be the start tag), and a later NET would renounce it.
+        if (lf_tag_compare(next_tag, tag) < 0) {
           send_tag(MSG_TYPE_NEXT_EVENT_TAG, next_tag);
           _fed.last_sent_NET = next_tag;
+          tag = next_tag;
           LF_PRINT_LOG("Sent next event tag (NET) " PRINTF_TAG " to RTI from loop.", next_tag.time - lf_time_start(),
                        next_tag.microstep);
         }
-- 
2.43.0


From a26038c41895acec2cb9188bb30c0355cd4d1348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:16 +0000
Subject: [PATCH 36/50] fix: GEDF scheduler stalls for unknown network inputs
 at every level before completing a tag

---
 core/threaded/scheduler_GEDF_NP.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/threaded/scheduler_GEDF_NP.c b/core/threaded/scheduler_GEDF_NP.c
index 84afee3..dfed1ba 100644
--- a/core/threaded/scheduler_GEDF_NP.c
+++ b/core/threaded/scheduler_GEDF_NP.c
@@ -207,6 +207,14 @@ reaction_t* lf_sched_get_ready_reaction(lf_scheduler_t* scheduler, int worker_nu
 
       // If all other workers are idle, then we are done with this tag.
       if (scheduler->number_of_idle_workers == scheduler->number_of_workers - 1) {
+#ifdef FEDERATED
+        // A network input whose status at the current tag is not yet known may still trigger a reaction
+        // at one of the remaining levels. Visit these, stalling where necessary, before completing the tag.
+        if (scheduler->custom_data->current_level < scheduler->max_reaction_level) {
+          advance_level(scheduler);
+          continue;
+        }
+#endif
         // Last thread to go idle
         LF_PRINT_DEBUG("Scheduler: Worker %d is advancing the tag.", worker_number);
         if (advance_tag(scheduler)) {
-- 
2.43.0


From f3c866c063306494f737fde329d372688ae7b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 37/50] fix: a trigger that is on time does not erase the STP
 violation of another trigger of the same reaction

---
 core/reactor_common.c            | 7 ++++---
 core/threaded/reactor_threaded.c | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 500f3e8..562cf8e 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -744,9 +744,10 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
           for (int k = 0; k < trigger->number_of_reactions; k++) {
             reaction_t* downstream_reaction = trigger->reactions[k];
 #ifdef FEDERATED_DECENTRALIZED // Only pass down tardiness for federated LF programs
-            // Set the is_STP_violated for the downstream reaction
-            if (downstream_reaction != NULL) {
-              downstream_reaction->is_STP_violated = inherited_STP_violation;
+            // Set the is_STP_violated for the downstream reaction. Another of its triggers may have
+            // set it already at this tag. It is reset once the reaction has executed.
+            if (downstream_reaction != NULL && inherited_STP_violation) {
+              downstream_reaction->is_STP_violated = true;
               LF_PRINT_DEBUG("Passing is_STP_violated of %d to the downstream reaction: %s",
                              downstream_reaction->is_STP_violated, downstream_reaction->name);
             }
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 7b72ae5..270036f 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -788,6 +788,10 @@ bool _lf_worker_handle_violations(environment_t* env, int worker_number, reactio
 
   violation = _lf_worker_handle_deadline_violation_for_reaction(env, worker_number, reaction) ||
               _lf_worker_handle_STP_violation_for_reaction(env, worker_number, reaction);
+  if (violation) {
+    // The reaction will not be invoked.
+    reaction->is_STP_violated = false;
+  }
   return violation;
 }
 
-- 
2.43.0


From 0bad818a39cff54bbd9cfcdcc1cd955102e4b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:58 +0000
Subject: [PATCH 38/50] fix: an STP violation that a handler has dealt with is
 not passed on when the reaction executes immediately

---
 core/reactor_common.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 562cf8e..63b17af 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -822,13 +822,14 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         LF_PRINT_LOG("Invoke tardiness handler.");
         (*handler)(downstream_to_execute_now->self);
 
+        // Reset the tardiness because it has been dealt with in the
+        // STP handler. Downstream handlers should not be invoked.
+        downstream_to_execute_now->is_STP_violated = false;
+
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
         schedule_output_reactions(env, downstream_to_execute_now, worker);
 
-        // Reset the tardiness because it has been dealt with in the
-        // STP handler
-        downstream_to_execute_now->is_STP_violated = false;
         LF_PRINT_DEBUG("Reset reaction's is_STP_violated field to false: %s", downstream_to_execute_now->name);
       }
     }
-- 
2.43.0


From c13f5f210aa306156724acff04392c72a1cd84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:14 +0000
Subject: [PATCH 39/50] fix: RTI does not exit when a federate is lost in the
 middle of a message

---
 core/federated/RTI/rti_remote.c | 59 +++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 8343d7b..b9d1545 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -324,12 +324,25 @@ static void forward_to_federate_locked(federate_info_t* fed, size_t num_bytes, u
   }
 }
 
+/**
+ * Read from the socket of the specified federate. If this fails, the connection to that federate has been lost.
+ * This is no reason to terminate the whole federation. The thread that listens to the federate handles the rest.
+ * @return 0 if the requested number of bytes was read, nonzero otherwise.
+ */
+static int read_from_federate(federate_info_t* fed, size_t num_bytes, unsigned char* buffer, const char* what) {
+  int read_failed = read_from_socket(fed->socket, num_bytes, buffer);
+  if (read_failed) {
+    lf_print_error("RTI failed to read the %s from federate %d.", what, fed->enclave.id);
+  }
+  return read_failed;
+}
+
 void handle_port_absent_message(federate_info_t* sending_federate, unsigned char* buffer) {
   size_t message_size = sizeof(uint16_t) + sizeof(uint16_t) + sizeof(int64_t) + sizeof(uint32_t);
 
-  read_from_socket_fail_on_error(&sending_federate->socket, message_size, &(buffer[1]), NULL,
-                                 " RTI failed to read port absent message from federate %u.",
-                                 sending_federate->enclave.id);
+  if (read_from_federate(sending_federate, message_size, &(buffer[1]), "port absent message")) {
+    return;
+  }
 
   uint16_t reactor_port_id = extract_uint16(&(buffer[1]));
   uint16_t federate_id = extract_uint16(&(buffer[1 + sizeof(uint16_t)]));
@@ -384,8 +397,9 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
 void handle_timed_message(federate_info_t* sending_federate, unsigned char* buffer) {
   size_t header_size = 1 + sizeof(uint16_t) + sizeof(uint16_t) + sizeof(uint32_t) + sizeof(int64_t) + sizeof(uint32_t);
   // Read the header, minus the first byte which has already been read.
-  read_from_socket_fail_on_error(&sending_federate->socket, header_size - 1, &(buffer[1]), NULL,
-                                 "RTI failed to read the timed message header from remote federate.");
+  if (read_from_federate(sending_federate, header_size - 1, &(buffer[1]), "header of a timed message")) {
+    return;
+  }
   // Extract the header information. of the sender
   uint16_t reactor_port_id;
   uint16_t federate_id;
@@ -413,8 +427,10 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
                sending_federate->enclave.id, federate_id, reactor_port_id, intended_tag.time - lf_time_start(),
                intended_tag.microstep);
 
-  read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, &(buffer[header_size]), NULL,
-                                 "RTI failed to read timed message from federate %d.", federate_id);
+  if (read_from_federate(sending_federate, bytes_to_read, &(buffer[header_size]), "timed message")) {
+    // Nothing has been forwarded yet.
+    return;
+  }
   size_t bytes_read = bytes_to_read + header_size;
   // Following only works for string messages.
   // LF_PRINT_DEBUG("Message received by RTI: %s.", buffer + header_size);
@@ -449,8 +465,9 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
       if (bytes_to_read > FED_COM_BUFFER_SIZE) {
         bytes_to_read = FED_COM_BUFFER_SIZE;
       }
-      read_from_socket_fail_on_error(&sending_federate->socket, bytes_to_read, buffer, NULL,
-                                     "RTI failed to clear message chunks.");
+      if (read_from_federate(sending_federate, bytes_to_read, buffer, "remainder of a timed message")) {
+        break;
+      }
       total_bytes_read += bytes_to_read;
     }
     LF_MUTEX_UNLOCK(&rti_mutex);
@@ -526,9 +543,9 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
 
 void handle_latest_tag_confirmed(federate_info_t* fed) {
   unsigned char buffer[sizeof(int64_t) + sizeof(uint32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer, NULL,
-                                 "RTI failed to read the content of the logical tag complete from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_federate(fed, sizeof(int64_t) + sizeof(uint32_t), buffer, "content of the logical tag complete")) {
+    return;
+  }
   tag_t completed = extract_tag(buffer);
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_from_federate(receive_LTC, fed->enclave.id, &completed);
@@ -544,9 +561,9 @@ void handle_latest_tag_confirmed(federate_info_t* fed) {
 
 void handle_next_event_tag(federate_info_t* fed) {
   unsigned char buffer[sizeof(int64_t) + sizeof(uint32_t)];
-  read_from_socket_fail_on_error(&fed->socket, sizeof(int64_t) + sizeof(uint32_t), buffer, NULL,
-                                 "RTI failed to read the content of the next event tag from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_federate(fed, sizeof(int64_t) + sizeof(uint32_t), buffer, "content of the next event tag")) {
+    return;
+  }
 
   // Acquire a mutex lock to ensure that this state does not change while a
   // message is in transport or being used to determine a TAG.
@@ -654,9 +671,9 @@ void handle_stop_request_message(federate_info_t* fed) {
 
   size_t bytes_to_read = MSG_TYPE_STOP_REQUEST_LENGTH - 1;
   unsigned char buffer[bytes_to_read];
-  read_from_socket_fail_on_error(&fed->socket, bytes_to_read, buffer, NULL,
-                                 "RTI failed to read the MSG_TYPE_STOP_REQUEST payload from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_federate(fed, bytes_to_read, buffer, "MSG_TYPE_STOP_REQUEST payload")) {
+    return;
+  }
 
   // Extract the proposed stop tag for the federate
   tag_t proposed_stop_tag = extract_tag(buffer);
@@ -732,9 +749,9 @@ void handle_stop_request_message(federate_info_t* fed) {
 void handle_stop_request_reply(federate_info_t* fed) {
   size_t bytes_to_read = MSG_TYPE_STOP_REQUEST_REPLY_LENGTH - 1;
   unsigned char buffer_stop_time[bytes_to_read];
-  read_from_socket_fail_on_error(&fed->socket, bytes_to_read, buffer_stop_time, NULL,
-                                 "RTI failed to read the reply to MSG_TYPE_STOP_REQUEST message from federate %d.",
-                                 fed->enclave.id);
+  if (read_from_federate(fed, bytes_to_read, buffer_stop_time, "reply to MSG_TYPE_STOP_REQUEST message")) {
+    return;
+  }
 
   tag_t federate_stop_tag = extract_tag(buffer_stop_time);
 
-- 
2.43.0


From 58610ba0202525e2d25a8a47f446499ecf22ac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:17 +0000
Subject: [PATCH 40/50] fix: RTI accepts any prefix of its federation ID

The federation ID sent by a joining federate was compared with the RTI's only
up to the length received, so a federate of another federation (or with an
empty federation ID) could join.
---
 core/federated/RTI/rti_remote.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index b9d1545..94b624c 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1313,7 +1313,9 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
       tracepoint_rti_from_federate(receive_FED_ID, fed_id, NULL);
     }
     // Compare the received federation ID to mine.
-    if (strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
+    // The length has to match, too, because otherwise any prefix of the federation ID would be accepted.
+    if (federation_id_length != strnlen(rti_remote->federation_id, 255) ||
+        memcmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
       // Federation IDs do not match. Send back a MSG_TYPE_REJECT message.
       lf_print_warning("Federate from another federation %s attempted to connect to RTI in federation %s.",
                        federation_id_received, rti_remote->federation_id);
-- 
2.43.0


From c2b255eb6fee7c2b19ed0bc78c5c8939daafc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:17 +0000
Subject: [PATCH 41/50] fix: federate accepts peers with a wrong federation ID
 prefix, an unknown or a connected federate ID

An unknown federate ID was used as an index into the table of connections.
---
 core/federated/federate.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 0222366..6eeac91 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2193,8 +2193,8 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
     unsigned char federation_id_length = buffer[header_length - 1];
     char remote_federation_id[federation_id_length];
     read_failed = read_from_socket(socket_id, federation_id_length, (unsigned char*)remote_federation_id);
-    if (read_failed || (strncmp(federation_metadata.federation_id, remote_federation_id,
-                                strnlen(federation_metadata.federation_id, 255)) != 0)) {
+    if (read_failed || federation_id_length != strnlen(federation_metadata.federation_id, 255) ||
+        (memcmp(federation_metadata.federation_id, remote_federation_id, federation_id_length) != 0)) {
       lf_print_warning("Received invalid federation ID. Closing socket.");
       if (read_failed == 0) {
         unsigned char response[2];
@@ -2216,6 +2216,21 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
     // Trace the event when tracing is enabled
     tracepoint_federate_to_federate(receive_FED_ID, _lf_my_fed_id, remote_fed_id, NULL);
 
+    // Check that the ID is valid and that there is no connection from this federate yet.
+    bool out_of_range = remote_fed_id >= NUMBER_OF_FEDERATES;
+    if (out_of_range || _fed.sockets_for_inbound_p2p_connections[remote_fed_id] >= 0) {
+      lf_print_warning("Received invalid federate ID %d. Closing socket.", remote_fed_id);
+      unsigned char response[2];
+      response[0] = MSG_TYPE_REJECT;
+      response[1] = out_of_range ? FEDERATE_ID_OUT_OF_RANGE : FEDERATE_ID_IN_USE;
+      // Trace the event when tracing is enabled
+      tracepoint_federate_to_federate(send_REJECT, _lf_my_fed_id, -3, NULL);
+      // Ignore errors on this response.
+      write_to_socket(socket_id, 2, response);
+      close(socket_id);
+      continue;
+    }
+
     // Once we record the socket_id here, all future calls to close() on
     // the socket should be done while holding the socket_mutex, and this array
     // element should be reset to -1 during that critical section.
-- 
2.43.0


From 49d8d0465d1917f576e84a3d6d183bb585167151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:17 +0000
Subject: [PATCH 42/50] fix: RTI exits when an authentication handshake is
 malformed

Any connection that sent a wrong or incomplete message in place of the nonce
or the response ended the federation.
---
 core/federated/RTI/rti_remote.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 94b624c..b499ab0 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1563,10 +1563,14 @@ static bool authenticate_federate(int* socket) {
   // Wait for MSG_TYPE_FED_NONCE from federate.
   size_t fed_id_length = sizeof(uint16_t);
   unsigned char buffer[1 + fed_id_length + NONCE_LENGTH];
-  read_from_socket_fail_on_error(socket, 1 + fed_id_length + NONCE_LENGTH, buffer, NULL,
-                                 "Failed to read MSG_TYPE_FED_NONCE");
+  if (read_from_socket_close_on_error(socket, 1 + fed_id_length + NONCE_LENGTH, buffer)) {
+    lf_print_error("Failed to read MSG_TYPE_FED_NONCE");
+    return false;
+  }
   if (buffer[0] != MSG_TYPE_FED_NONCE) {
-    lf_print_error_and_exit("Received unexpected response %u from the FED (see net_common.h).", buffer[0]);
+    lf_print_error("Received unexpected response %u from the FED (see net_common.h).", buffer[0]);
+    send_reject(socket, UNEXPECTED_MESSAGE);
+    return false;
   }
   unsigned int hmac_length = SHA256_HMAC_LENGTH;
   size_t federation_id_length = strnlen(rti_remote->federation_id, 255);
@@ -1594,9 +1598,13 @@ static bool authenticate_federate(int* socket) {
 
   // Wait for MSG_TYPE_FED_RESPONSE
   unsigned char received[1 + hmac_length];
-  read_from_socket_fail_on_error(socket, 1 + hmac_length, received, NULL, "Failed to read federate response.");
+  if (read_from_socket_close_on_error(socket, 1 + hmac_length, received)) {
+    lf_print_error("Failed to read federate response.");
+    return false;
+  }
   if (received[0] != MSG_TYPE_FED_RESPONSE) {
-    lf_print_error_and_exit("Received unexpected response %u from the federate (see net_common.h).", received[0]);
+    lf_print_error("Received unexpected response %u from the federate (see net_common.h).", received[0]);
+    send_reject(socket, UNEXPECTED_MESSAGE);
     return false;
   }
   // HMAC tag is created with MSG_TYPE_FED_RESPONSE and RTI's nonce.
-- 
2.43.0


From 7bfa81eb230eb0b30cef729667cd8932dfe1b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:30 +0000
Subject: [PATCH 43/50] fix: a lost clock synchronization message stops clock
 synchronization for good

The RTI waited for the reply of a federate with read_from_socket(), which
retries after a timeout, so one lost datagram blocked the clock
synchronization thread forever. It also ended when every federate missed one
round.
---
 core/federated/RTI/rti_remote.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index b499ab0..0e3a43a 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -978,6 +978,7 @@ void* clock_synchronization_thread(void* noargs) {
       } else if (!fed->clock_synchronization_enabled) {
         continue;
       }
+      any_federates_connected = true;
       // Send the RTI's current physical time to the federate
       // Send on UDP.
       LF_PRINT_DEBUG("RTI sending T1 message to initiate clock sync round.");
@@ -992,9 +993,11 @@ void* clock_synchronization_thread(void* noargs) {
       int remaining_attempts = 5;
       while (remaining_attempts > 0) {
         remaining_attempts--;
-        int read_failed = read_from_socket(rti_remote->socket_descriptor_UDP, message_size, buffer);
+        // Read one datagram. The read times out (see UDP_TIMEOUT_TIME) if the reply, or the message it answers, is lost.
+        // Do not use read_from_socket() here, which would keep waiting.
+        ssize_t bytes_read = recv(rti_remote->socket_descriptor_UDP, buffer, message_size, 0);
         // If any errors occur, either discard the message or the clock sync round.
-        if (!read_failed) {
+        if (bytes_read == (ssize_t)message_size) {
           if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
             int32_t fed_id_2 = extract_int32(&(buffer[1]));
             // Check that this message came from the correct federate.
@@ -1024,9 +1027,6 @@ void* clock_synchronization_thread(void* noargs) {
           remaining_attempts = -1;
         }
       }
-      if (remaining_attempts > 0) {
-        any_federates_connected = true;
-      }
     }
   }
   return NULL;
-- 
2.43.0


From 5671991b6e5d9ce385bd5319ac032f96ee9bca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:30 +0000
Subject: [PATCH 44/50] fix: RTI waits for clock synchronization replies of
 federates that never reply

A federate without runtime clock synchronization has no UDP port, but the RTI
kept sending to it, delaying the synchronization of the other federates.
---
 core/federated/RTI/rti_remote.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 0e3a43a..0d5f5b2 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1529,11 +1529,14 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
       }
       if (rti_remote->clock_sync_global_status >= clock_sync_on) {
         // If no runtime clock sync, no need to set up the UDP port.
-        if (federate_UDP_port_number > 0) {
+        if (federate_UDP_port_number > 0 && federate_UDP_port_number != UINT16_MAX) {
           // Initialize the UDP_addr field of the federate struct
           fed->UDP_addr.sin_family = AF_INET;
           fed->UDP_addr.sin_port = htons(federate_UDP_port_number);
           fed->UDP_addr.sin_addr = fed->server_ip_addr;
+        } else {
+          // This federate does not perform runtime clock synchronization. It would never reply.
+          fed->clock_synchronization_enabled = false;
         }
       } else {
         // Disable clock sync after initial round.
-- 
2.43.0


From 7c5a47cc144a08c7683cfde8453d8dc61483fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:24 +0000
Subject: [PATCH 45/50] fix: tracing stops a program whose watchdogs run in
 threads of their own

The tracing module allocates one buffer per worker, but each watchdog thread
records events too and registers a thread ID of its own, beyond the buffers.
The bound check let the first ID past the end through.
---
 core/reactor_common.c       | 4 ++++
 trace/impl/src/trace_impl.c | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 63b17af..b80ec11 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1123,6 +1123,10 @@ void initialize_global(void) {
   environment_t* envs;
   int num_envs = _lf_get_environments(&envs);
   int max_threads_tracing = envs[0].num_workers * num_envs + 1; // add 1 for the main thread
+  // Each watchdog has a thread of its own.
+  for (int i = 0; i < num_envs; i++) {
+    max_threads_tracing += envs[i].watchdogs_size;
+  }
 #endif
 
 #if defined(FEDERATED)
diff --git a/trace/impl/src/trace_impl.c b/trace/impl/src/trace_impl.c
index f819507..23d2a3a 100644
--- a/trace/impl/src/trace_impl.c
+++ b/trace/impl/src/trace_impl.c
@@ -229,7 +229,7 @@ void lf_tracing_tracepoint(int worker, trace_record_nodeps_t* tr) {
     // Therefore we should fall back to using a mutex.
     lf_platform_mutex_lock(trace_mutex);
   }
-  if (tid > (int)trace._lf_number_of_trace_buffers) {
+  if (tid >= (int)trace._lf_number_of_trace_buffers) {
     lf_print_error_and_exit("the thread id (%d) exceeds the number of trace buffers (%zu)", tid,
                             trace._lf_number_of_trace_buffers);
   }
-- 
2.43.0


From d35b11516e2c7867672b9e1352e38ca00fd53db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:40 +0000
Subject: [PATCH 46/50] fix: trace_to_csv counts an unknown object as the first
 one of the object table

The lookup reported index 0 when it found nothing, so a schedule call without a
trigger, or an event of an unknown reactor, was added to the first object's row.
---
 util/tracing/trace_to_csv.c | 12 ++++++++++++
 util/tracing/trace_util.c   |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/util/tracing/trace_to_csv.c b/util/tracing/trace_to_csv.c
index 1ddf4a9..c797ba9 100644
--- a/util/tracing/trace_to_csv.c
+++ b/util/tracing/trace_to_csv.c
@@ -157,6 +157,10 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
           fprintf(stderr, "WARNING: Too many reactions. Not all will be shown in summary file.\n");
           continue;
         }
+        if (object_instance < 0) {
+          // Unknown reactor. Do not report.
+          continue;
+        }
         stats = summary_stats[NUM_EVENT_TYPES + object_instance];
         stats->description = reactor_name;
         if (trace[i].dst_id >= stats->num_reactions_seen) {
@@ -187,12 +191,20 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
         stats->description = trigger_name;
         break;
       case user_event:
+        if (object_instance < 0) {
+          // Unknown event. Do not report.
+          continue;
+        }
         // Although these are not exec times and not reactions,
         // commandeer the first entry in the reactions array to track values.
         stats = summary_stats[NUM_EVENT_TYPES + object_instance];
         stats->description = reactor_name;
         break;
       case user_value:
+        if (object_instance < 0) {
+          // Unknown event. Do not report.
+          continue;
+        }
         // Although these are not exec times and not reactions,
         // commandeer the first entry in the reactions array to track values.
         stats = summary_stats[NUM_EVENT_TYPES + object_instance];
diff --git a/util/tracing/trace_util.c b/util/tracing/trace_util.c
index ed32c5b..0b27031 100644
--- a/util/tracing/trace_util.c
+++ b/util/tracing/trace_util.c
@@ -147,7 +147,7 @@ char* get_object_description(void* pointer, int* index) {
     }
   }
   if (index != NULL) {
-    *index = 0;
+    *index = -1;
   }
   return NULL;
 }
@@ -172,7 +172,7 @@ char* get_trigger_name(void* trigger, int* index) {
     }
   }
   if (index != NULL) {
-    *index = 0;
+    *index = -1;
   }
   return NULL;
 }
-- 
2.43.0


From 0bab33ea980b6ddc5f9252f1a9c8e94ec596b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:40 +0000
Subject: [PATCH 47/50] fix: trace_to_csv reports a wrong minimum or maximum

A minimum of zero was taken to mean that nothing was seen yet, and the maximum
of values that are all negative was zero.
---
 util/tracing/trace_to_csv.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/util/tracing/trace_to_csv.c b/util/tracing/trace_to_csv.c
index c797ba9..aef0e6c 100644
--- a/util/tracing/trace_to_csv.c
+++ b/util/tracing/trace_to_csv.c
@@ -174,10 +174,10 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
           exec_time = trace[i].physical_time - rstats->latest_start_time;
           rstats->latest_start_time = 0LL;
           rstats->total_exec_time += exec_time;
-          if (exec_time > rstats->max_exec_time) {
+          if (exec_time > rstats->max_exec_time || rstats->occurrences == 1) {
             rstats->max_exec_time = exec_time;
           }
-          if (exec_time < rstats->min_exec_time || rstats->min_exec_time == 0LL) {
+          if (exec_time < rstats->min_exec_time || rstats->occurrences == 1) {
             rstats->min_exec_time = exec_time;
           }
         }
@@ -214,10 +214,10 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
         // User values are stored in the "extra_delay" field, which is an interval_t.
         interval_t value = trace[i].extra_delay;
         rstats->total_exec_time += value;
-        if (value > rstats->max_exec_time) {
+        if (value > rstats->max_exec_time || rstats->occurrences == 1) {
           rstats->max_exec_time = value;
         }
-        if (value < rstats->min_exec_time || rstats->min_exec_time == 0LL) {
+        if (value < rstats->min_exec_time || rstats->occurrences == 1) {
           rstats->min_exec_time = value;
         }
         break;
@@ -257,10 +257,10 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
           exec_time = trace[i].physical_time - rstats->latest_start_time;
           rstats->latest_start_time = 0LL;
           rstats->total_exec_time += exec_time;
-          if (exec_time > rstats->max_exec_time) {
+          if (exec_time > rstats->max_exec_time || rstats->occurrences == 1) {
             rstats->max_exec_time = exec_time;
           }
-          if (exec_time < rstats->min_exec_time || rstats->min_exec_time == 0LL) {
+          if (exec_time < rstats->min_exec_time || rstats->occurrences == 1) {
             rstats->min_exec_time = exec_time;
           }
         }
-- 
2.43.0


From 4cb0d287b74cc88dddf4c7538776eefe9319f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:40 +0000
Subject: [PATCH 48/50] fix: trace_to_csv writes waits of workers beyond the
 table and prints them wrongly

The bound left out the number of event types, a thread that is not a worker (ID
-1) wrote over another object's row, and the numbers of each worker were stored
at an index beyond what was printed.
---
 util/tracing/trace_to_csv.c | 41 ++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/util/tracing/trace_to_csv.c b/util/tracing/trace_to_csv.c
index aef0e6c..333e2d4 100644
--- a/util/tracing/trace_to_csv.c
+++ b/util/tracing/trace_to_csv.c
@@ -225,17 +225,18 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
       case worker_wait_ends:
       case scheduler_advancing_time_starts:
       case scheduler_advancing_time_ends:
-        // Use the reactions array to store data.
-        // There will be two entries per worker, one for waits on the
+        // Commandeer the first entry in the reactions array to store data.
+        // There are two stats table entries per worker, one for waits on the
         // reaction queue and one for waits while advancing time.
-        index = trace[i].src_id * 2;
+        // The first two are for a thread that is not a worker, which has the ID -1.
+        index = (trace[i].src_id + 1) * 2;
         // Even numbered indices are used for waits on reaction queue.
         // Odd numbered indices for waits for time advancement.
         if (trace[i].event_type == scheduler_advancing_time_starts ||
             trace[i].event_type == scheduler_advancing_time_ends) {
           index++;
         }
-        if (object_table_size + index >= table_size) {
+        if (index < 0 || NUM_EVENT_TYPES + object_table_size + index >= table_size) {
           fprintf(stderr, "WARNING: Too many workers. Not all will be shown in summary file.\n");
           continue;
         }
@@ -244,12 +245,7 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
           stats = (summary_stats_t*)calloc(1, sizeof(summary_stats_t));
           summary_stats[NUM_EVENT_TYPES + object_table_size + index] = stats;
         }
-        // num_reactions_seen here will be used to store the number of
-        // entries in the reactions array, which is twice the number of workers.
-        if (index >= stats->num_reactions_seen) {
-          stats->num_reactions_seen = index;
-        }
-        rstats = &stats->reactions[index];
+        rstats = &stats->reactions[0];
         if (trace[i].event_type == worker_wait_starts || trace[i].event_type == scheduler_advancing_time_starts) {
           rstats->latest_start_time = trace[i].physical_time;
         } else {
@@ -359,29 +355,22 @@ void write_summary_file() {
 
   // Next pass looks for wait events.
   first = true;
-  for (int i = NUM_EVENT_TYPES; i < table_size; i++) {
+  for (int i = NUM_EVENT_TYPES + object_table_size; i < table_size; i++) {
     summary_stats_t* stats = summary_stats[i];
-    if (stats != NULL &&
-        (stats->event_type == worker_wait_ends || stats->event_type == scheduler_advancing_time_ends)) {
+    if (stats != NULL && stats->reactions[0].occurrences > 0) {
       if (first) {
         first = false;
         fprintf(summary_file, "\nWorkers Waiting\n");
         fprintf(summary_file,
                 "Worker, Waiting On, Occurrences, Total Time, Pct Total Time, Avg Time, Max Time, Min Time\n");
       }
-      char* waitee = "reaction queue";
-      if (stats->event_type == scheduler_advancing_time_ends || stats->event_type == scheduler_advancing_time_starts) {
-        waitee = "advancing time";
-      }
-      for (int j = 0; j <= stats->num_reactions_seen; j++) {
-        reaction_stats_t* rstats = &stats->reactions[j];
-        if (rstats->occurrences > 0) {
-          fprintf(summary_file, "%d, %s, %d, " PRINTF_TIME ", %f, " PRINTF_TIME ", " PRINTF_TIME ", " PRINTF_TIME "\n",
-                  j / 2, waitee, rstats->occurrences, rstats->total_exec_time,
-                  rstats->total_exec_time * 100.0 / (latest_time - start_time),
-                  rstats->total_exec_time / rstats->occurrences, rstats->max_exec_time, rstats->min_exec_time);
-        }
-      }
+      int index = i - NUM_EVENT_TYPES - object_table_size;
+      char* waitee = (index % 2 == 0) ? "reaction queue" : "advancing time";
+      reaction_stats_t* rstats = &stats->reactions[0];
+      fprintf(summary_file, "%d, %s, %d, " PRINTF_TIME ", %f, " PRINTF_TIME ", " PRINTF_TIME ", " PRINTF_TIME "\n",
+              index / 2 - 1, waitee, rstats->occurrences, rstats->total_exec_time,
+              rstats->total_exec_time * 100.0 / (latest_time - start_time),
+              rstats->total_exec_time / rstats->occurrences, rstats->max_exec_time, rstats->min_exec_time);
     }
   }
 }
-- 
2.43.0


From 31ec7176b76b3f58b7eb1f86e3c1db77ec9ad75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:17 +0000
Subject: [PATCH 49/50] fix: a network message is lost when it meets two events
 of its trigger at successive microsteps

_lf_schedule_at_tag added one microstep to the tag of a deferred event without
checking whether the trigger has an event at that tag, too, in which case one
of the two messages was overwritten. It also kept a reference to the token of
an event deferred past the stop tag.
---
 core/reactor_common.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index b80ec11..5adc55a 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -542,13 +542,16 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       return 0;
       break;
     default:
-      // Adding a microstep to the original
-      // intended tag.
-      tag.microstep++;
-      e->base.tag = tag;
+      // Adding microsteps to the original intended tag
+      // until there is no event of this trigger at that tag.
+      do {
+        tag.microstep++;
+        e->base.tag = tag;
+      } while (pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e) != NULL);
       if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
         // Scheduling e will incur a microstep after the stop tag,
         // which is illegal.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
-- 
2.43.0


From c5d5dbc9eac26e5410aa07b41aa4ef84c12374e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:20 +0000
Subject: [PATCH 50/50] fix: the adaptive scheduler loses a reaction when a
 message inserts one into the current level

A worker claims a reaction by decrementing the counter and only then reads
the slot. A message inserted in between reuses the slot: the worker executes
the inserted reaction twice and loses the one it claimed. Protect the queues
with a mutex in federated programs, where insertions are concurrent.
---
 core/threaded/scheduler_adaptive.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 73b52a3..a0c1bf5 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -82,6 +82,10 @@ typedef struct {
   reaction_t*** reactions_by_worker;
   /** The total number of workers active, including those who have finished their work. */
   size_t num_workers;
+#ifdef FEDERATED
+  /** Protects the queued reactions because messages can insert reactions into the current level. */
+  lf_mutex_t queue_mutex;
+#endif
 } worker_assignments_t;
 
 typedef struct {
@@ -183,6 +187,9 @@ static void worker_assignments_init(lf_scheduler_t* scheduler, size_t number_of_
           (reaction_t**)malloc(sizeof(reaction_t*) * num_reactions); // Warning: This wastes space.
     }
   }
+#ifdef FEDERATED
+  LF_MUTEX_INIT(&worker_assignments->queue_mutex);
+#endif
   set_level(scheduler, 0);
 }
 
@@ -209,6 +216,18 @@ static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
   // The counter must never be decremented below zero, not even temporarily: another worker that looks
   // at it in the meantime would see (part of) a negative number. Moreover, in federated programs,
   // reactions may be inserted into the current level.
+#ifdef FEDERATED
+  // Claiming the last reaction and reading it must not be interleaved with an insertion, which would reuse its slot.
+  reaction_t* reaction = NULL;
+  LF_MUTEX_LOCK(&worker_assignments->queue_mutex);
+  size_t num_reactions = worker_assignments->num_reactions_by_worker[worker];
+  if (num_reactions > 0) {
+    reaction = worker_assignments->reactions_by_worker[worker][num_reactions - 1];
+    worker_assignments->num_reactions_by_worker[worker] = num_reactions - 1;
+  }
+  LF_MUTEX_UNLOCK(&worker_assignments->queue_mutex);
+  return reaction;
+#else
   int old_num_reactions;
   int current_num_reactions = worker_assignments->num_reactions_by_worker[worker];
   int index;
@@ -220,6 +239,7 @@ static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
                 lf_atomic_val_compare_and_swap(worker_assignments->num_reactions_by_worker + worker, old_num_reactions,
                                                (index = old_num_reactions - 1))) != old_num_reactions);
   return worker_assignments->reactions_by_worker[worker][index];
+#endif
 }
 
 /**
@@ -273,9 +293,15 @@ static void worker_assignments_put(lf_scheduler_t* scheduler, reaction_t* reacti
   hash = (hash ^ (hash >> 27)) * 0x94d049bb133111eb;
   hash = hash ^ (hash >> 31);
   size_t worker = hash % worker_assignments->num_workers_by_level[level];
+#ifdef FEDERATED
+  LF_MUTEX_LOCK(&worker_assignments->queue_mutex);
+#endif
   size_t num_preceding_reactions =
       lf_atomic_fetch_add(&worker_assignments->num_reactions_by_worker_by_level[level][worker], 1);
   worker_assignments->reactions_by_worker_by_level[level][worker][num_preceding_reactions] = reaction;
+#ifdef FEDERATED
+  LF_MUTEX_UNLOCK(&worker_assignments->queue_mutex);
+#endif
 }
 
 ///////////////////////// Private Worker States Functions ///////////////////////////
-- 
2.43.0

