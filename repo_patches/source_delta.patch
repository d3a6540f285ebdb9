From df0e8c759f37142a609c22b3c5bdeeb6ad73fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 01/36] fix: retry_when and on_error_resume_next drop the
 failed observable

A failed source that was not finished by its own error (another source of a
merge, the rest of a synchronous sequence after a throwing callback) stayed
subscribed and went on emitting to the subscriber.
---
 src/rpp/rpp/operators/on_error_resume_next.hpp | 11 ++++++++---
 src/rpp/rpp/operators/retry_when.hpp           |  9 +++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/rpp/rpp/operators/on_error_resume_next.hpp b/src/rpp/rpp/operators/on_error_resume_next.hpp
index 4426cc2..a83087b 100644
--- a/src/rpp/rpp/operators/on_error_resume_next.hpp
+++ b/src/rpp/rpp/operators/on_error_resume_next.hpp
@@ -55,10 +55,13 @@ namespace rpp::operators::details
             : state{std::make_shared<TObserver>(std::move(observer))}
             , selector{selector}
         {
+            state->set_upstream(disposable);
         }
 
         std::shared_ptr<TObserver>     state;
         RPP_NO_UNIQUE_ADDRESS Selector selector;
+        // upstreams of original (failed) observable only
+        rpp::composite_disposable_wrapper disposable = composite_disposable_wrapper::make();
 
         template<typename T>
         void on_next(T&& v) const
@@ -70,7 +73,9 @@ namespace rpp::operators::details
         {
             try
             {
-                selector(err).subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
+                const auto observable = selector(err);
+                disposable.dispose();
+                observable.subscribe(on_error_resume_next_inner_observer_strategy<TObserver>{state});
             }
             catch (...)
             {
@@ -85,10 +90,10 @@ namespace rpp::operators::details
 
         void set_upstream(const disposable_wrapper& d) const
         {
-            state->set_upstream(d);
+            disposable.add(d);
         }
 
-        bool is_disposed() const { return state->is_disposed(); }
+        bool is_disposed() const { return disposable.is_disposed(); }
     };
 
     template<rpp::constraint::decayed_type Selector>
diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index ef9f28a..7206184 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -92,6 +92,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
+        mutable bool                                                         locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -101,9 +102,12 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
+            locally_disposed = true;
             try
             {
-                state->notifier(err).subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
+                const auto notifier = state->notifier(err);
+                state->disposable.clear();
+                notifier.subscribe(retry_when_impl_inner_strategy<TObserver, TObservable, TNotifier>{state});
             }
             catch (...)
             {
@@ -113,12 +117,13 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
+            locally_disposed = true;
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable, typename TNotifier>
-- 
2.43.0


From 65e57611942eb2f705a098833d2867005450cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 02/36] fix: concat loses an observable pushed while the last
 one completes

The queue was found empty and the stage reset without holding the queue lock,
so an inner observable arriving in between was queued and never subscribed.
---
 src/rpp/rpp/operators/concat.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/rpp/rpp/operators/concat.hpp b/src/rpp/rpp/operators/concat.hpp
index 0537253..f71f22a 100644
--- a/src/rpp/rpp/operators/concat.hpp
+++ b/src/rpp/rpp/operators/concat.hpp
@@ -51,6 +51,17 @@ namespace rpp::operators::details
 
         std::atomic<ConcatStage>& stage() { return m_stage; }
 
+        template<typename T>
+        bool try_start_draining_or_push(T&& observable)
+        {
+            auto        queue   = get_queue();
+            ConcatStage current = ConcatStage::None;
+            if (stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
+                return true;
+            queue->push(std::forward<T>(observable));
+            return false;
+        }
+
         void drain(rpp::composite_disposable_wrapper refcounted)
         {
             while (!m_disposable->is_disposed())
@@ -58,7 +69,6 @@ namespace rpp::operators::details
                 const auto observable = get_observable();
                 if (!observable)
                 {
-                    stage().store(ConcatStage::None, std::memory_order::relaxed);
                     refcounted.dispose();
                     if (m_disposable->is_disposed())
                         get_observer()->on_completed();
@@ -95,7 +105,11 @@ namespace rpp::operators::details
         {
             auto queue = get_queue();
             if (queue->empty())
+            {
+                // under lock of queue: otherwise new observable can be pushed to queue and never drained
+                stage().store(ConcatStage::None, std::memory_order::seq_cst);
                 return std::nullopt;
+            }
             auto observable = queue->front();
             queue->pop();
             return observable;
@@ -174,11 +188,9 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            ConcatStage current = ConcatStage::None;
-            if (base::state->stage().compare_exchange_strong(current, ConcatStage::Draining, std::memory_order::seq_cst))
-                base::state->handle_observable(std::forward<T>(v), base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
-            else
-                base::state->get_queue()->push(std::forward<T>(v));
+            if (base::state->try_start_draining_or_push(std::forward<T>(v)))
+                // not pushed to queue -> was not moved
+                base::state->handle_observable(v, base::state->get_disposable()->add_ref(refcount_disposable::Mode::StrongRefRefSource));
         }
 
         void on_completed() const
-- 
2.43.0


From b0a50ef490404b1094d890f39105dbe6c21b6bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 03/36] fix: switch_on_next emits stale items and completes
 without its source

An item or error of the replaced observable waiting for the lock was forwarded
after the switch; and an outer source that dropped its observer without a
terminal event (never) counted as completed.
---
 src/rpp/rpp/operators/switch_on_next.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rpp/rpp/operators/switch_on_next.hpp b/src/rpp/rpp/operators/switch_on_next.hpp
index 5a578b0..d9b7c9a 100644
--- a/src/rpp/rpp/operators/switch_on_next.hpp
+++ b/src/rpp/rpp/operators/switch_on_next.hpp
@@ -57,12 +57,17 @@ namespace rpp::operators::details
         template<typename T>
         void on_next(T&& v) const
         {
-            m_state->get_observer()->on_next(std::forward<T>(v));
+            // need to check under lock: this observable can be replaced by another one while waiting for lock
+            const auto observer = m_state->get_observer();
+            if (!is_disposed())
+                observer->on_next(std::forward<T>(v));
         }
 
         void on_error(const std::exception_ptr& err) const
         {
-            m_state->get_observer()->on_error(err);
+            const auto observer = m_state->get_observer();
+            if (!is_disposed())
+                observer->on_error(err);
         }
 
         void on_completed() const
@@ -99,7 +104,7 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             m_last_refcount.dispose();
-            m_last_refcount = m_state->add_ref();
+            m_last_refcount = m_state->add_ref(refcount_disposable::Mode::StrongRefRefSource);
             std::forward<T>(v).subscribe(switch_on_next_inner_observer_strategy<TObserver>{m_state, m_last_refcount});
         }
 
@@ -129,7 +134,7 @@ namespace rpp::operators::details
 
     private:
         std::shared_ptr<switch_on_next_state_t<TObserver>> m_state;
-        rpp::composite_disposable_wrapper                  m_this_refcount = m_state->add_ref();
+        rpp::composite_disposable_wrapper                  m_this_refcount = m_state->add_ref(refcount_disposable::Mode::StrongRefRefSource);
         mutable rpp::composite_disposable_wrapper          m_last_refcount = composite_disposable_wrapper::empty();
     };
 
-- 
2.43.0


From 8ee3aa357e4c08d0f5977e3d4eb226862c2accb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:19 +0000
Subject: [PATCH 04/36] fix: window_toggle completes a window outside of its
 lock

Closing a window raced with the delivery of items to the same window; and a
synchronous openings source went on opening windows for a gone subscriber.
---
 src/rpp/rpp/operators/window_toggle.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rpp/rpp/operators/window_toggle.hpp b/src/rpp/rpp/operators/window_toggle.hpp
index c51d918..8de3a20 100644
--- a/src/rpp/rpp/operators/window_toggle.hpp
+++ b/src/rpp/rpp/operators/window_toggle.hpp
@@ -98,11 +98,15 @@ namespace rpp::operators::details
         {
             disposable->remove(this_disposable);
 
-            itr->on_completed();
+            // take window out of state first: nobody else can notify this window during its completion
+            std::list<std::remove_cvref_t<decltype(*itr)>> closed{};
+            {
+                auto locked_state = state->get_state_under_lock();
+                closed.splice(closed.cend(), locked_state->observers, itr);
+            }
+
+            closed.front().on_completed();
             this_disposable.dispose();
-
-            auto locked_state = state->get_state_under_lock();
-            locked_state->observers.erase(itr);
         }
 
         void set_upstream(const disposable_wrapper& d) const { this_disposable.add(d); }
@@ -135,7 +139,7 @@ namespace rpp::operators::details
 
         static void on_completed() {}
         static void set_upstream(const disposable_wrapper&) {}
-        static bool is_disposed() { return false; }
+        bool        is_disposed() const { return disposable->is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, rpp::constraint::observable TOpeningsObservable, typename TClosingsSelectorFn>
-- 
2.43.0


From ffb97688291894aa90c771f6ed6395708965a16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 05/36] fix: timeout emits into a moved-from observer

An item waiting for the lock while the timeout fires was forwarded to the
observer that had been handed over to the fallback observable.
---
 src/rpp/rpp/operators/timeout.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpp/rpp/operators/timeout.hpp b/src/rpp/rpp/operators/timeout.hpp
index 4d2ce27..aa1936a 100644
--- a/src/rpp/rpp/operators/timeout.hpp
+++ b/src/rpp/rpp/operators/timeout.hpp
@@ -82,6 +82,10 @@ namespace rpp::operators::details
         void on_next(T&& v) const
         {
             auto obs_with_timeout = disposable->get_observer_with_timeout_under_lock();
+            // timeout can be reached while waiting for lock: observer is moved to fallback in this case
+            if (disposable->is_disposed())
+                return;
+
             obs_with_timeout->observer.on_next(std::forward<T>(v));
             obs_with_timeout->timeout = rpp::schedulers::utils::get_worker_t<TScheduler>::now() + disposable->get_period();
         }
-- 
2.43.0


From f1358a210531d5241dec789c164bb9c1c33e704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 06/36] fix: debounce loses its pending value on completion

The scheduled action took the pending value before the observer's lock, so a
completion in between was forwarded first and the value dropped. The action is
also no longer scheduled under the state's mutex: a scheduler executing it in
place deadlocked.
---
 src/rpp/rpp/operators/debounce.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/rpp/rpp/operators/debounce.hpp b/src/rpp/rpp/operators/debounce.hpp
index 0bb9c12..fddf3d4 100644
--- a/src/rpp/rpp/operators/debounce.hpp
+++ b/src/rpp/rpp/operators/debounce.hpp
@@ -47,14 +47,15 @@ namespace rpp::operators::details
         template<typename TT>
         void emplace_safe(TT&& v)
         {
-            std::lock_guard lock{m_mutex};
-            m_value_to_be_emitted.emplace(std::forward<TT>(v));
-            const bool need_to_scheduled        = !m_time_when_value_should_be_emitted.has_value();
-            m_time_when_value_should_be_emitted = m_worker.now() + m_period;
-            if (need_to_scheduled)
+            const auto time = m_worker.now() + m_period;
             {
-                schedule();
+                std::lock_guard lock{m_mutex};
+                m_value_to_be_emitted.emplace(std::forward<TT>(v));
+                if (std::exchange(m_time_when_value_should_be_emitted, time).has_value())
+                    return;
             }
+            // not under lock: scheduler can execute schedulable immediately
+            schedule(time);
         }
 
         std::optional<T> extract_value()
@@ -66,17 +67,19 @@ namespace rpp::operators::details
         rpp::utils::pointer_under_lock<Observer> get_observer_under_lock() { return m_observer; }
 
     private:
-        void schedule()
+        void schedule(schedulers::time_point time)
         {
             m_worker.schedule(
-                m_time_when_value_should_be_emitted.value(),
+                time,
                 [](const debounce_state_wrapper<Observer, Worker>& handler) -> schedulers::optional_delay_to {
+                    // lock before extracting of value: otherwise on_completed can be forwarded before this value
+                    auto observer          = handler.state->get_observer_under_lock();
                     auto value_or_duration = handler.state->extract_value_or_time();
                     if (auto* timepoint = std::get_if<schedulers::time_point>(&value_or_duration))
                         return schedulers::optional_delay_to{*timepoint};
 
                     if (auto* value = std::get_if<T>(&value_or_duration))
-                        handler.state->get_observer_under_lock()->on_next(std::move(*value));
+                        observer->on_next(std::move(*value));
 
                     return std::nullopt;
                 },
-- 
2.43.0


From 5313aba43847c24874d359edc9ddae78446c5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 07/36] fix: observe_on delivers an error in parallel with an
 item

The error was forwarded from the source's thread while the scheduler's thread
could still be inside the observer's on_next.
---
 src/rpp/rpp/operators/delay.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/operators/delay.hpp b/src/rpp/rpp/operators/delay.hpp
index 612df5c..d6a664d 100644
--- a/src/rpp/rpp/operators/delay.hpp
+++ b/src/rpp/rpp/operators/delay.hpp
@@ -53,6 +53,7 @@ namespace rpp::operators::details
         std::mutex              mutex{};
         std::queue<emission<T>> queue;
         bool                    is_active{};
+        bool                    is_emitting{};
     };
 
     template<rpp::constraint::observer Observer, typename Worker>
@@ -116,7 +117,10 @@ namespace rpp::operators::details
             if constexpr (ClearOnError && rpp::constraint::decayed_same_as<std::exception_ptr, TT>)
             {
                 state->queue = std::queue<emission<rpp::utils::extract_observer_type_t<Observer>>>{};
-                state->observer.on_error(std::forward<TT>(item));
+                if (state->is_emitting) // to not overlap with current emission: would be emitted just after it
+                    state->queue.emplace(std::forward<TT>(item), state->worker.now());
+                else
+                    state->observer.on_error(std::forward<TT>(item));
                 return std::nullopt;
             }
             else
@@ -137,6 +141,7 @@ namespace rpp::operators::details
             while (true)
             {
                 std::unique_lock lock{state->mutex};
+                state->is_emitting = false;
                 if (state->queue.empty())
                 {
                     state->is_active = false;
@@ -149,6 +154,7 @@ namespace rpp::operators::details
 
                 auto item = std::move(top.value);
                 state->queue.pop();
+                state->is_emitting = true;
                 lock.unlock();
 
                 std::visit(rpp::utils::overloaded{[&](rpp::utils::extract_observer_type_t<Observer>&& v) { state->observer.on_next(std::move(v)); },
-- 
2.43.0


From eff5101fc1f5c5199f2c0d89cd4eff19dd464db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 08/36] fix: clear of composite_disposable spins forever on
 re-entrant access

Children were disposed while the container was locked for editing, so a child
which touches the same disposable never returned.
---
 src/rpp/rpp/disposables/composite_disposable.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index 25b05d9..b13ef19 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -130,18 +130,13 @@ namespace rpp
                 // need to acquire possible disposables state changing from other `add` or `remove`
                 if (m_current_state.compare_exchange_strong(expected, State::Edit, std::memory_order::seq_cst))
                 {
-                    try
-                    {
-                        m_disposables.dispose();
-                        m_disposables.clear();
-                    }
-                    catch (...)
-                    {
-                        m_current_state.store(State::None, std::memory_order::seq_cst);
-                        throw;
-                    }
+                    Container to_dispose{std::move(m_disposables)};
+                    m_disposables.clear();
                     // need to propogate disposables state changing to others
                     m_current_state.store(State::None, std::memory_order::seq_cst);
+
+                    // not in Edit state: underlying disposables can access this disposable during disposing
+                    to_dispose.dispose();
                     return;
                 }
 
-- 
2.43.0


From 222af9265df48d8d701b4617bc79f689027942f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 09/36] fix: data race in thread_pool on worker selection

---
 src/rpp/rpp/schedulers/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/thread_pool.hpp b/src/rpp/rpp/schedulers/thread_pool.hpp
index 906733d..3d9edd4 100644
--- a/src/rpp/rpp/schedulers/thread_pool.hpp
+++ b/src/rpp/rpp/schedulers/thread_pool.hpp
@@ -14,6 +14,7 @@
 
 #include <rpp/schedulers/new_thread.hpp>
 
+#include <atomic>
 #include <vector>
 
 namespace rpp::schedulers
@@ -84,7 +85,7 @@ namespace rpp::schedulers
 
         private:
             std::vector<original_worker> m_workers{};
-            size_t                       m_index{};
+            std::atomic<size_t>          m_index{};
         };
 
         std::shared_ptr<state> m_state{};
-- 
2.43.0


From 826da0c00900404470436bf9347ad61097bc4b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 10/36] fix: subscribing to a subject invalidates iteration of
 on_next

on_next iterates over the shared deque without a lock, on_subscribe appended to
the same deque.
---
 src/rpp/rpp/subjects/details/subject_state.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 12969ff..ff5882d 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -85,16 +85,10 @@ namespace rpp::subjects::details
                 [&](const shared_observers& observers) {
                     auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
                     auto ptr = d.lock();
-                    if (!observers)
-                    {
-                        auto new_observers = std::make_shared<subject_state::observers>();
-                        new_observers->emplace_back(ptr);
-                        m_state = std::move(new_observers);
-                    }
-                    else
-                    {
-                        observers->emplace_back(ptr);
-                    }
+                    // current deque can be in use by on_next in the same time -> need to copy it
+                    auto new_observers = observers ? std::make_shared<subject_state::observers>(*observers) : std::make_shared<subject_state::observers>();
+                    new_observers->emplace_back(ptr);
+                    m_state = std::move(new_observers);
 
                     lock.unlock();
                     ptr->set_upstream(d.as_weak());
@@ -116,7 +110,7 @@ namespace rpp::subjects::details
             if (!std::holds_alternative<shared_observers>(m_state))
                 return;
 
-            // we are getting copy of curent deque and obtaining CURRENT begin/end of in case of some new observer would be added during on_next call
+            // we are getting current deque, it is not changed anymore: new deque would be created in case of some new observer would be added during on_next call
             const auto observers = std::get<shared_observers>(m_state);
             if (!observers)
                 return;
-- 
2.43.0


From 2ff0924164fc06c8651863f8535b2b27b44e407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:46 +0000
Subject: [PATCH 11/36] fix: serialized behavior and replay subjects lose or
 repeat values

Storing a value and notifying about it, and replaying values and subscribing,
were not atomic: a concurrent subscriber could miss a value or get it twice, and
the stored order could differ from the notified one.
---
 src/rpp/rpp/subjects/behavior_subject.hpp      |  4 ++++
 src/rpp/rpp/subjects/details/subject_state.hpp | 11 ++++++++---
 src/rpp/rpp/subjects/replay_subject.hpp        |  4 ++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/rpp/rpp/subjects/behavior_subject.hpp b/src/rpp/rpp/subjects/behavior_subject.hpp
index 3ab5dc9..818e1e1 100644
--- a/src/rpp/rpp/subjects/behavior_subject.hpp
+++ b/src/rpp/rpp/subjects/behavior_subject.hpp
@@ -54,6 +54,8 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
+                // order of values and order of notifications have to be the same
+                const auto lock     = state->lock_notifications();
                 *state->get_value() = v;
                 state->on_next(v);
             }
@@ -85,6 +87,8 @@ namespace rpp::subjects::details
         {
             return create_subject_on_subscribe_observable<Type, expected_disposable_strategy>([state = m_state]<rpp::constraint::observer_of_type<Type> TObs>(TObs&& observer) {
                 const auto locked = state.lock();
+                // value obtained there have to be the last one notified before subscription
+                const auto lock = locked->lock_notifications();
                 if (!locked->is_disposed())
                 {
                     auto v = *locked->get_value();
diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index ff5882d..16d1cec 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -144,6 +144,11 @@ namespace rpp::subjects::details
             dispose();
         }
 
+        /**
+         * @brief Locks notifications of serialized subject (does nothing for others) to make several actions over subject atomic.
+         */
+        [[nodiscard]] auto lock_notifications() { return std::unique_lock{m_serialized_mutex}; }
+
     private:
         void composite_dispose_impl(interface_disposable::Mode) noexcept override
         {
@@ -181,8 +186,8 @@ namespace rpp::subjects::details
         }
 
     private:
-        state_t                                                                                  m_state;
-        std::mutex                                                                               m_mutex{};
-        RPP_NO_UNIQUE_ADDRESS std::conditional_t<Serialized, std::mutex, rpp::utils::none_mutex> m_serialized_mutex{};
+        state_t                                                                                            m_state;
+        std::mutex                                                                                         m_mutex{};
+        RPP_NO_UNIQUE_ADDRESS std::conditional_t<Serialized, std::recursive_mutex, rpp::utils::none_mutex> m_serialized_mutex{};
     };
 } // namespace rpp::subjects::details
diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index a4a549d..814b860 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -94,6 +94,8 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
+                // order of values and order of notifications have to be the same
+                const auto lock = state->lock_notifications();
                 state->add_value(v);
                 state->on_next(v);
             }
@@ -130,6 +132,8 @@ namespace rpp::subjects::details
         {
             return create_subject_on_subscribe_observable<Type, expected_disposable_strategy>([state = m_state]<rpp::constraint::observer_of_type<Type> TObs>(TObs&& observer) {
                 const auto locked = state.lock();
+                // no new values between replaying of values and subscription
+                const auto lock = locked->lock_notifications();
                 for (auto&& value : locked->get_actual_values())
                     observer.on_next(std::move(value.value));
                 locked->on_subscribe(std::forward<TObs>(observer));
-- 
2.43.0


From 77984508551c7f6f44c484880676cca25194d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 12/36] fix: data race on disposed flag of concat, retry and
 retry_when

---
 src/rpp/rpp/operators/retry.hpp      |  8 ++++----
 src/rpp/rpp/operators/retry_when.hpp | 18 +++++++++---------
 src/rpp/rpp/sources/concat.hpp       |  8 ++++----
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/rpp/rpp/operators/retry.hpp b/src/rpp/rpp/operators/retry.hpp
index dbeb667..baabb60 100644
--- a/src/rpp/rpp/operators/retry.hpp
+++ b/src/rpp/rpp/operators/retry.hpp
@@ -47,7 +47,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_state_t<TObserver, TObservable>> state;
-        mutable bool                                           locally_disposed{};
+        mutable rpp::details::observers::atomic_bool           locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -57,7 +57,7 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             if (state->count == 0)
             {
                 state->observer.on_error(err);
@@ -74,7 +74,7 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_completed();
         }
 
@@ -83,7 +83,7 @@ namespace rpp::operators::details
             state->disposable.add(d);
         }
 
-        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable>
diff --git a/src/rpp/rpp/operators/retry_when.hpp b/src/rpp/rpp/operators/retry_when.hpp
index 7206184..36908b1 100644
--- a/src/rpp/rpp/operators/retry_when.hpp
+++ b/src/rpp/rpp/operators/retry_when.hpp
@@ -53,12 +53,12 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
-        mutable bool                                                         locally_disposed{};
+        mutable rpp::details::observers::atomic_bool                         locally_disposed{};
 
         template<typename T>
         void on_next(T&&) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->disposable.clear();
 
             if (state->is_inside_drain.exchange(false, std::memory_order::seq_cst))
@@ -69,19 +69,19 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_error(err);
         }
 
         void on_completed() const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) const { state->disposable.add(d); }
 
-        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver,
@@ -92,7 +92,7 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<retry_when_state<TObserver, TObservable, TNotifier>> state;
-        mutable bool                                                         locally_disposed{};
+        mutable rpp::details::observers::atomic_bool                         locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -102,7 +102,7 @@ namespace rpp::operators::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             try
             {
                 const auto notifier = state->notifier(err);
@@ -117,13 +117,13 @@ namespace rpp::operators::details
 
         void on_completed() const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_completed();
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->disposable.is_disposed(); }
     };
 
     template<rpp::constraint::observer TObserver, typename TObservable, typename TNotifier>
diff --git a/src/rpp/rpp/sources/concat.hpp b/src/rpp/rpp/sources/concat.hpp
index a3a661f..a1ef67d 100644
--- a/src/rpp/rpp/sources/concat.hpp
+++ b/src/rpp/rpp/sources/concat.hpp
@@ -55,7 +55,7 @@ namespace rpp::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         std::shared_ptr<concat_state_t<TObserver, PackedContainer>> state{};
-        mutable bool                                                locally_disposed{};
+        mutable rpp::details::observers::atomic_bool                locally_disposed{};
 
         template<typename T>
         void on_next(T&& v) const
@@ -65,17 +65,17 @@ namespace rpp::details
 
         void on_error(const std::exception_ptr& err) const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->observer.on_error(err);
         }
 
         void set_upstream(const disposable_wrapper& d) { state->disposable.add(d); }
 
-        bool is_disposed() const { return locally_disposed || state->disposable.is_disposed(); }
+        bool is_disposed() const { return locally_disposed.test() || state->disposable.is_disposed(); }
 
         void on_completed() const
         {
-            locally_disposed = true;
+            locally_disposed.set();
             state->disposable.clear();
 
             if (state->is_inside_drain.exchange(false, std::memory_order::seq_cst))
-- 
2.43.0


From 43cb7bf26b2bf9dd10c12398d250fd5c5cc1755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 13/36] fix: ref_count loses an observer that arrives while the
 last one leaves

---
 .../observables/connectable_observable.hpp    | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/rpp/rpp/observables/connectable_observable.hpp b/src/rpp/rpp/observables/connectable_observable.hpp
index 557699e..5f3e56f 100644
--- a/src/rpp/rpp/observables/connectable_observable.hpp
+++ b/src/rpp/rpp/observables/connectable_observable.hpp
@@ -51,12 +51,23 @@ namespace rpp::details
     private:
         std::pair<rpp::disposable_wrapper, rpp::composite_disposable_wrapper> on_subscribe() const
         {
-            std::unique_lock lock(m_state->mutex);
-            if (!m_state->disposable.is_disposed())
-                return {m_state->disposable.lock()->add_ref(), composite_disposable_wrapper::empty()};
-
-            m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
-            return {m_state->disposable.lock()->add_ref(), m_state->disposable};
+            while (true)
+            {
+                std::unique_lock lock(m_state->mutex);
+                const auto       current = m_state->disposable;
+                if (current.is_disposed())
+                {
+                    m_state->disposable = disposable_wrapper_impl<rpp::refcount_disposable>::make();
+                    return {m_state->disposable.lock()->add_ref(), m_state->disposable};
+                }
+
+                if (auto ref = current.lock()->add_ref(); !ref.is_disposed())
+                    return {std::move(ref), composite_disposable_wrapper::empty()};
+
+                // last reference is released by another thread right now, but disposable is not disposed yet
+                lock.unlock();
+                current.dispose();
+            }
         }
     };
 } // namespace rpp::details
-- 
2.43.0


From 02807e465b2928dc66e100b116b836821fbf09db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 14/36] fix: subject deadlocks when unsubscription destroys
 another observer

---
 src/rpp/rpp/subjects/details/subject_state.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 16d1cec..7cc769a 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -55,10 +55,12 @@ namespace rpp::subjects::details
             {
                 if (const auto shared = m_state.lock())
                 {
+                    // have to be destroyed after unlock: destruction of last reference to observer leads to its dispose (which locks mutex too)
+                    state_t          previous_state{};
                     std::unique_lock lock{shared->m_mutex};
                     process_state_unsafe(shared->m_state,
                                          [&](const shared_observers& observers) {
-                                             shared->m_state = cleanup_observers(observers, this);
+                                             previous_state = std::exchange(shared->m_state, cleanup_observers(observers, this));
                                          });
                 }
             }
-- 
2.43.0


From 057837f5781ff05924e6296f45fed6798a1af530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 15/36] fix: serialized replay and behavior subjects retain
 values emitted after the end

---
 src/rpp/rpp/subjects/behavior_subject.hpp      | 5 ++++-
 src/rpp/rpp/subjects/details/subject_state.hpp | 9 +++++++++
 src/rpp/rpp/subjects/replay_subject.hpp        | 3 +++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/subjects/behavior_subject.hpp b/src/rpp/rpp/subjects/behavior_subject.hpp
index 818e1e1..a29dade 100644
--- a/src/rpp/rpp/subjects/behavior_subject.hpp
+++ b/src/rpp/rpp/subjects/behavior_subject.hpp
@@ -55,7 +55,10 @@ namespace rpp::subjects::details
             void on_next(const Type& v) const
             {
                 // order of values and order of notifications have to be the same
-                const auto lock     = state->lock_notifications();
+                const auto lock = state->lock_notifications();
+                if (state->is_finished())
+                    return;
+
                 *state->get_value() = v;
                 state->on_next(v);
             }
diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 7cc769a..a6c7cf8 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -151,6 +151,15 @@ namespace rpp::subjects::details
          */
         [[nodiscard]] auto lock_notifications() { return std::unique_lock{m_serialized_mutex}; }
 
+        /**
+         * @brief true if on_error/on_completed was called or subject was disposed: no any new values expected
+         */
+        [[nodiscard]] bool is_finished()
+        {
+            std::lock_guard lock{m_mutex};
+            return !std::holds_alternative<shared_observers>(m_state);
+        }
+
     private:
         void composite_dispose_impl(interface_disposable::Mode) noexcept override
         {
diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index 814b860..d23376f 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -96,6 +96,9 @@ namespace rpp::subjects::details
             {
                 // order of values and order of notifications have to be the same
                 const auto lock = state->lock_notifications();
+                if (state->is_finished())
+                    return;
+
                 state->add_value(v);
                 state->on_next(v);
             }
-- 
2.43.0


From 9a70680afb04ad7135f30de31f02f72df9b81889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:31 +0000
Subject: [PATCH 16/36] fix: current_thread repeats a task relative to its
 first timepoint

---
 src/rpp/rpp/schedulers/current_thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index bf2c9ef..f4d5ca2 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -126,7 +126,8 @@ namespace rpp::schedulers
                                 }
                                 else
                                 {
-                                    details::sleep_until(top->handle_advanced_call(res.value()));
+                                    top->set_timepoint(top->handle_advanced_call(res.value()));
+                                    details::sleep_until(top->get_timepoint());
                                 }
                                 continue;
                             }
-- 
2.43.0


From d24fc059822f6ccb83dc0f7ee37d0d03de90838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:31 +0000
Subject: [PATCH 17/36] fix: current_thread runs a task disposed while waiting
 for its timepoint

---
 src/rpp/rpp/schedulers/current_thread.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/current_thread.hpp b/src/rpp/rpp/schedulers/current_thread.hpp
index f4d5ca2..2b8b753 100644
--- a/src/rpp/rpp/schedulers/current_thread.hpp
+++ b/src/rpp/rpp/schedulers/current_thread.hpp
@@ -110,7 +110,8 @@ namespace rpp::schedulers
                 if (top->is_disposed())
                     continue;
 
-                details::sleep_until(top->get_timepoint());
+                if (details::sleep_until(top->get_timepoint()) && top->is_disposed())
+                    continue;
 
                 while (true)
                 {
@@ -129,6 +130,9 @@ namespace rpp::schedulers
                                     top->set_timepoint(top->handle_advanced_call(res.value()));
                                     details::sleep_until(top->get_timepoint());
                                 }
+                                if (top->is_disposed())
+                                    break;
+
                                 continue;
                             }
                             const auto tp = top->handle_advanced_call(res.value());
-- 
2.43.0


From 027bc50eb7e0d9f2fdd4fb33ad388b9b3e27abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:50 +0000
Subject: [PATCH 18/36] fix: new_thread starves nested current_thread tasks
 behind an undelayed repetition

---
 src/rpp/rpp/schedulers/details/queue.hpp | 5 +++++
 src/rpp/rpp/schedulers/new_thread.hpp    | 2 --
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/schedulers/details/queue.hpp b/src/rpp/rpp/schedulers/details/queue.hpp
index d2578e4..ec5c6fa 100644
--- a/src/rpp/rpp/schedulers/details/queue.hpp
+++ b/src/rpp/rpp/schedulers/details/queue.hpp
@@ -19,6 +19,7 @@
 
 #include "rpp/utils/functors.hpp"
 
+#include <atomic>
 #include <condition_variable>
 #include <exception>
 #include <memory>
@@ -199,6 +200,7 @@ namespace rpp::schedulers::details
     {
         std::condition_variable_any cv{};
         std::recursive_mutex        mutex{};
+        std::atomic_bool            has_fresh_data{false};
     };
 
     template<typename NowStrategy>
@@ -253,7 +255,10 @@ namespace rpp::schedulers::details
             const auto                       s = m_shared_data.lock();
             const rpp::utils::finally_action _{[&] {
                 if (s)
+                {
+                    s->has_fresh_data.store(true);
                     s->cv.notify_one();
+                }
             }};
 
             optional_mutex<std::recursive_mutex> mutex{s ? &s->mutex : nullptr};
diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index 5cefa7e..d454a48 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -51,7 +51,6 @@ namespace rpp::schedulers
             void defer_to(time_point time_point, Fn&& fn, Handler&& handler, Args&&... args)
             {
                 m_state->queue.emplace(time_point, std::forward<Fn>(fn), std::forward<Handler>(handler), std::forward<Args>(args)...);
-                m_state->has_fresh_data.store(true);
             }
 
         private:
@@ -59,7 +58,6 @@ namespace rpp::schedulers
             {
                 details::schedulables_queue<current_thread::worker_strategy> queue{};
                 bool                                                         is_stoping{};
-                std::atomic_bool                                             has_fresh_data{false};
             };
 
             static void data_thread(std::shared_ptr<queue_data> state)
-- 
2.43.0


From af5eee7f3230f31932591c6f34e86ecd88670964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:13 +0000
Subject: [PATCH 19/36] fix: rppgrpc reports success when an error follows
 pending writes

---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index c5e73fa..1b8cbdc 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -20,6 +20,7 @@
 
 #include <deque>
 #include <mutex>
+#include <optional>
 
 namespace rppgrpc::details
 {
@@ -59,7 +60,7 @@ namespace rppgrpc::details
             }
             else if (m_finished)
             {
-                finish_writes(grpc::Status::OK);
+                finish_writes(m_finished.value());
             }
         }
 
@@ -79,18 +80,18 @@ namespace rppgrpc::details
             void on_error(const std::exception_ptr&) const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                owner.get().m_finished = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
+                    owner.get().finish_writes(owner.get().m_finished.value());
             }
             void on_completed() const
             {
                 std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = true;
+                owner.get().m_finished = grpc::Status::OK;
 
                 if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(grpc::Status::OK);
+                    owner.get().finish_writes(owner.get().m_finished.value());
             }
 
             static constexpr bool is_disposed() { return false; }
@@ -100,9 +101,9 @@ namespace rppgrpc::details
     private:
         rpp::subjects::serialized_publish_subject<TData> m_subject{};
 
-        std::mutex        m_write_mutex{};
-        std::deque<TData> m_write{};
-        bool              m_finished{};
+        std::mutex                  m_write_mutex{};
+        std::deque<TData>           m_write{};
+        std::optional<grpc::Status> m_finished{};
     };
 
     template<rpp::constraint::decayed_type TData>
-- 
2.43.0


From 2bd415d825b2e06a78aad05c0c4bf027efa3bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:11 +0000
Subject: [PATCH 20/36] fix: rppgrpc reader emits an error in parallel with an
 item

---
 src/extensions/rppgrpc/rppgrpc/details/base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index 1b8cbdc..e3c3cde 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -137,8 +137,8 @@ namespace rppgrpc::details
         }
 
     private:
-        rpp::subjects::publish_subject<TData> m_observer;
-        RPP_NO_UNIQUE_ADDRESS TData           m_data{};
+        rpp::subjects::serialized_publish_subject<TData> m_observer; // cancellation comes in parallel with messages
+        RPP_NO_UNIQUE_ADDRESS TData                      m_data{};
     };
 
 } // namespace rppgrpc::details
-- 
2.43.0


From f425f3b8a00ba44e1add501bf2c9eb4c62c2b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 21/36] fix: rppgrpc observer uses destroyed reactor when the
 call ends during emission

---
 .../rppgrpc/rppgrpc/details/base.hpp          | 104 +++++++++++++-----
 1 file changed, 77 insertions(+), 27 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/details/base.hpp b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
index e3c3cde..bab5f12 100644
--- a/src/extensions/rppgrpc/rppgrpc/details/base.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/details/base.hpp
@@ -18,19 +18,32 @@
 
 #include "rpp/subjects/publish_subject.hpp"
 
+#include <concepts>
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <optional>
+#include <utility>
 
 namespace rppgrpc::details
 {
     template<rpp::constraint::decayed_type TData>
     class base_writer
     {
+        // outlives the reactor while some thread is still emitting to the observer
+        struct state_t
+        {
+            std::mutex                  mutex{};
+            base_writer*                owner{}; // null as soon as nothing can be written anymore
+            std::deque<TData>           write{};
+            std::optional<grpc::Status> finished{};
+        };
+
     public:
         base_writer()
         {
-            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{*this});
+            m_state->owner = this;
+            m_subject.get_observable().subscribe(typename details::base_writer<TData>::observer_strategy{m_state});
         }
 
         virtual ~base_writer() noexcept = default;
@@ -44,66 +57,103 @@ namespace rppgrpc::details
         virtual void start_write(const TData& v)               = 0;
         virtual void finish_writes(const grpc::Status& status) = 0;
 
-        void handle_on_done()
+        // `action` is invoked only if something still can be written
+        template<std::invocable<> Action>
+        void handle_start(const Action& action)
+        {
+            std::lock_guard lock{m_state->mutex};
+            if (m_state->owner)
+                action();
+        }
+
+        void handle_cancel()
         {
             m_subject.get_disposable().dispose();
         }
 
+        void handle_on_done()
+        {
+            handle_cancel();
+            handle_interrupt([] {});
+        }
+
         void handle_write_done()
         {
-            std::lock_guard lock{m_write_mutex};
-            m_write.pop_front();
+            std::lock_guard lock{m_state->mutex};
+            if (!m_state->owner)
+                return;
 
-            if (!m_write.empty())
+            m_state->write.pop_front();
+
+            if (!m_state->write.empty())
             {
-                start_write(m_write.front());
+                start_write(m_state->write.front());
             }
-            else if (m_finished)
+            else if (m_state->finished)
             {
-                finish_writes(m_finished.value());
+                finish(*m_state, m_state->finished.value());
             }
         }
 
+        // nothing can be written anymore; `action` is invoked only if it was possible till now
+        template<std::invocable<> Action>
+        void handle_interrupt(const Action& action)
+        {
+            std::lock_guard lock{m_state->mutex};
+            if (std::exchange(m_state->owner, nullptr))
+                action();
+        }
+
         struct observer_strategy
         {
-            std::reference_wrapper<base_writer> owner{};
+            std::shared_ptr<state_t> state{};
 
             template<rpp::constraint::decayed_same_as<TData> T>
             void on_next(T&& message) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_write.push_back(std::forward<T>(message));
-                if (owner.get().m_write.size() == 1)
-                    owner.get().start_write(owner.get().m_write.front());
+                std::lock_guard lock{state->mutex};
+                if (!state->owner)
+                    return;
+
+                state->write.push_back(std::forward<T>(message));
+                if (state->write.size() == 1)
+                    state->owner->start_write(state->write.front());
             }
 
             void on_error(const std::exception_ptr&) const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"};
-
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(owner.get().m_finished.value());
+                on_finish(grpc::Status{grpc::StatusCode::INTERNAL, "Internal error happens"});
             }
+
             void on_completed() const
             {
-                std::lock_guard lock{owner.get().m_write_mutex};
-                owner.get().m_finished = grpc::Status::OK;
-
-                if (owner.get().m_write.size() == 0)
-                    owner.get().finish_writes(owner.get().m_finished.value());
+                on_finish(grpc::Status::OK);
             }
 
             static constexpr bool is_disposed() { return false; }
             static constexpr void set_upstream(const rpp::disposable_wrapper&) {}
+
+        private:
+            void on_finish(const grpc::Status& status) const
+            {
+                std::lock_guard lock{state->mutex};
+                state->finished = status;
+
+                if (state->write.empty())
+                    finish(*state, status);
+            }
         };
 
     private:
-        rpp::subjects::serialized_publish_subject<TData> m_subject{};
+        static void finish(state_t& state, const grpc::Status& status)
+        {
+            if (const auto owner = std::exchange(state.owner, nullptr))
+                owner->finish_writes(status);
+        }
 
-        std::mutex                  m_write_mutex{};
-        std::deque<TData>           m_write{};
-        std::optional<grpc::Status> m_finished{};
+    private:
+        rpp::subjects::serialized_publish_subject<TData> m_subject{};
+        std::shared_ptr<state_t>                         m_state = std::make_shared<state_t>();
     };
 
     template<rpp::constraint::decayed_type TData>
-- 
2.43.0


From 7c10806ad672fad846d14feeccfacd8aec034ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 22/36] fix: rppgrpc server reactor finishes the call twice on
 cancellation

---
 src/extensions/rppgrpc/rppgrpc/server_reactor.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
index 956ab6d..90ca9e1 100644
--- a/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/server_reactor.hpp
@@ -92,10 +92,9 @@ namespace rppgrpc
 
         void OnCancel() override
         {
-            details::base_writer<Response>::handle_on_done();
+            details::base_writer<Response>::handle_cancel();
             details::base_reader<Request>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
-
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::handle_interrupt([this] { Base::Finish(grpc::Status::CANCELLED); });
         }
     };
 
@@ -144,7 +143,7 @@ namespace rppgrpc
         {
             if (!ok)
             {
-                Base::Finish(grpc::Status::OK);
+                details::base_writer<Response>::handle_interrupt([this] { Base::Finish(grpc::Status::OK); });
                 return;
             }
 
@@ -161,10 +160,9 @@ namespace rppgrpc
 
         void OnCancel() override
         {
-            details::base_writer<Response>::handle_on_done();
+            details::base_writer<Response>::handle_cancel();
             details::base_reader<rpp::utils::none>::handle_on_done(std::make_exception_ptr(rppgrpc::utils::reactor_failed{"OnCancel called"}));
-
-            Base::Finish(grpc::Status::CANCELLED);
+            details::base_writer<Response>::handle_interrupt([this] { Base::Finish(grpc::Status::CANCELLED); });
         }
     };
 
-- 
2.43.0


From 5a62dcca2e3d832a26b13da712acb4bd2249a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 23/36] fix: rppgrpc client reactors start reads and writes on
 a call which is already done

---
 .../rppgrpc/rppgrpc/client_reactor.hpp        | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
index 3f62d68..bd4bf2e 100644
--- a/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
+++ b/src/extensions/rppgrpc/rppgrpc/client_reactor.hpp
@@ -44,8 +44,14 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
+            // till end of writes/reads any emission can start new write, so call can't be done yet
+            details::base_writer<Request>::handle_start([this] {
+                Base::AddHold();
+                m_hold = true;
+            });
+
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_writer<Request>::get_observer;
@@ -65,6 +71,7 @@ namespace rppgrpc
         void finish_writes(const grpc::Status&) override
         {
             Base::StartWritesDone();
+            remove_hold();
         }
 
         using Base::StartCall;
@@ -73,7 +80,10 @@ namespace rppgrpc
         void OnReadDone(bool ok) override
         {
             if (!ok)
+            {
+                details::base_writer<Request>::handle_interrupt([this] { remove_hold(); });
                 return;
+            }
 
             details::base_reader<Response>::handle_read_done();
         }
@@ -81,7 +91,10 @@ namespace rppgrpc
         void OnWriteDone(bool ok) override
         {
             if (!ok)
+            {
+                details::base_writer<Request>::handle_interrupt([this] { remove_hold(); });
                 return;
+            }
 
             details::base_writer<Request>::handle_write_done();
         }
@@ -92,6 +105,15 @@ namespace rppgrpc
             details::base_reader<Response>::handle_on_done(s.ok() ? std::exception_ptr{} : std::make_exception_ptr(rppgrpc::utils::reactor_failed{s.error_message()}));
             delete this;
         }
+
+        void remove_hold()
+        {
+            if (std::exchange(m_hold, false))
+                Base::RemoveHold();
+        }
+
+    private:
+        bool m_hold{};
     };
 
     /**
@@ -145,7 +167,10 @@ namespace rppgrpc
         void OnWriteDone(bool ok) override
         {
             if (!ok)
+            {
+                details::base_writer<Request>::handle_interrupt([] {});
                 return;
+            }
 
             details::base_writer<Request>::handle_write_done();
         }
@@ -182,8 +207,8 @@ namespace rppgrpc
 
         void init()
         {
-            Base::StartCall();
             details::base_reader<Response>::handle_read_done(true);
+            Base::StartCall();
         }
 
         using details::base_reader<Response>::get_observable;
-- 
2.43.0


From db617d059845d194ab3778c40d40c358a5802832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 24/36] fix: new_thread holds back a task scheduled while it
 waits for a later one

---
 src/rpp/rpp/schedulers/new_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/schedulers/new_thread.hpp b/src/rpp/rpp/schedulers/new_thread.hpp
index d454a48..374f53c 100644
--- a/src/rpp/rpp/schedulers/new_thread.hpp
+++ b/src/rpp/rpp/schedulers/new_thread.hpp
@@ -85,7 +85,9 @@ namespace rpp::schedulers
                     {
                         if (const auto now = worker_strategy::now(); now < state->queue.top()->get_timepoint())
                         {
-                            state->cv.wait_for(lock, state->queue.top()->get_timepoint() - now, [&] { return state->queue.top()->is_disposed() || worker_strategy::now() >= state->queue.top()->get_timepoint(); });
+                            // schedulable with earlier timepoint can be emplaced while waiting
+                            const auto top = state->queue.top();
+                            state->cv.wait_for(lock, top->get_timepoint() - now, [&] { return state->queue.top() != top || top->is_disposed() || worker_strategy::now() >= top->get_timepoint(); });
                             continue;
                         }
                     }
-- 
2.43.0


From 874ce648765f69b097f438335fa14905ae27cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:05 +0000
Subject: [PATCH 25/36] fix: rppasio umbrella header includes a missing file

---
 src/extensions/rppasio/rppasio/schedulers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers.hpp b/src/extensions/rppasio/rppasio/schedulers.hpp
index 52db068..105ced7 100644
--- a/src/extensions/rppasio/rppasio/schedulers.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers.hpp
@@ -17,4 +17,4 @@
  * @ingroup rppasio
  */
 
-#include <rppasio/schedulers/thread_pool.hpp>
+#include <rppasio/schedulers/strand.hpp>
-- 
2.43.0


From 0f743112142adcab488353dcd0043925832ca2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:22 +0000
Subject: [PATCH 26/36] fix: asio strand reorders nested current_thread tasks

---
 .../rppasio/rppasio/schedulers/strand.hpp     | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/extensions/rppasio/rppasio/schedulers/strand.hpp b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
index feb6ad8..f232d9f 100644
--- a/src/extensions/rppasio/rppasio/schedulers/strand.hpp
+++ b/src/extensions/rppasio/rppasio/schedulers/strand.hpp
@@ -113,24 +113,28 @@ namespace rppasio::schedulers
             private:
                 void process_queue()
                 {
+                    const auto now = worker_strategy::now();
                     while (!m_queue.is_empty())
                     {
                         const auto top = m_queue.pop();
                         if (top->is_disposed())
                             continue;
 
-                        m_state.defer_with_time(
-                            top->get_timepoint(),
-                            [top](const auto&) -> rpp::schedulers::optional_delay_to {
-                                if (const auto advanced_call = top->make_advanced_call())
-                                {
-                                    const auto tp = top->handle_advanced_call(*advanced_call);
-                                    top->set_timepoint(tp);
-                                    return rpp::schedulers::delay_to{tp};
-                                }
-                                return std::nullopt;
-                            },
-                            handler{top});
+                        auto fn = [top](const auto&) -> rpp::schedulers::optional_delay_to {
+                            if (const auto advanced_call = top->make_advanced_call())
+                            {
+                                const auto tp = top->handle_advanced_call(*advanced_call);
+                                top->set_timepoint(tp);
+                                return rpp::schedulers::delay_to{tp};
+                            }
+                            return std::nullopt;
+                        };
+
+                        // expired timers can be handled by different threads in any order
+                        if (top->get_timepoint() <= now)
+                            m_state.defer(std::move(fn), handler{top});
+                        else
+                            m_state.defer_with_time(top->get_timepoint(), std::move(fn), handler{top});
                     }
                     rpp::schedulers::current_thread::get_queue() = nullptr;
                 }
-- 
2.43.0


From 7a091ea9935e6f8ed677a91676e316fbf4bd689c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:44 +0000
Subject: [PATCH 27/36] fix: rppqt loses delayed tasks scheduled from threads
 without Qt's event loop

---
 .../rppqt/rppqt/schedulers/main_thread.hpp    | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
index 9a379e1..952f1a9 100644
--- a/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
+++ b/src/extensions/rppqt/rppqt/schedulers/main_thread.hpp
@@ -18,6 +18,7 @@
 #include "rpp/schedulers/fwd.hpp"
 
 #include <QCoreApplication>
+#include <QThread>
 #include <QTimer>
 #include <chrono>
 #include <concepts>
@@ -44,15 +45,37 @@ namespace rppqt::schedulers
                     return;
                 }
 
-                QTimer::singleShot(std::chrono::duration_cast<std::chrono::milliseconds>(std::max(rpp::schedulers::duration{}, duration)), application, [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
+                duration = std::max(rpp::schedulers::duration{}, duration);
+
+                auto callback = [fn = std::forward<Fn>(fn), handler = std::forward<Handler>(handler), ... args = std::forward<Args>(args)]() mutable {
                     if (!handler.is_disposed())
                         invoke(std::move(fn), std::move(handler), std::move(args)...);
-                });
+                };
+
+                if (duration == rpp::schedulers::duration{} || QThread::currentThread() == application->thread())
+                {
+                    start_timer(duration, *application, std::move(callback));
+                    return;
+                }
+
+                // timer can't be started from thread without qt's event loop
+                QMetaObject::invokeMethod(
+                    application,
+                    [application, timepoint = now() + duration, callback = std::move(callback)]() mutable {
+                        start_timer(std::max(rpp::schedulers::duration{}, timepoint - now()), *application, std::move(callback));
+                    },
+                    Qt::QueuedConnection);
             }
 
             static rpp::schedulers::time_point now() { return rpp::schedulers::clock_type::now(); }
 
         private:
+            template<typename Callback>
+            static void start_timer(rpp::schedulers::duration duration, const QCoreApplication& application, Callback&& callback)
+            {
+                QTimer::singleShot(std::chrono::duration_cast<std::chrono::milliseconds>(duration), &application, std::forward<Callback>(callback));
+            }
+
             template<rpp::schedulers::constraint::schedulable_handler Handler, typename... Args, rpp::schedulers::constraint::schedulable_delay_from_now_fn<Handler, Args...> Fn>
             static void invoke(Fn&& fn, Handler&& handler, Args&&... args)
             {
-- 
2.43.0


From 7263e9eef5a1cc975d994a39bacfec49c838e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:44 +0000
Subject: [PATCH 28/36] fix: element_at with the largest possible index emits
 the first item

---
 src/rpp/rpp/operators/element_at.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/rpp/rpp/operators/element_at.hpp b/src/rpp/rpp/operators/element_at.hpp
index 1cf3afa..fe58b14 100644
--- a/src/rpp/rpp/operators/element_at.hpp
+++ b/src/rpp/rpp/operators/element_at.hpp
@@ -26,28 +26,28 @@ namespace rpp::operators::details
         using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
 
         RPP_NO_UNIQUE_ADDRESS TObserver observer;
-        mutable size_t                  count;
+        mutable size_t                  items_to_skip;
+        mutable bool                    emitted{};
 
         template<typename T>
         void on_next(T&& v) const
         {
-            if (count)
+            if (items_to_skip)
             {
-                --count;
+                --items_to_skip;
+                return;
             }
 
-            if (!count)
-            {
-                observer.on_next(std::forward<T>(v));
-                observer.on_completed();
-            }
+            emitted = true;
+            observer.on_next(std::forward<T>(v));
+            observer.on_completed();
         }
 
         void on_error(const std::exception_ptr& err) const { observer.on_error(err); }
 
         void on_completed() const
         {
-            if (count)
+            if (!emitted)
             {
                 observer.on_error(std::make_exception_ptr(utils::out_of_range{"index is out of bounds"}));
             }
@@ -100,6 +100,6 @@ namespace rpp::operators
      */
     inline auto element_at(size_t index)
     {
-        return details::element_at_t{index + 1};
+        return details::element_at_t{index};
     }
 } // namespace rpp::operators
-- 
2.43.0


From 67217518789836e1f4f7afa639f3f8daa601994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:45 +0000
Subject: [PATCH 29/36] fix: buffer ignores its count for bool items and throws
 from subscribe for huge counts

---
 src/rpp/rpp/operators/buffer.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rpp/rpp/operators/buffer.hpp b/src/rpp/rpp/operators/buffer.hpp
index b82286f..a459d1a 100644
--- a/src/rpp/rpp/operators/buffer.hpp
+++ b/src/rpp/rpp/operators/buffer.hpp
@@ -15,6 +15,7 @@
 #include <rpp/defs.hpp>
 #include <rpp/operators/details/strategy.hpp>
 
+#include <algorithm>
 #include <cstddef>
 
 namespace rpp::operators::details
@@ -31,21 +32,21 @@ namespace rpp::operators::details
 
         buffer_observer_strategy(TObserver&& observer, size_t count)
             : m_observer{std::move(observer)}
+            , m_count{std::max(size_t{1}, count)}
         {
-            m_bucket.reserve(std::max(size_t{1}, count));
+            reserve();
         }
 
         template<typename T>
         void on_next(T&& v) const
         {
             m_bucket.push_back(std::forward<T>(v));
-            if (m_bucket.size() == m_bucket.capacity())
+            if (m_bucket.size() == m_count)
             {
-                const auto capacity = m_bucket.capacity();
                 m_observer.on_next(std::move(m_bucket));
 
                 m_bucket.clear();
-                m_bucket.reserve(capacity);
+                reserve();
             }
         }
 
@@ -63,7 +64,14 @@ namespace rpp::operators::details
         bool is_disposed() const { return m_observer.is_disposed(); }
 
     private:
+        // capacity can't be used as a limit: it can be larger than requested (std::vector<bool>), so it is only a hint
+        void reserve() const { m_bucket.reserve(std::min(m_count, max_preallocated_items)); }
+
+    private:
+        static constexpr size_t max_preallocated_items = 1024;
+
         RPP_NO_UNIQUE_ADDRESS TObserver m_observer;
+        const size_t                    m_count;
         mutable std::vector<value_type> m_bucket;
     };
 
-- 
2.43.0


From d7475fcac429bfe7b633b5614e3c0f685a1d4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:45 +0000
Subject: [PATCH 30/36] fix: take_last ignores its count for bool items and
 throws from subscribe for huge counts

---
 src/rpp/rpp/operators/take_last.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rpp/rpp/operators/take_last.hpp b/src/rpp/rpp/operators/take_last.hpp
index f12b266..ae1c8e0 100644
--- a/src/rpp/rpp/operators/take_last.hpp
+++ b/src/rpp/rpp/operators/take_last.hpp
@@ -15,6 +15,7 @@
 #include <rpp/defs.hpp>
 #include <rpp/operators/details/strategy.hpp>
 
+#include <algorithm>
 #include <cstddef>
 
 namespace rpp::operators::details
@@ -27,19 +28,21 @@ namespace rpp::operators::details
 
         take_last_observer_strategy(TObserver&& observer, size_t count)
             : m_observer{std::move(observer)}
+            , m_count{count}
         {
-            m_data.reserve(count);
+            // capacity can't be used as a limit: it can be larger than requested (std::vector<bool>), so it is only a hint
+            m_data.reserve(std::min(count, max_preallocated_items));
         }
 
         template<typename T>
         void on_next(T&& v) const
         {
             // handle case "count==0"
-            if (!m_data.capacity())
+            if (!m_count)
                 return;
 
             // handle case "count==0"
-            if (m_data.size() < m_data.capacity())
+            if (m_data.size() < m_count)
             {
                 m_data.push_back(std::forward<T>(v));
             }
@@ -75,7 +78,10 @@ namespace rpp::operators::details
 
 
     private:
+        static constexpr size_t max_preallocated_items = 1024;
+
         RPP_NO_UNIQUE_ADDRESS TObserver                                     m_observer;
+        const size_t                                                        m_count;
         mutable std::vector<rpp::utils::extract_observer_type_t<TObserver>> m_data{};
         mutable size_t                                                      m_current_end{};
     };
-- 
2.43.0


From 51a670b4dc64d113e8b996eaa545cef01997bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:23 +0000
Subject: [PATCH 31/36] fix: inner subscriptions of concat and switch_on_next
 were retained until the end of the whole subscription

composite_disposable_impl::make<TTarget>() stored the weak reference to
itself only when the target derives from the wrapper's own disposable type,
so wrappers of inner subscriptions could not remove themselves from their parent.
---
 src/rpp/rpp/disposables/disposable_wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpp/rpp/disposables/disposable_wrapper.hpp b/src/rpp/rpp/disposables/disposable_wrapper.hpp
index 26477d7..4f35243 100644
--- a/src/rpp/rpp/disposables/disposable_wrapper.hpp
+++ b/src/rpp/rpp/disposables/disposable_wrapper.hpp
@@ -134,9 +134,9 @@ namespace rpp
         {
             const auto ptr      = std::make_shared<details::auto_dispose_wrapper<TTarget>>(std::forward<TArgs>(args)...);
             auto       base_ptr = std::shared_ptr<TDisposable>{ptr, static_cast<TDisposable*>(ptr->get())};
-            if constexpr (rpp::utils::is_base_of_v<TDisposable, rpp::details::enable_wrapper_from_this>)
+            if constexpr (rpp::utils::is_base_of_v<TTarget, rpp::details::enable_wrapper_from_this>)
             {
-                base_ptr->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
+                ptr->get()->set_weak_self(std::weak_ptr<interface_disposable>(base_ptr));
             }
             return disposable_wrapper_impl{std::static_pointer_cast<interface_disposable>(std::move(base_ptr))};
         }
-- 
2.43.0


From 0f84e2865f3db7f6b5719e47bd332867e5e98a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:23 +0000
Subject: [PATCH 32/36] fix: subject asked its observers for is_disposed under
 its own mutex (deadlock)

An observer's is_disposed() may lock the mutex of a downstream operator which
in turn is disposing this very subscription (and so waits for the subject).
---
 src/rpp/rpp/subjects/details/subject_state.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index a6c7cf8..fe2201a 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -175,7 +175,8 @@ namespace rpp::subjects::details
                              current_subs->cend(),
                              std::back_inserter(*subs),
                              [&to_delete](const observer& obs) {
-                                 return to_delete != obs.get() && !obs->is_disposed();
+                                 // observers can't be asked for anything under lock
+                                 return to_delete != obs.get();
                              });
             }
             return subs;
-- 
2.43.0


From f746dc8ece86fb64a2cad28835afe9552ea0b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:23 +0000
Subject: [PATCH 33/36] fix: connectable kept the upstream resources of every
 finished connection

---
 .../observables/connectable_observable.hpp    | 44 ++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/rpp/rpp/observables/connectable_observable.hpp b/src/rpp/rpp/observables/connectable_observable.hpp
index 5f3e56f..527b920 100644
--- a/src/rpp/rpp/observables/connectable_observable.hpp
+++ b/src/rpp/rpp/observables/connectable_observable.hpp
@@ -18,6 +18,31 @@
 
 namespace rpp::details
 {
+    /**
+     * Observer of original observable for one connection: upstream is owned by disposable of connection only, so, subject doesn't keep anything from finished connections
+     */
+    template<rpp::constraint::observer TObserver>
+    struct connection_observer_strategy
+    {
+        using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
+
+        RPP_NO_UNIQUE_ADDRESS TObserver observer;
+
+        static void set_upstream(const disposable_wrapper&) noexcept {}
+
+        bool is_disposed() const noexcept { return observer.is_disposed(); }
+
+        template<typename T>
+        void on_next(T&& v) const
+        {
+            observer.on_next(std::forward<T>(v));
+        }
+
+        void on_error(const std::exception_ptr& err) const { observer.on_error(err); }
+
+        void on_completed() const { observer.on_completed(); }
+    };
+
     template<typename T>
     struct ref_count_on_subscribe_t;
 
@@ -92,6 +117,7 @@ namespace rpp
             , m_original_observable{original_observable}
             , m_subject{subject}
         {
+            dispose_connection_with_subject();
         }
 
         connectable_observable(OriginalObservable && original_observable, const Subject& subject = Subject{})
@@ -99,6 +125,7 @@ namespace rpp
             , m_original_observable{std::move(original_observable)}
             , m_subject{subject}
         {
+            dispose_connection_with_subject();
         }
 
         /**
@@ -121,7 +148,8 @@ namespace rpp
             m_state->disposable = wrapper;
             lock.unlock();
 
-            m_original_observable.subscribe(wrapper, m_subject.get_observer());
+            using connection_strategy = details::connection_observer_strategy<decltype(m_subject.get_observer())>;
+            m_original_observable.subscribe(wrapper, rpp::observer<rpp::utils::extract_observable_type_t<OriginalObservable>, connection_strategy>{m_subject.get_observer()});
             return wrapper;
         }
 
@@ -177,6 +205,20 @@ namespace rpp
             return std::move(*this) | std::forward<Op>(op);
         }
 
+    private:
+        void dispose_connection_with_subject() const
+        {
+            m_subject.get_observer().set_upstream(rpp::make_callback_disposable([weak = std::weak_ptr{m_state}]() noexcept {
+                if (const auto state = weak.lock())
+                {
+                    std::unique_lock lock(state->mutex);
+                    const auto       connection = state->disposable;
+                    lock.unlock();
+                    connection.dispose();
+                }
+            }));
+        }
+
     private:
         RPP_NO_UNIQUE_ADDRESS OriginalObservable m_original_observable;
         Subject                                  m_subject;
-- 
2.43.0


From b35663514e8d6a5bbb34fbebff3e606ac524a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:27 +0000
Subject: [PATCH 34/36] fix: subject sets upstream of an observer which can be
 notified already (data race)

---
 .../rpp/subjects/details/subject_state.hpp    | 55 ++++++++++++-------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index fe2201a..465c0de 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -81,28 +81,32 @@ namespace rpp::subjects::details
         template<rpp::constraint::observer_of_type<Type> TObs>
         void on_subscribe(TObs&& observer)
         {
+            if (is_finished())
+            {
+                notify_finished(observer);
+                return;
+            }
+
+            const auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
+            const auto ptr = d.lock();
+            // added observer can be notified from another thread immediately -> upstream have to be set before
+            ptr->set_upstream(d.as_weak());
+
             std::unique_lock lock{m_mutex};
-            process_state_unsafe(
-                m_state,
-                [&](const shared_observers& observers) {
-                    auto d   = disposable_wrapper_impl<disposable_with_observer<std::decay_t<TObs>>>::make(std::forward<TObs>(observer), this->wrapper_from_this().lock());
-                    auto ptr = d.lock();
-                    // current deque can be in use by on_next in the same time -> need to copy it
-                    auto new_observers = observers ? std::make_shared<subject_state::observers>(*observers) : std::make_shared<subject_state::observers>();
-                    new_observers->emplace_back(ptr);
-                    m_state = std::move(new_observers);
-
-                    lock.unlock();
-                    ptr->set_upstream(d.as_weak());
-                },
-                [&](const std::exception_ptr& err) {
-                    lock.unlock();
-                    observer.on_error(err);
-                },
-                [&](completed) {
-                    lock.unlock();
-                    observer.on_completed();
-                });
+            if (!std::holds_alternative<shared_observers>(m_state))
+            {
+                lock.unlock();
+                notify_finished(*ptr);
+                return;
+            }
+            if (d.is_disposed())
+                return;
+
+            // current deque can be in use by on_next in the same time -> need to copy it
+            const auto& current_observers = std::get<shared_observers>(m_state);
+            auto        new_observers     = current_observers ? std::make_shared<observers>(*current_observers) : std::make_shared<observers>();
+            new_observers->emplace_back(ptr);
+            m_state = std::move(new_observers);
         }
 
         void on_next(const Type& v)
@@ -187,6 +191,15 @@ namespace rpp::subjects::details
             std::visit(rpp::utils::overloaded{actions..., rpp::utils::empty_function_any_t{}}, state);
         }
 
+        // state is not changed anymore after finish
+        void notify_finished(const auto& observer) const
+        {
+            process_state_unsafe(
+                m_state,
+                [&](const std::exception_ptr& err) { observer.on_error(err); },
+                [&](completed) { observer.on_completed(); });
+        }
+
         shared_observers exchange_observers_under_lock_if_there(state_t&& new_val)
         {
             std::lock_guard lock{m_mutex};
-- 
2.43.0


From ba3c1021fca151d1b4949dd77e4ea2b18e397081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:09 +0000
Subject: [PATCH 35/36] fix: serialized behavior and replay subjects deadlock
 on subscription from inside of pipeline (lock held during history)

---
 src/rpp/rpp/subjects/behavior_subject.hpp     |  22 +--
 .../rpp/subjects/details/subject_state.hpp    | 163 ++++++++++++++++--
 src/rpp/rpp/subjects/replay_subject.hpp       |  22 +--
 3 files changed, 160 insertions(+), 47 deletions(-)

diff --git a/src/rpp/rpp/subjects/behavior_subject.hpp b/src/rpp/rpp/subjects/behavior_subject.hpp
index a29dade..73c751f 100644
--- a/src/rpp/rpp/subjects/behavior_subject.hpp
+++ b/src/rpp/rpp/subjects/behavior_subject.hpp
@@ -54,13 +54,7 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
-                // order of values and order of notifications have to be the same
-                const auto lock = state->lock_notifications();
-                if (state->is_finished())
-                    return;
-
-                *state->get_value() = v;
-                state->on_next(v);
+                state->on_next_with_history(v, [this](const Type& value) { *state->get_value() = value; });
             }
 
             void on_error(const std::exception_ptr& err) const { state->on_error(err); }
@@ -90,14 +84,12 @@ namespace rpp::subjects::details
         {
             return create_subject_on_subscribe_observable<Type, expected_disposable_strategy>([state = m_state]<rpp::constraint::observer_of_type<Type> TObs>(TObs&& observer) {
                 const auto locked = state.lock();
-                // value obtained there have to be the last one notified before subscription
-                const auto lock = locked->lock_notifications();
-                if (!locked->is_disposed())
-                {
-                    auto v = *locked->get_value();
-                    observer.on_next(std::move(v));
-                }
-                locked->on_subscribe(std::forward<TObs>(observer));
+                locked->on_subscribe_with_history(std::forward<TObs>(observer), [&locked] {
+                    std::deque<Type> value{};
+                    if (!locked->is_disposed())
+                        value.push_back(*locked->get_value());
+                    return value;
+                });
             });
         }
 
diff --git a/src/rpp/rpp/subjects/details/subject_state.hpp b/src/rpp/rpp/subjects/details/subject_state.hpp
index 465c0de..793b0e3 100644
--- a/src/rpp/rpp/subjects/details/subject_state.hpp
+++ b/src/rpp/rpp/subjects/details/subject_state.hpp
@@ -35,6 +35,95 @@ namespace rpp::subjects::details
     {
     };
 
+    /**
+     * Observer which obtains history of the subject: everything emitted by other threads meanwhile is postponed till the end of history
+     */
+    template<rpp::constraint::decayed_type Type, rpp::constraint::observer TObs>
+    class newcomer_state
+    {
+    public:
+        explicit newcomer_state(TObs&& observer)
+            : m_observer{std::move(observer)}
+        {
+        }
+
+        bool is_disposed() const noexcept { return m_observer.is_disposed(); }
+
+        void set_upstream(const disposable_wrapper& d) { m_upstream = d; }
+
+        template<typename Event>
+        void on_event(const Event& event)
+        {
+            {
+                std::lock_guard lock{m_mutex};
+                if (m_obtains_history)
+                {
+                    m_postponed.emplace_back(event);
+                    return;
+                }
+            }
+            notify(event);
+        }
+
+        template<typename History>
+        void obtain(History&& history)
+        {
+            if (!m_upstream.is_disposed())
+                m_observer.set_upstream(std::exchange(m_upstream, disposable_wrapper::empty()));
+
+            for (auto&& value : history)
+                m_observer.on_next(std::move(value));
+
+            while (true)
+            {
+                std::deque<event_t> postponed{};
+                {
+                    std::lock_guard lock{m_mutex};
+                    if (m_postponed.empty())
+                    {
+                        m_obtains_history = false;
+                        return;
+                    }
+                    postponed.swap(m_postponed);
+                }
+                for (const auto& event : postponed)
+                    std::visit([this](const auto& e) { notify(e); }, event);
+            }
+        }
+
+    private:
+        void notify(const Type& v) { m_observer.on_next(v); }
+        void notify(const std::exception_ptr& err) { m_observer.on_error(err); }
+        void notify(completed) { m_observer.on_completed(); }
+
+    private:
+        using event_t = std::variant<Type, std::exception_ptr, completed>;
+
+        RPP_NO_UNIQUE_ADDRESS TObs m_observer;
+        disposable_wrapper         m_upstream = disposable_wrapper::empty();
+        std::mutex                 m_mutex{};
+        bool                       m_obtains_history{true};
+        std::deque<event_t>        m_postponed{};
+    };
+
+    template<rpp::constraint::decayed_type Type, rpp::constraint::observer TObs>
+    struct newcomer_observer_strategy
+    {
+        using preferred_disposable_strategy = rpp::details::observers::none_disposable_strategy;
+
+        std::shared_ptr<newcomer_state<Type, TObs>> state;
+
+        void set_upstream(const disposable_wrapper& d) const { state->set_upstream(d); }
+
+        bool is_disposed() const noexcept { return state->is_disposed(); }
+
+        void on_next(const Type& v) const { state->on_event(v); }
+
+        void on_error(const std::exception_ptr& err) const { state->on_event(err); }
+
+        void on_completed() const { state->on_event(completed{}); }
+    };
+
     template<rpp::constraint::decayed_type Type, bool Serialized>
     class subject_state : public composite_disposable
         , public rpp::details::enable_wrapper_from_this<subject_state<Type, Serialized>>
@@ -111,23 +200,54 @@ namespace rpp::subjects::details
 
         void on_next(const Type& v)
         {
-            std::unique_lock observers_lock{m_mutex};
-
-            if (!std::holds_alternative<shared_observers>(m_state))
-                return;
-
             // we are getting current deque, it is not changed anymore: new deque would be created in case of some new observer would be added during on_next call
-            const auto observers = std::get<shared_observers>(m_state);
-            if (!observers)
-                return;
+            if (const auto observers = get_observers())
+            {
+                std::lock_guard lock{m_serialized_mutex};
+                notify(*observers, v);
+            }
+        }
 
-            const auto begin = observers->cbegin();
-            const auto end   = observers->cend();
+        /**
+         * @brief Makes actual value known (via `keep_value`) and notifies observers. Observer subscribed via `on_subscribe_with_history` obtains this value exactly once
+         */
+        void on_next_with_history(const Type& v, const auto& keep_value)
+        {
+            std::lock_guard  lock{m_serialized_mutex};
+            shared_observers observers{};
+            {
+                std::lock_guard history_lock{m_history_mutex};
+                if (is_finished())
+                    return;
+                keep_value(v);
+                observers = get_observers();
+            }
+            if (observers)
+                notify(*observers, v);
+        }
 
-            observers_lock.unlock();
+        /**
+         * @brief Emits history to observer and subscribes it. No any locks are held during calls of observer
+         */
+        template<rpp::constraint::observer_of_type<Type> TObs>
+        void on_subscribe_with_history(TObs&& observer, const auto& get_history)
+        {
+            if constexpr (Serialized)
+            {
+                const auto       state = std::make_shared<newcomer_state<Type, std::decay_t<TObs>>>(std::forward<TObs>(observer));
+                std::unique_lock history_lock{m_history_mutex};
+                auto             history = get_history();
+                on_subscribe(rpp::observer<Type, newcomer_observer_strategy<Type, std::decay_t<TObs>>>{state});
+                history_lock.unlock();
 
-            std::lock_guard lock{m_serialized_mutex};
-            std::for_each(begin, end, [&](const observer& obs) { obs->on_next(v); });
+                state->obtain(std::move(history));
+            }
+            else
+            {
+                for (auto&& value : get_history())
+                    observer.on_next(std::move(value));
+                on_subscribe(std::forward<TObs>(observer));
+            }
         }
 
         void on_error(const std::exception_ptr& err)
@@ -150,11 +270,6 @@ namespace rpp::subjects::details
             dispose();
         }
 
-        /**
-         * @brief Locks notifications of serialized subject (does nothing for others) to make several actions over subject atomic.
-         */
-        [[nodiscard]] auto lock_notifications() { return std::unique_lock{m_serialized_mutex}; }
-
         /**
          * @brief true if on_error/on_completed was called or subject was disposed: no any new values expected
          */
@@ -186,6 +301,17 @@ namespace rpp::subjects::details
             return subs;
         }
 
+        shared_observers get_observers()
+        {
+            std::lock_guard lock{m_mutex};
+            return std::holds_alternative<shared_observers>(m_state) ? std::get<shared_observers>(m_state) : shared_observers{};
+        }
+
+        static void notify(const observers& current_observers, const Type& v)
+        {
+            rpp::utils::for_each(current_observers, [&](const observer& obs) { obs->on_next(v); });
+        }
+
         static void process_state_unsafe(const state_t& state, const auto&... actions)
         {
             std::visit(rpp::utils::overloaded{actions..., rpp::utils::empty_function_any_t{}}, state);
@@ -214,5 +340,6 @@ namespace rpp::subjects::details
         state_t                                                                                            m_state;
         std::mutex                                                                                         m_mutex{};
         RPP_NO_UNIQUE_ADDRESS std::conditional_t<Serialized, std::recursive_mutex, rpp::utils::none_mutex> m_serialized_mutex{};
+        RPP_NO_UNIQUE_ADDRESS std::conditional_t<Serialized, std::mutex, rpp::utils::none_mutex>           m_history_mutex{};
     };
 } // namespace rpp::subjects::details
diff --git a/src/rpp/rpp/subjects/replay_subject.hpp b/src/rpp/rpp/subjects/replay_subject.hpp
index d23376f..d2a9d63 100644
--- a/src/rpp/rpp/subjects/replay_subject.hpp
+++ b/src/rpp/rpp/subjects/replay_subject.hpp
@@ -55,11 +55,15 @@ namespace rpp::subjects::details
             };
 
 
-            std::deque<value_with_time> get_actual_values()
+            std::deque<Type> get_actual_values()
             {
                 std::unique_lock lock{m_values_mutex};
                 deduce_timepoint();
-                return m_values;
+
+                std::deque<Type> values{};
+                for (const auto& value : m_values)
+                    values.push_back(value.value);
+                return values;
             }
 
         private:
@@ -94,13 +98,7 @@ namespace rpp::subjects::details
 
             void on_next(const Type& v) const
             {
-                // order of values and order of notifications have to be the same
-                const auto lock = state->lock_notifications();
-                if (state->is_finished())
-                    return;
-
-                state->add_value(v);
-                state->on_next(v);
+                state->on_next_with_history(v, [this](const Type& value) { state->add_value(value); });
             }
 
             void on_error(const std::exception_ptr& err) const { state->on_error(err); }
@@ -135,11 +133,7 @@ namespace rpp::subjects::details
         {
             return create_subject_on_subscribe_observable<Type, expected_disposable_strategy>([state = m_state]<rpp::constraint::observer_of_type<Type> TObs>(TObs&& observer) {
                 const auto locked = state.lock();
-                // no new values between replaying of values and subscription
-                const auto lock = locked->lock_notifications();
-                for (auto&& value : locked->get_actual_values())
-                    observer.on_next(std::move(value.value));
-                locked->on_subscribe(std::forward<TObs>(observer));
+                locked->on_subscribe_with_history(std::forward<TObs>(observer), [&locked] { return locked->get_actual_values(); });
             });
         }
 
-- 
2.43.0


From 106986fe11f325813408a108209d86b3c3323227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:10 +0000
Subject: [PATCH 36/36] fix: remove of composite_disposable spins forever when
 it drops the last owner of a disposable which accesses the composite on
 destruction

---
 src/rpp/rpp/disposables/composite_disposable.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpp/rpp/disposables/composite_disposable.hpp b/src/rpp/rpp/disposables/composite_disposable.hpp
index b13ef19..d8a45df 100644
--- a/src/rpp/rpp/disposables/composite_disposable.hpp
+++ b/src/rpp/rpp/disposables/composite_disposable.hpp
@@ -97,6 +97,9 @@ namespace rpp
 
         void remove(const disposable_wrapper& disposable) override
         {
+            // not destroyed in Edit state: underlying disposable can access this disposable during destruction
+            const auto keep_alive = disposable.lock();
+
             while (true)
             {
                 State expected{State::None};
-- 
2.43.0

