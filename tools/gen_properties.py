import json
R='src/rpp/rpp/'
def P(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":[f if f.startswith('src/') else R+f for f in files],
       "mechanism":[{"name":n,"where":(w if w.startswith('src/') else R+w)} for n,w in mech],
       "observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":R+w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
L=[]
L.append(P("P01","A subscriber sees items, then at most one terminal event, then nothing",
"Whatever an upstream does, including emitting after completion, failing twice or ignoring a dispose, every subscriber of every operator chain observes zero or more items followed by at most one error or completion, and no callback at all after that terminal event. The same holds for a subscriber attached directly to a source.",
["programs","inputs","histories"],
"for every chain of operators (any depth, any combination of single-source, multi-source, higher-order and recovery operators), every input event sequence and every misbehaving source, except source calls nested into the subscriber's own terminal callback",
"The guarantee is about every composition and every source behaviour, including ill-behaved ones; tests check a handful of operators one at a time with well-behaved sources.",
["observers/observer.hpp","observers/dynamic_observer.hpp","observers/lambda_observer.hpp","operators/details/strategy.hpp","operators/merge.hpp","operators/take.hpp"],
[("disposed guard around every notification and dispose-after-terminal","observers/observer.hpp"),("per-operator forwarding of terminal events","operators/")],
["callbacks of the final subscriber","callbacks of every inner (window/group) subscriber"]))
L.append(P("P02","Notifications to one subscriber never overlap, even with many threads",
"When several sources of one combining, higher-order, time-shifting or notifier-driven operator emit from different threads, the calls into the downstream subscriber never run at the same time and each is ordered after the previous one. This includes the inner observables produced by windowing operators and the terminal events.",
["schedules"],
"for every interleaving of every set of emitting threads over merge, flat_map, concat, switch_on_next, combine_latest, zip, with_latest_from, take_until, debounce, timeout, delay, observe_on, retry_when, window_toggle and subscribe_on",
"Overlap needs two threads inside the same operator in a window of a few instructions; unit tests are single-threaded or sample one schedule.",
["operators/merge.hpp","operators/concat.hpp","operators/switch_on_next.hpp","operators/zip.hpp","operators/combine_latest.hpp","operators/with_latest_from.hpp","operators/take_until.hpp","operators/debounce.hpp","operators/timeout.hpp","operators/delay.hpp","operators/observe_on.hpp","operators/window_toggle.hpp","operators/details/combining_strategy.hpp","utils/utils.hpp"],
[("observer kept behind a mutex","utils/utils.hpp"),("shared combining state","operators/details/combining_strategy.hpp"),("queue drained by one worker at a time","operators/delay.hpp")],
["entry/exit of the final subscriber's callbacks, per thread"]))
L.append(P("P03","Concurrent emissions are neither lost, duplicated, invented nor reordered",
"When several threads feed one operator, every item accepted before the operator's terminal event reaches the subscriber exactly the number of times the operator defines (once for merging, forwarding and queueing operators; paired by position for zip; newest-of-each for combine-latest), and items of one source keep their order. The completion arrives only after all items that precede it, and it does arrive when every source has completed.",
["schedules","histories"],
"for every interleaving of emitting, completing and failing threads over merge, flat_map, concat, switch_on_next, zip, combine_latest, with_latest_from, observe_on, delay, debounce and window_toggle",
"A lost or doubled item needs a particular interleaving of a queue hand-over or a counter update, which a sampled schedule almost never hits.",
["operators/merge.hpp","operators/concat.hpp","operators/switch_on_next.hpp","operators/zip.hpp","operators/combine_latest.hpp","operators/with_latest_from.hpp","operators/delay.hpp","operators/debounce.hpp","operators/window_toggle.hpp"],
[("hand-over between queue and active inner source","operators/concat.hpp"),("pending queue and active flag","operators/delay.hpp"),("completion counting","operators/merge.hpp")],
["log of items accepted per source and of items delivered, with unique ids"]))
L.append(P("P04","Each single-source operator computes its documented function of the input",
"For every input sequence and terminal event, filtering, transforming, aggregating, counting and side-effect operators (map, filter, take, skip, take_last, take_while, first, last, element_at, distinct, distinct_until_changed, scan, reduce, buffer, tap, start_with and their chains) emit exactly the items, in the order and at the input step, that their documentation defines. Boundary parameters, empty inputs and errors are included, and a chain computes the composition of its operators.",
["inputs","programs"],
"for every parameter value, input sequence, terminal kind and composition, with items passed by value and by reference",
"Unit tests fix one or two literal inputs per operator and never compose them; off-by-one, boundary and composition mistakes live outside these points.",
["operators/map.hpp","operators/filter.hpp","operators/take.hpp","operators/skip.hpp","operators/take_last.hpp","operators/take_while.hpp","operators/first.hpp","operators/last.hpp","operators/element_at.hpp","operators/distinct.hpp","operators/distinct_until_changed.hpp","operators/scan.hpp","operators/reduce.hpp","operators/buffer.hpp","operators/tap.hpp","operators/start_with.hpp"],
[("per-operator observer strategies","operators/"),("strategy chaining","observables/details/chain_strategy.hpp")],
["subscriber's event log after every input event"]))
L.append(P("P05","Combining operators emit exactly what their inputs' interleaving defines",
"For every interleaving of items, completions and errors on their sources, merge, concat, zip, combine_latest, with_latest_from, switch_on_next, flat_map, take_until and start_with emit exactly the items, and terminate exactly at the step, that their documentation defines. An error on any participating source terminates the result at once with that error.",
["histories","inputs"],
"for every number of sources, every interleaved script of source events (also synchronous sources) and every nesting of these operators",
"The number of interleavings of several scripts explodes; tests enumerate a handful of fixed marbles.",
["operators/merge.hpp","operators/concat.hpp","sources/concat.hpp","operators/zip.hpp","operators/combine_latest.hpp","operators/with_latest_from.hpp","operators/switch_on_next.hpp","operators/flat_map.hpp","operators/take_until.hpp","operators/details/combining_strategy.hpp"],
[("per-source latest values and counters","operators/details/combining_strategy.hpp"),("active-inner bookkeeping","operators/merge.hpp")],
["subscriber's event log after every source event"]))
L.append(P("P06","Windowing and grouping partition the source without loss or mixing",
"Windows of a fixed count, toggled windows and groups by key deliver every source item to exactly the inner observables that are open for it (one window, all open toggled windows, the group of its key), in source order, and announce each inner observable before its first item. Terminal events of the source reach every open inner observable and the outer one.",
["inputs","histories"],
"for every window size, key distribution, opening/closing script and terminal event, with inner subscribers that stay, leave early or come late",
"Partition correctness depends on the interleaving of items, openings, closings and unsubscriptions, which tests sample a few times.",
["operators/window.hpp","operators/window_toggle.hpp","operators/group_by.hpp","operators/buffer.hpp","observables/grouped_observable.hpp"],
[("current inner subject","operators/window.hpp"),("list of open windows","operators/window_toggle.hpp"),("key to subject map","operators/group_by.hpp")],
["event logs of the outer and of all inner subscribers"]))
L.append(P("P07","Disposing a subscription silences it and releases the upstream promptly",
"Once dispose of a subscription has returned, on the disposing thread no further callback of that subscriber starts, and every upstream subscription, pending scheduled action and inner subscription made for it is released before or at that point. It holds wherever the dispose comes from: between events, from inside any callback of the subscriber, or before subscription; disposing again has no effect.",
["programs","histories"],
"for every operator chain, every event script and every position of the dispose call in it, including from inside callbacks",
"The position of the dispose in the script and in the call stack multiplies all chains; tests dispose at one fixed point for few operators.",
["observers/observer.hpp","disposables/composite_disposable.hpp","disposables/disposable_wrapper.hpp","disposables/refcount_disposable.hpp","observables/observable.hpp","operators/merge.hpp","operators/switch_on_next.hpp"],
[("observer set_upstream / dispose chain","observers/details/disposable_strategy.hpp"),("composite and ref-counted disposables","disposables/")],
["disposal callbacks of probe sources, subscriber callbacks after dispose"]))
L.append(P("P08","Everything a subscription acquired is released, and nothing leaks",
"After a subscription ends by completion, error or dispose, each upstream it subscribed is told so exactly once, each finalizer runs exactly once, and once the user drops his handles every item, user callback and internal object belonging to it has been destroyed. No reference cycle or stale queue entry keeps them alive.",
["programs","histories"],
"for every operator chain, script and way of ending, including ends that happen synchronously during subscription",
"Leaks and double releases are invisible to value assertions, and depend on which of many endings happens first.",
["disposables/composite_disposable.hpp","disposables/refcount_disposable.hpp","disposables/callback_disposable.hpp","operators/finally.hpp","observers/details/disposable_strategy.hpp","schedulers/details/queue.hpp","subjects/details/subject_state.hpp"],
[("weak/strong disposable wrappers","disposables/disposable_wrapper.hpp"),("dispose after terminal","observers/observer.hpp")],
["instance counters of items and callbacks, upstream dispose counters, LeakSanitizer"]))
L.append(P("P09","An exception from any user callback becomes exactly one error event",
"If a function given to an operator to process an item or to choose a recovery, a callable or iterable source, or a subscriber's item callback throws, the exception does not escape the emitting call: the subscriber downstream of it receives exactly one error carrying that same exception, receives nothing afterwards, and the upstream is released. It holds for every call of the callback and for callbacks running during subscription or on a scheduler.",
["programs","fault_sequences"],
"for every user callback in every operator and source, and every index of the call that throws, in every chain",
"The failing call can be any callback at any index in any chain; tests throw once in a few operators.",
["observers/observer.hpp","observables/observable.hpp","sources/create.hpp","sources/from.hpp","schedulers/details/queue.hpp","operators/map.hpp","operators/group_by.hpp","operators/scan.hpp"],
[("catch around every item delivery","observers/observer.hpp"),("catch around subscription","observables/observable.hpp"),("catch around scheduled actions","schedulers/details/queue.hpp")],
["subscriber's error event (identity of the exception object), escape from the emitting call"]))
L.append(P("P10","Retry, repeat and recovery operators resubscribe exactly as specified",
"retry(n) subscribes at most n+1 times and repeat(n) exactly n times, resubscribing only on error respectively completion, one attempt at a time and with the previous attempt released first; retry_when resubscribes once per notifier item and ends with the notifier; on_error_resume_next switches exactly once to the selected source. Items of all attempts are concatenated without loss, the last error or completion is delivered, and deep synchronous resubscription needs no stack.",
["histories","fault_sequences","inputs"],
"for every count, every sequence of attempt outcomes, synchronous and asynchronous, and every notifier behaviour",
"The outcome sequence is unbounded and mixes synchronous and asynchronous endings; tests use counts of two or three.",
["operators/retry.hpp","operators/retry_when.hpp","operators/repeat.hpp","operators/on_error_resume_next.hpp","sources/concat.hpp"],
[("drain loop guarding re-entrant resubscription","operators/retry.hpp"),("notifier observer","operators/retry_when.hpp"),("infinite/counted concatenation","operators/repeat.hpp")],
["subscription count, live-subscription count, event log, stack depth"]))
L.append(P("P11","Subjects multicast each event to exactly the observers subscribed at that moment",
"A publish subject delivers every event to exactly the observers subscribed when it is emitted, in subscription order; a behavior subject first gives a newcomer its latest value; a replay subject first gives it the retained history within its count and age bounds; after the terminal event newcomers receive that terminal (after the retained history for replay). Observers may subscribe, unsubscribe or terminate the subject from inside a callback without affecting anyone else.",
["histories"],
"for every history of emit, subscribe, unsubscribe and terminate operations, issued between emissions or from inside callbacks, with any number of observers",
"Histories with re-entrant subscriptions and many observers reach container growth and iteration states that fixed tests do not.",
["subjects/publish_subject.hpp","subjects/behavior_subject.hpp","subjects/replay_subject.hpp","subjects/details/subject_state.hpp"],
[("observer list and its copy rules","subjects/details/subject_state.hpp"),("retained values","subjects/replay_subject.hpp")],
["event log of every observer"]))
L.append(P("P12","Subjects stay consistent when used from many threads",
"With observers joining and leaving while another thread emits, an observer subscribed throughout receives every event exactly once and in order, and one that joins or leaves while a single thread emits receives a contiguous run. A serialized subject fed by several threads delivers the same total order to all its observers, without overlap, each thread's items in order, and nothing after the terminal event.",
["schedules","histories"],
"for every interleaving of emitting, subscribing and unsubscribing threads over publish and the serialized publish, behavior and replay subjects (plain behavior and replay: one emitting thread, observers joining before it starts)",
"Needs interleavings inside list copying and dispatch that single-threaded tests cannot produce.",
["subjects/details/subject_state.hpp","subjects/publish_subject.hpp","subjects/behavior_subject.hpp","subjects/replay_subject.hpp"],
[("mutex-protected observer list and serialized dispatch","subjects/details/subject_state.hpp")],
["per-observer event logs with unique ids"]))
L.append(P("P13","Connectable and ref-counted observables share one upstream subscription",
"A connectable observable subscribes its source only when connected, at most once per connection, and multicasts to all its observers; a ref-counted one connects when the first observer arrives, disconnects when the last one leaves, and connects afresh on the next arrival. Observers never see another observer's departure.",
["histories"],
"for every history of subscribe, unsubscribe, connect, disconnect and source events, with any number of observers; with concurrent arrivals and departures, for the state reached once they have returned",
"Lifecycles depend on the order of arrivals and departures; tests walk one path.",
["observables/connectable_observable.hpp","operators/multicast.hpp","operators/publish.hpp","operators/ref_count.hpp","disposables/refcount_disposable.hpp"],
[("connection state","observables/connectable_observable.hpp"),("ref-count disposable","disposables/refcount_disposable.hpp")],
["source subscription and disposal counters, observers' event logs"]))
L.append(P("P14","Disposables run each cleanup exactly once under any concurrency",
"A disposable's action runs exactly once no matter how many threads dispose it; a composite disposes each of its children exactly once, including children added while or after it is disposed, and never one that was removed before; a ref-counted one disposes its underlying resource exactly when the last reference is released. Dispose, add, remove and clear may be called from inside a child's own cleanup and always return.",
["schedules","histories"],
"for every interleaving and nesting of add, remove, clear, dispose, add_ref and release on composite, callback and ref-counted disposables",
"Exactly-once under races between add and dispose depends on schedules; nesting depends on call-stack shape.",
["disposables/composite_disposable.hpp","disposables/callback_disposable.hpp","disposables/refcount_disposable.hpp","disposables/disposable_wrapper.hpp","disposables/details/base_disposable.hpp","disposables/details/container.hpp"],
[("atomic state machine of the composite","disposables/composite_disposable.hpp"),("atomic reference count","disposables/refcount_disposable.hpp")],
["cleanup counters per child"]))
L.append(P("P15","Workers run tasks in due-time order, one at a time, never early",
"Each worker of each scheduler runs its tasks one at a time, never before their due time, in order of due time and first-in-first-out among equal ones, repeats a task that asks for a delay after exactly that delay or time, and runs every accepted task of a live handler exactly once. A task whose handler is disposed before it starts never runs, and a task that throws reports the exception to its handler and leaves the worker usable.",
["schedules","programs"],
"for every set of tasks (immediate, delayed, absolute, repeating, nested, throwing, disposed) scheduled from any number of threads on current_thread, immediate, new_thread, thread_pool, run_loop and computational, and due order and times of the virtual-time scheduler (which may run nested due tasks at once)",
"Ordering faults need equal deadlines, nested scheduling or concurrent producers; tests schedule a few tasks from one thread.",
["schedulers/details/queue.hpp","schedulers/details/utils.hpp","schedulers/details/worker.hpp","schedulers/current_thread.hpp","schedulers/immediate.hpp","schedulers/new_thread.hpp","schedulers/thread_pool.hpp","schedulers/run_loop.hpp","schedulers/computational.hpp","schedulers/test_scheduler.hpp"],
[("time-then-FIFO queue","schedulers/details/queue.hpp"),("worker loop","schedulers/new_thread.hpp")],
["start/end records of every task: worker, thread, scheduled due time, clock"]))
L.append(P("P16","Work hops to the requested scheduler and keeps its order",
"Everything below observe_on or delay is delivered by the worker of the given scheduler, and a subscription moved by subscribe_on runs on it, never on the caller's thread for thread-owning schedulers; all items of one subscription are delivered in source order with the terminal event last, and an immediate error of observe_on replaces only items not yet delivered. Tasks of one worker of a thread-owning scheduler always run on the same thread.",
["schedules","programs"],
"for every chain mixing observe_on, subscribe_on and delay over new_thread, thread_pool, run_loop and computational, and every emission pattern",
"Order and affinity violations depend on how producer and worker threads interleave around an emptying queue.",
["operators/observe_on.hpp","operators/delay.hpp","operators/subscribe_on.hpp","schedulers/new_thread.hpp","schedulers/thread_pool.hpp","schedulers/run_loop.hpp","schedulers/computational.hpp"],
[("pending queue with activity flag","operators/delay.hpp"),("subscription scheduled on a worker","operators/subscribe_on.hpp")],
["thread id and value of every callback"]))
L.append(P("P17","Time-based operators follow their timing definition on virtual time",
"Under any script of source events and clock advances, delay, debounce, throttle, timeout, interval and timer emit exactly the items, and at exactly the virtual instants, their documentation defines: delay shifts every event, debounce emits an item after a quiet period and flushes on completion, throttle drops items inside the period, timeout fails or falls back when a gap exceeds the period, interval ticks consecutive numbers from zero on its grid. Nothing is emitted after disposal.",
["histories","inputs"],
"for every period, script of events and clock advances (also coinciding instants), and dispose position",
"Coinciding instants and gaps around the period boundaries make a large space that a few marble tests do not enter.",
["operators/delay.hpp","operators/debounce.hpp","operators/throttle.hpp","operators/timeout.hpp","sources/interval.hpp","sources/timer.hpp","schedulers/test_scheduler.hpp"],
[("virtual clock","schedulers/test_scheduler.hpp"),("due-time bookkeeping","operators/debounce.hpp")],
["event log with virtual timestamps"]))
L.append(P("P18","Nested work on the current thread is queued, ordered and stack-bounded",
"Work scheduled on the current-thread scheduler while it is already running is queued and run afterwards in due-time order on the same thread, never recursively; the outermost call returns only when all of it has run. Sources iterating on it interleave fairly under merging, sequences of any length are emitted with bounded stack, and the immediate scheduler runs work at once in the caller.",
["programs","inputs"],
"for every nesting of scheduling calls, every length of iterated source and every combination of merged sources",
"Depth and nesting are unbounded; tests use sequences of a few elements.",
["schedulers/current_thread.hpp","schedulers/immediate.hpp","sources/from.hpp","observables/observable.hpp","schedulers/details/queue.hpp"],
[("thread-local queue owned by the outermost call","schedulers/current_thread.hpp"),("rescheduling iteration","sources/from.hpp")],
["task begin/end order, recursion depth, stack address"]))
L.append(P("P19","A blocking subscription returns only after the stream has ended",
"Subscribing through the blocking adapter returns only after the subscriber's terminal callback has finished, or the subscription was disposed, whichever thread delivers it; it always returns when that happens, and all effects of the callbacks are visible to the caller afterwards.",
["schedules"],
"for every timing of the terminal event relative to the wait, on any scheduler, for completing, failing, disposed and synchronous streams",
"A missed wake-up or an early return needs the terminal to fall between the check and the wait.",
["observables/blocking_observable.hpp","operators/as_blocking.hpp"],
[("wait on a condition set by the terminal","observables/blocking_observable.hpp")],
["order of return and terminal callback"]))
L.append(P("P20","Concurrent use of the library is free of data races",
"Sources emitting from different threads into operators documented as multi-source, observers subscribing to, unsubscribing from and disposing shared subjects, disposables, connectables and schedulers concurrently, and streams hopping between schedulers perform no unsynchronised conflicting memory accesses inside the library, and hand each item over with happens-before. Values written before an emission are visible in its delivery without user synchronisation.",
["schedules"],
"for every schedule of every concurrent workload the library's contract allows",
"Whether two accesses are ordered is not visible in results; unit tests run without a race detector and on one schedule.",
["disposables/composite_disposable.hpp","disposables/refcount_disposable.hpp","subjects/details/subject_state.hpp","schedulers/new_thread.hpp","schedulers/thread_pool.hpp","schedulers/details/queue.hpp","operators/details/combining_strategy.hpp","observers/details/disposable_strategy.hpp","utils/utils.hpp"],
[("mutexes and atomics of operators, subjects, disposables and schedulers","utils/utils.hpp")],
["ThreadSanitizer reports over all concurrent workloads"]))
L.append(P("P21","No use-after-free, invalid access or undefined behaviour in any workload",
"No chain, script or call order within the contract, including unsubscribing, subscribing and terminating from inside callbacks, destroying handles, subjects, schedulers and workers in any order, and extreme parameters, makes the library touch freed or uninitialised memory, invalidated iterators or moved-from state, or execute undefined behaviour.",
["programs","histories","schedules"],
"for every chain, event script, callback re-entrancy, destruction order and schedule the contract allows",
"Invalid accesses usually leave values unchanged; only instrumented hostile runs show them.",
["subjects/details/subject_state.hpp","disposables/composite_disposable.hpp","operators/group_by.hpp","operators/window.hpp","operators/window_toggle.hpp","schedulers/details/queue.hpp","schedulers/current_thread.hpp","observers/dynamic_observer.hpp","observables/dynamic_observable.hpp"],
[("shared ownership between observers, states and disposables","operators/details/strategy.hpp")],
["AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer reports"]))
L.append(P("P22","Items arrive intact: no observer sees a moved-from or altered value",
"Every item reaches every observer it is due to with exactly the value that was emitted, however many observers, groups, windows, branches or retained copies share it and whichever of them consumes it by move; move-only flows are never copied, lvalues given by the user are never modified, and no more copies than documented are made.",
["programs","inputs"],
"for every operator and source, item passed as lvalue or rvalue, any number of sharing observers and any consumer",
"A wrong forward shows only when a second consumer looks at the value afterwards; integer-valued tests cannot see it.",
["observers/observer.hpp","observers/dynamic_observer.hpp","subjects/details/subject_state.hpp","subjects/replay_subject.hpp","subjects/behavior_subject.hpp","operators/combine_latest.hpp","operators/with_latest_from.hpp","operators/tap.hpp","operators/take_last.hpp","sources/from.hpp","utils/tuple.hpp"],
[("forwarding of items","observers/observer.hpp"),("shared containers","sources/from.hpp")],
["item payload carrying identity, moved-from marker, copy and move counters"]))
L.append(P("P23","Cold observables replay independently for every subscription",
"Each subscription to a cold observable (any source factory with any operator chain, except shared or multicast ones) runs its own independent execution from the start: the n-th subscription, simultaneous, nested or repeated, on a copy, a moved or a type-erased handle, sees what the first would have seen, and operator state is never shared between subscriptions. Source factories emit exactly their given items then complete, invoke user factories once per subscription, and honour disposal between items.",
["programs","histories"],
"for every chain and any number and interleaving of subscriptions to the same or copied observable",
"Shared state shows only when the same observable is subscribed again, in another order or simultaneously, which tests rarely do.",
["observables/observable.hpp","observables/dynamic_observable.hpp","observables/details/chain_strategy.hpp","observables/variant_observable.hpp","sources/from.hpp","sources/create.hpp","sources/defer.hpp","sources/just.hpp","sources/concat.hpp","operators/details/strategy.hpp"],
[("subscribe creates fresh operator state","operators/details/strategy.hpp"),("shared containers and iteration positions","sources/from.hpp")],
["event logs of all subscriptions, factory call counters"]))
L.append(P("P24","The asio strand scheduler never runs one worker's tasks concurrently",
"Tasks of one strand worker never run at the same time on any number of io threads, run in submission order when due at once and never before their due time, each exactly once, re-run after the delay they ask for, and do not run once their handler is disposed. Streams scheduled on it keep order and terminal.",
["schedules"],
"for every number of io threads, producers and task mixes, including nested current-thread work inside a task",
"Needs several io threads racing on the same strand with nested scheduling.",
["src/extensions/rppasio/rppasio/schedulers/strand.hpp"],
[("strand-bound handlers and nested queue hand-over","src/extensions/rppasio/rppasio/schedulers/strand.hpp")],
["begin/end record of every task per worker"]))
L.append(P("P25","Qt signals and the Qt main-thread scheduler deliver exactly and in order",
"An observable made from a Qt signal emits each signal emission exactly once with its arguments, in order, to every subscriber, stops for unsubscribed ones, and completes when the sender is destroyed. Work scheduled on the Qt main-thread scheduler runs on that thread only, never before its due time (to Qt's millisecond resolution), each task exactly once, and not after its handler is disposed.",
["histories","schedules"],
"for every script of signal emissions, subscriptions and destruction, and every set of tasks scheduled from any thread",
"Tests emit a few signals from one thread.",
["src/extensions/rppqt/rppqt/sources/from_signal.hpp","src/extensions/rppqt/rppqt/schedulers/main_thread.hpp"],
[("signal connected to a subject","src/extensions/rppqt/rppqt/sources/from_signal.hpp"),("posting to the application's thread","src/extensions/rppqt/rppqt/schedulers/main_thread.hpp")],
["event logs, thread ids"]))
L.append(P("P26","gRPC reactors carry every message once, in order, with the final status",
"A reactor writes every item given to its observer exactly once and in order, with at most one write outstanding, emits every received message once and in order, and finishes after pending writes with success on completion and with an error status when the observer got an error. Its observable completes on an OK status, fails with an error otherwise, and each reactor is destroyed exactly once.",
["histories","schedules","fault_sequences"],
"for every interleaving of emissions, received messages, completion, error and cancellation on client and server, unary-stream and bidirectional reactors",
"Interleavings of pending writes with termination are not enumerated by tests.",
["src/extensions/rppgrpc/rppgrpc/details/base.hpp","src/extensions/rppgrpc/rppgrpc/client_reactor.hpp","src/extensions/rppgrpc/rppgrpc/server_reactor.hpp"],
[("write queue and finish flag","src/extensions/rppgrpc/rppgrpc/details/base.hpp")],
["messages on both ends of a real in-process channel, status codes"]))
L.append(P("P27","A long-lived pipeline does not accumulate what its ended parts used",
"While a pipeline, subject, connectable or disposable lives on, whatever its parts used that have ended in the meantime (finished inner subscriptions, left observers, ended connections, closed windows, fired timers, switched-away sources) is released as it ends, not only when the whole ends. Repeating the same cycle of events on it therefore stops growing its memory.",
["programs","histories"],
"for every long-lived chain of operators, subject, connectable and disposable, and every repeated cycle of events that leaves the same state behind; except operators documented to remember their input (distinct, unbounded replay, group_by per key, a queue that is never drained)",
"Growth shows only after thousands of repetitions on one live object and is invisible to assertions on values; leak checkers see nothing since the end releases it all.",
["disposables/composite_disposable.hpp","disposables/disposable_wrapper.hpp","disposables/refcount_disposable.hpp","operators/concat.hpp","operators/switch_on_next.hpp","operators/merge.hpp","operators/window_toggle.hpp","observables/connectable_observable.hpp","subjects/details/subject_state.hpp","schedulers/details/queue.hpp"],
[("upstream disposables cleared per inner subscription","operators/concat.hpp"),("removal of observers from a subject","subjects/details/subject_state.hpp"),("per-connection disposable","observables/connectable_observable.hpp")],
["live heap bytes after every round of a repeated cycle of events"]))
L.append(P("P28","Every way of subscribing to the same chain observes the same events",
"Static types are only an optimisation: a chain of operators behaves the same whether its observables are statically typed or type-erased at any point (as_dynamic), and whichever form subscribes: lambdas, an observer, a dynamic observer, an own strategy, the subscribe operators, with a given, a returned or no disposable. The events, the moment resources are released, the state of the handle and what is released at the end are the same.",
["programs","inputs"],
"for every source, chain of operators, form of subscription, script of events, dispose point and throwing callback",
"Each form takes its own path through template code (own disposable strategies with statically counted capacity); tests use one or two forms per operator.",
["observables/observable.hpp","observables/dynamic_observable.hpp","observables/details/chain_strategy.hpp","observables/details/disposable_strategy.hpp","observers/observer.hpp","observers/dynamic_observer.hpp","observers/lambda_observer.hpp","observers/details/disposable_strategy.hpp","operators/subscribe.hpp","disposables/details/container.hpp"],
[("capacity of the disposable counted at compile time","observables/details/disposable_strategy.hpp"),("overloads of subscribe","observables/observable.hpp"),("type erasure of observers","observers/dynamic_observer.hpp")],
["event log, cleanups, upstream state and handle of every form"]))
L.append(P("P29","Calls into the library always return: no deadlock, no endless loop",
"Every call of subscribe, dispose, connect, schedule or of an observer made by any thread returns after finitely many steps, whatever the other threads do with the same subjects, operators and subscriptions at the same time, and also when it is made from inside a callback of a subject, of a connectable or of a disposable. No combination of operators takes its locks in conflicting orders.",
["schedules","programs","histories"],
"for every combination of operators over shared sources, every interleaving of emitting, subscribing and disposing threads and every re-entrant call, except emitting, from inside a callback of a multi-source operator or serialized subject, into a source that feeds that same operator or subject, directly or through others (they hold a lock while calling downstream), and endless sources run synchronously",
"A deadlock needs several threads each between two lock operations of different operators; unit tests run one operator in one thread.",
["utils/utils.hpp","subjects/details/subject_state.hpp","subjects/behavior_subject.hpp","subjects/replay_subject.hpp","operators/merge.hpp","operators/take_until.hpp","operators/details/combining_strategy.hpp","observables/connectable_observable.hpp","disposables/composite_disposable.hpp","schedulers/details/queue.hpp"],
[("observer kept behind a mutex while called","utils/utils.hpp"),("subject's lists behind a mutex, never held during callbacks","subjects/details/subject_state.hpp"),("spin on edits of the dependents","disposables/composite_disposable.hpp")],
["progress of every thread's calls (hang watchdog)"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,s)
import os
for x in L:
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print(x['id'],f)
