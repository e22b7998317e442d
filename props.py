"""Single source for the checks: what each property says, where it lives in the code, and how its
check is run.  tools/gen.py derives properties.jsonl and MANIFEST.json from this file."""

COMMON_RULE = (
    "One evaluation is one complete simulated execution of a harness scenario; the seed decides the scenario, its "
    "workload parameters, every thread interleaving at synchronisation points, the value every racy atomic load "
    "observes, and every injected fault. An execution counts as distinct and non-trivial when at least two simulated "
    "threads ran with at least three context switches and its event-sequence hash was not seen before in this run.")

ASSUMPTIONS = [
    "The code is compiled by clang 18 -O1 -fsanitize=thread for x86-64; the simulator replaces the TSan runtime, "
    "pthreads, clocks, futex, operator new and std::atomic wait/notify.",
    "Interleavings change at atomic operations, locks, condition variables, thread, clock and allocation-visible "
    "operations; plain accesses are checked for data races instead of being interleaved.",
    "Weak-memory behaviour is explored as stale loads from a bounded store history (8 stores per location); "
    "load buffering (reading from a later store) is not explored.",
    "Sampling: a clean run is evidence over the explored executions, not a proof.",
]

STUBS = ["OS threads, mutexes, condition variables, futexes (simulated scheduler)", "clocks (virtual time)",
         "operator new/delete and malloc (per-run checked arena)",
         "std::atomic wait/notify waiting pool (simulated)", "std::random_device (seeded)"]
LEAF = ["leaf operations and the worker threads that complete them (harness)"]

SD = "include/stdexec/__detail/"

PROPS = {
    "C02": dict(
        title="sync_wait returns the operation's own completion, once everything is over",
        statement="sync_wait blocks until the operation it started has completed and then reports exactly that completion: "
                  "the sent values, an empty optional for stopped, or the sent error as an exception. When it returns, no "
                  "thread still executes in or refers to the operation, the result or the loop it drove, and work put on its "
                  "delegation scheduler ran on the waiting thread.",
        over=["schedules", "programs", "inputs"],
        text="For every sender expression, every completion kind and every interleaving of the waiting thread with the "
             "threads that complete the operation or push onto the waiting thread's loop.",
        why="The baseline only compiles the headers; runtime tests use one timing per case, while the hand-over between the "
            "completing and the waiting thread and the lifetime of the stack frame depend on the interleaving.",
        files=[SD + "__sync_wait.hpp", SD + "__run_loop.hpp", SD + "__atomic_intrusive_queue.hpp"],
        mech=[("finish-then-return hand-shake of the run loop", SD + "__run_loop.hpp (run, finish)"),
              ("result slot and exception slot written before finish", SD + "__sync_wait.hpp (receiver)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 1-2 threads each waiting 1-2 times for one of eight sender shapes (plain, then, throwing then, "
             "hops through the wait's own loop, when_all, variant, sibling cancellation, nested wait) completed inline "
             "or by 1-2 worker threads.",
        real=["stdexec/__detail/__sync_wait.hpp", "stdexec/__detail/__run_loop.hpp",
              "stdexec/__detail/__atomic_intrusive_queue.hpp", "then/let_value/when_all/upon_error/into_variant"],
        stub=STUBS + LEAF),
    "C03": dict(
        title="run_loop executes everything started before finish, in order, on its thread",
        statement="Every operation scheduled on a run_loop and started before finish() completes exactly once, on the thread "
                  "inside run(), never overlapping another task of that loop, and in start order for operations of one thread. "
                  "run() returns only after finish() and once nothing started is left, including work started by tasks; the "
                  "loop may be destroyed as soon as run() has returned and no call to finish() is in progress. An operation "
                  "completes with stopped if stop was requested before it started and with value if stop is never requested.",
        over=["schedules", "histories"],
        text="For every interleaving of producers, the driving thread, stop requests and calls to finish().",
        why="Tests push from one or two threads with one timing; lost wake-ups, early returns and use of a destroyed loop "
            "need particular interleavings of push, notify, finish and run.",
        files=[SD + "__run_loop.hpp", SD + "__atomic_intrusive_queue.hpp"],
        mech=[("count of outstanding tasks plus finishing flag", SD + "__run_loop.hpp (run, finish, start)"),
              ("lock-free MPSC push / pop_all / wait", SD + "__atomic_intrusive_queue.hpp")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 1-3 producers x 1-4 operations against one driver with finish() from a task, after, during or "
             "before the producers; chains of tasks started from inside the loop.",
        real=["stdexec/__detail/__run_loop.hpp", "stdexec/__detail/__atomic_intrusive_queue.hpp",
              "stdexec/stop_token.hpp"],
        stub=STUBS),
    "C04": dict(
        title="Stop requests: one winner, callbacks at most once, deregistration waits",
        statement="Exactly one request_stop() on a source returns true, stop_requested() never goes back to false, and each "
                  "registered callback runs at most once: exactly once if it stays registered across the winning request, inline "
                  "in its constructor if stop was already requested, never otherwise or after its deregistration. Destroying a "
                  "registration on another thread returns only when its callback is not running; callbacks may deregister "
                  "themselves or others, register new ones, request again or have the source destroyed. Whatever preceded the winning request is visible "
                  "to the callbacks.",
        over=["schedules", "histories"],
        text="For every interleaving of requesters, registering and deregistering threads and every re-entrant action inside "
             "callbacks.",
        why="Tests exercise one or two timings; the races are between deregistration and notification, and between "
            "registration and request.",
        files=["include/stdexec/stop_token.hpp"],
        mech=[("locked callback list with notifying-thread identity", "include/stdexec/stop_token.hpp (request_stop, remove)"),
              ("completion flag that deregistration waits for", "include/stdexec/stop_token.hpp (remove_callback)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 0-3 requesters against 1-3 threads that register and deregister 1-3 callbacks in 1-2 cycles; "
             "callbacks that deregister themselves or others, register, or request again; deregistration racing the "
             "callback followed by freeing everything it uses.",
        real=["stdexec/stop_token.hpp"], stub=STUBS),
    "C05": dict(
        title="when_all completes once, last, with the right outcome",
        statement="when_all completes exactly once and only after every child it started has completed: with all the values if "
                  "every child sent a value, otherwise with the error of a child that failed with one or with stopped. The first "
                  "failure, or a stop request from outside, asks the remaining children to stop; an error is never turned into "
                  "stopped unless a child was stopped by itself or stop was requested from outside. The operation may be destroyed "
                  "by its own completion.",
        over=["schedules", "inputs", "histories"],
        text="For every assignment of completions to children, every order and overlap of child completions and stop requests.",
        why="Tests complete children in one fixed order on one or two threads; the counting, the first-failure election and the "
            "stop forwarding race only under overlapping completions.",
        files=[SD + "__when_all.hpp", "include/stdexec/stop_token.hpp"],
        mech=[("arrival counter and outcome state", SD + "__when_all.hpp (arrive, complete)"),
              ("stop forwarding callback", SD + "__when_all.hpp (forward_stop_request)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: when_all of 1-4 (also nested) children completing inline, on 1-2 workers, on stop, with value, error "
             "or stopped, with an outer stop request never, before or concurrently; variant and transfer forms.",
        real=["stdexec/__detail/__when_all.hpp", "stdexec/stop_token.hpp", "stdexec/__detail/__into_variant.hpp",
              "continues_on", "run_loop"],
        stub=STUBS + LEAF),
    "C06": dict(
        title="when_any reports the first child, after stopping and awaiting the others",
        statement="when_any completes exactly once and only after every child it started has completed. It reports the completion "
                  "of the child that completed first, asks the others to stop as soon as that happened, and reports stopped only "
                  "if the first child was stopped or stop was requested from outside. The operation may be destroyed by its own "
                  "completion.",
        over=["schedules", "inputs", "histories"],
        text="For every assignment of completions to children, every order and overlap of child completions and stop requests.",
        why="Tests complete children in one fixed order; winner election, stop broadcast and outer stop forwarding race only "
            "under overlapping completions.",
        files=["include/exec/when_any.hpp", "include/stdexec/stop_token.hpp"],
        mech=[("emplaced flag elects the winner, counter delays completion", "include/exec/when_any.hpp (notify, arrive)"),
              ("stop forwarding callback", "include/exec/when_any.hpp (forward_stop_request)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: when_any of 1-3 children completing inline, on 1-2 workers or only when stopped, with value, error "
             "or stopped, with an outer stop request never, before or concurrently.",
        real=["exec/when_any.hpp", "stdexec/stop_token.hpp"], stub=STUBS + LEAF),
    "C07": dict(
        title="split / ensure_started: one shared run, every consumer served, abandonment",
        statement="The operation behind a split or ensure_started sender is started at most once (ensure_started: at once, by the "
                  "call itself) and destroyed once. Every started consumer completes exactly once, with the shared result or, if "
                  "its own stop token was triggered, with stopped, without disturbing the other consumers. When the last consumer "
                  "is gone while the operation runs, the operation is asked to stop; it is never asked to stop earlier.",
        over=["schedules", "histories", "inputs"],
        text="For every order and overlap of copying, dropping, connecting, starting, stopping consumers and completion of the "
             "shared operation.",
        why="Tests use one or two consumers in a fixed order; the races are between completion, late registration, consumer "
            "cancellation and the last release.",
        files=["include/exec/detail/shared.hpp", "include/exec/split.hpp", "include/exec/ensure_started.hpp"],
        mech=[("waiter list under a mutex with a completed sentinel", "include/exec/detail/shared.hpp (try_add_waiter, notify_waiters)"),
              ("reference counts decide abandonment", "include/exec/detail/shared.hpp (detach)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 1-3 consumers of a split sender, or one of ensure_started, each running, being stopped before or while "
             "running, or dropped before connect or before start, against a shared operation completing inline, remotely or only "
             "when stopped.",
        real=["exec/detail/shared.hpp", "exec/split.hpp", "exec/ensure_started.hpp", "stdexec/stop_token.hpp",
              "stdexec/__detail/__intrusive_slist.hpp"],
        stub=STUBS + LEAF + ["std::atomic<std::shared_ptr>: libstdc++'s, with its relaxed unlock strengthened to release"]),
    "C08": dict(
        title="static_thread_pool runs every scheduled task exactly once",
        statement="Every operation scheduled on a static_thread_pool completes exactly once with a value, on a thread of the "
                  "pool, whatever the number of submitters, the number of pool threads and the queue geometry, and no "
                  "submission is lost, duplicated or stuck while other threads steal work or go to sleep.",
        over=["schedules", "configurations", "histories"],
        text="For every interleaving of submitters and pool threads, every queue geometry and every number of tasks.",
        why="Tests submit to an idle pool with default geometry; lost wake-ups and queue races (stealing, block reuse, "
            "grant/takeover) need particular interleavings and memory orderings that x86 tests never show.",
        files=["include/exec/static_thread_pool.hpp", "include/exec/detail/bwos_lifo_queue.hpp",
               "include/exec/detail/atomic_intrusive_queue.hpp"],
        mech=[("block-based work stealing queue with rounds", "include/exec/detail/bwos_lifo_queue.hpp"),
              ("sleep/notify protocol of the pool threads", "include/exec/static_thread_pool.hpp"),
              ("remote queues drained by the pool threads", "include/exec/static_thread_pool.hpp")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 1-3 submitters x 1-4 operations on a pool of 1-3 threads with queue geometry 1-3 blocks of 1-3.",
        real=["exec/static_thread_pool.hpp", "exec/detail/bwos_lifo_queue.hpp", "exec/detail/atomic_intrusive_queue.hpp",
              "stdexec schedule/then/connect/start"],
        stub=STUBS),
    "C18": dict(
        title="Sequence senders deliver every item once and complete after all of them",
        statement="A sequence (iterate, schedule_all on the pool, transform_each, merge, merge_each, ignore_all_values, a type-erased one) offers "
                  "each of its items exactly once, iterate in order and one at a time, and completes exactly once, after every "
                  "item operation it started has completed and with everything they wrote visible. It completes with value only "
                  "if all items were delivered or the consumer stopped it; an item that fails inside ignore_all_values becomes "
                  "the error of the whole, and the first error inside merge_each asks everything else to stop and is delivered once, "
                  "after the rest.",
        over=["schedules", "inputs", "histories"],
        text="For every number of items, every thread count, every way and order in which item operations complete, fail or are "
             "stopped, and every moment of a stop request.",
        why="Tests consume items on one thread or sleep between them; the countdown, the start mutex and the merge counters are "
            "only stressed when items complete concurrently with the producer.",
        files=["include/exec/sequence_senders.hpp", "include/exec/static_thread_pool.hpp", "include/exec/sequence/iterate.hpp",
               "include/exec/sequence/merge.hpp", "include/exec/sequence/merge_each.hpp",
               "include/exec/sequence/transform_each.hpp", "include/exec/sequence/ignore_all_values.hpp",
               "include/exec/sequence/any_sequence_of.hpp"],
        mech=[("countdown of outstanding items", "include/exec/static_thread_pool.hpp (schedule_all_::next_receiver)"),
              ("active counter and nested stop source", "include/exec/sequence/merge_each.hpp (complete_if_none_active)"),
              ("first error kept by compare-exchange", "include/exec/sequence/ignore_all_values.hpp (result_type)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 0-6 items of iterate or schedule_all (1-3 pool threads), plain, transformed, merged from two sequences "
             "or nested, each item handled inline or by a worker thread, optionally cut short by the consumer or by a stop "
             "request from another thread; sequences of 0-4 leaf items (sequential or parallel, completing with a value, an error "
             "or stopped, inline or on a worker, throwing on connect or copy) through transform_each, any_sequence, "
             "ignore_all_values, merge of 1-3 and merge_each of 0-3, whose operations are destroyed by their completion.",
        real=["exec/sequence_senders.hpp", "exec/sequence/*.hpp", "exec/static_thread_pool.hpp",
              "exec/trampoline_scheduler.hpp", "stdexec let_value/then/upon_error/when_all"],
        stub=STUBS + LEAF),
    "C10": dict(
        title="bulk runs its function for every index exactly once, then completes",
        statement="bulk, bulk_unchunked and bulk_chunked invoke their function so that every index in [0, shape) is covered "
                  "exactly once (at most once if an invocation throws) and no other index ever, each invocation seeing the values "
                  "the predecessor sent; with a sequenced policy, or where no parallel scheduler applies, in increasing order and "
                  "one after the other. They complete exactly once, after every invocation has returned: with the predecessor's "
                  "values, or with an exception that an invocation threw. If the predecessor fails or is stopped the function is "
                  "not invoked and that completion is passed on.",
        over=["schedules", "inputs", "programs"],
        text="For every shape, shape type, policy, number of pool threads, set of throwing indices and interleaving of the pool's "
             "threads, including chained, nested and concurrent bulks.",
        why="Tests use a handful of sizes on pools of fixed size; the split over agents, stolen agents and the last-agent election "
            "depend on shape, thread count and interleaving.",
        files=["include/exec/static_thread_pool.hpp", SD + "__bulk.hpp"],
        mech=[("even split of the shape over agents", "include/exec/static_thread_pool.hpp (even_share, bulk_enqueue)"),
              ("last agent completes; first exception elected", "include/exec/static_thread_pool.hpp (bulk_task::do_execute_)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 1-2 threads x 1-2 bulks on a pool of 1-4 threads, 12 shapes (0-120) x 3 shape types x 8 forms, 0-2 "
             "throwing indices; predecessors that fail; chained and nested bulks; serial contexts.",
        real=["exec/static_thread_pool.hpp", "stdexec/__detail/__bulk.hpp", "exec/detail/bwos_lifo_queue.hpp",
              "exec/single_thread_context.hpp", "continues_on", "run_loop"],
        stub=STUBS + LEAF),
    "C11": dict(
        title="Counting scopes: join completes only after everything associated is gone",
        statement="Every attempt to associate with a counting scope succeeds while the scope is open and fails once it was "
                  "closed or joined; accepted work starts once, completes once and is destroyed, refused work is never started, and "
                  "a refused associate() sender completes with stopped. Each join operation completes exactly once, after every "
                  "associated operation has completed and been destroyed, and the scope may then be destroyed at once. A stop "
                  "request on a counting_scope reaches all its associated work.",
        over=["schedules", "histories", "programs"],
        text="For every interleaving of threads that associate, spawn, close, request stop and join, with work that completes "
             "inline, remotely or on stop and that spawns further work.",
        why="Tests use one thread; the association count, the registration of joins and the last disassociation race with each "
            "other and with the destruction of the scope.",
        files=[SD + "__counting_scopes.hpp", SD + "__associate.hpp", SD + "__spawn.hpp", SD + "__stop_when.hpp"],
        mech=[("association count and state bits in one word", SD + "__counting_scopes.hpp (__try_associate, __disassociate)"),
              ("lock-free list of registered joins closed by a sentinel", SD + "__counting_scopes.hpp (__register)"),
              ("fused stop token", SD + "__stop_when.hpp (__fused_token)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 0-2 threads plus the main thread use a simple or stoppable scope 1-2 times each (spawn, nested spawn, "
             "associate started/dropped/copied, raw association) against close, stop requests and 1-2 joins on an inline or "
             "run-loop scheduler; last operation against join and destruction.",
        real=["stdexec/__detail/__counting_scopes.hpp", "stdexec/__detail/__associate.hpp", "stdexec/__detail/__spawn.hpp",
              "stdexec/__detail/__stop_when.hpp", "stdexec/stop_token.hpp", "run_loop"],
        stub=STUBS + LEAF),
    "C13": dict(
        title="spawn_future delivers the spawned work's result exactly once",
        statement="spawn_future starts its work exactly once if the association succeeds, and never otherwise. A future that is "
                  "awaited completes exactly once: with the work's own result, or with stopped if the association was refused, "
                  "the work was stopped, or stop was requested on the awaiting side or through the scope, and not stopped otherwise. "
                  "A future dropped before being started asks the work to stop, and in every case the work and its shared state "
                  "are destroyed before join of the scope completes.",
        over=["schedules", "inputs", "histories"],
        text="For every completion of the work, every fate of the future (awaited, stopped, dropped, connected and dropped) and every "
             "interleaving of completion, consumption, cancellation, closing and stop requests.",
        why="Tests complete the work either before or after the future is awaited on one thread; consumption, cancellation and "
            "completion race on one atomic pointer that also decides who frees the state.",
        files=[SD + "__spawn_future.hpp", SD + "__stop_when.hpp", SD + "__counting_scopes.hpp"],
        mech=[("three-way hand-over on __registered_receiver_", SD + "__spawn_future.hpp (__consume, __abandon, __do_complete, "
               "__do_try_cancel)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 1-3 threads each spawning one future on a simple or stoppable scope, with work completing inline, "
             "remotely or on stop with any completion, and a random fate of the future; closing and stopping the scope "
             "concurrently; then join and destruction.",
        real=["stdexec/__detail/__spawn_future.hpp", "stdexec/__detail/__counting_scopes.hpp",
              "stdexec/__detail/__stop_when.hpp", "stdexec/stop_token.hpp", "run_loop"],
        stub=STUBS + LEAF),
    "C12": dict(
        title="async_scope: no started work is lost, on_empty completes after all of it",
        statement="Work given to spawn, spawn_future or a started nest starts exactly once, completes exactly once and delivers its "
                  "own completion to whoever awaits it (stopped only if the work was stopped or stop was requested); a nest that is "
                  "never started does not count. Each on_empty operation completes exactly once, and once nothing new is added only "
                  "after everything started, including work started by such work, has completed; the scope may then be destroyed, "
                  "even while unawaited futures still exist. A stop request on the scope reaches all work in it.",
        over=["schedules", "histories", "programs"],
        text="For every interleaving of threads that spawn, nest, drop and await futures, request stop and wait for emptiness, with "
             "work that completes inline, remotely or on stop.",
        why="Tests use one or two threads and fixed timing; the active count, the waiter list and the ownership hand-over of a "
            "future's state race between completion, consumption, dropping and destruction.",
        files=["include/exec/async_scope.hpp"],
        mech=[("active count and waiter list under a lock", "include/exec/async_scope.hpp (__nest_receiver::__complete)"),
              ("ownership hand-over of a future's state", "include/exec/async_scope.hpp (~__future, __dispatch_result_)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 0-2 threads plus the main thread use a scope 1-2 times each (spawn, nested spawn, nest started/dropped, "
             "futures awaited/stopped/dropped/outliving the scope) against stop requests and 1-3 on_empty operations.",
        real=["exec/async_scope.hpp", "stdexec/stop_token.hpp"],
        stub=STUBS + LEAF),
    "C14": dict(
        title="Timers complete once, not early, not late, in deadline order, or when stopped",
        statement="Every operation of a timed_thread_scheduler completes exactly once: with value on the context's thread, not "
                  "before its time point and without undue delay after it, or with stopped, only if stop was requested or the "
                  "context is destroyed. A stop request takes effect without waiting for the deadline, and operations due at the "
                  "same time complete in start order. All pending operations have completed when the context's destructor "
                  "returns.",
        over=["schedules", "inputs", "histories"],
        text="For every set of time points (past, equal, far), every interleaving of threads that start, stop and destroy, and every "
             "clock behaviour, including forward jumps.",
        why="Tests use wall-clock time, one thread and generous tolerances; a lost wake-up or lost cancellation shows only as a "
            "delay that a two-second poll hides.",
        files=["include/exec/timed_thread_scheduler.hpp", "include/exec/timed_scheduler.hpp",
               "include/exec/detail/intrusive_heap.hpp", SD + "__intrusive_mpsc_queue.hpp"],
        mech=[("command queue with wake-up flag", "include/exec/timed_thread_scheduler.hpp (schedule, run)"),
              ("timer heap with removal", "include/exec/detail/intrusive_heap.hpp (insert, pop_front, erase)"),
              ("reference count shared by timer and stop command", "include/exec/timed_thread_scheduler.hpp (ref_count_)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 1-3 threads x 1-4 timers with delays from -5 ms to 10 s, stopped before, during, after start or later; "
             "3-14 timers pending and cancelled in arbitrary order; clock jumps; destruction with timers pending. Virtual time "
             "passes only while no thread can run, so lateness above 200 ms is a violation when no clock fault is injected.",
        real=["exec/timed_thread_scheduler.hpp", "exec/timed_scheduler.hpp", "exec/detail/intrusive_heap.hpp",
              "stdexec/__detail/__intrusive_mpsc_queue.hpp", "stdexec/stop_token.hpp"],
        stub=STUBS),
    "C01": dict(
        title="Every started operation completes exactly once with an outcome its parts allow",
        statement="For every composition of sender algorithms, an operation that is started completes exactly once, after all its "
                  "child operations have completed, on one of the channels and with a value that the composition can produce from "
                  "what its children produced. Stop requests lead to stopped (or another regular outcome), never to a hang. "
                  "Nothing completes before it is started, and destroying an operation releases everything.",
        over=["programs", "schedules", "inputs"],
        text="For every expression over the adaptors, every outcome, thread and timing of its leaves, and every moment of a stop "
             "request.",
        why="Tests instantiate a fixed list of expressions, mostly inline; the number of expressions times interleavings is "
            "unbounded.",
        files=["include/stdexec/execution.hpp", SD + "__basic_sender.hpp", SD + "__let.hpp", SD + "__then.hpp",
               SD + "__continues_on.hpp", SD + "__starts_on.hpp", SD + "__on.hpp", SD + "__when_all.hpp",
               "include/exec/any_sender_of.hpp", "include/exec/finally.hpp", "include/exec/when_any.hpp",
               "include/exec/repeat_n.hpp", "include/exec/fork_join.hpp", "include/exec/variant_sender.hpp"],
        mech=[("operation states that own their children", SD + "__basic_sender.hpp"),
              ("type-erased operation with stop forwarding", "include/exec/any_sender_of.hpp (_any_opstate, _state)"),
              ("successor operation built in place", SD + "__let.hpp")],
        quick_runs=2000000, quick_s=40,
        rule="Random expression trees of 1-24 nodes and depth 1-7 over 30 node kinds, every node type-erased, leaves completing inline "
             "or from 1-2 threads; a reference model computes the set of allowed outcomes from the tree.",
        real=["stdexec adaptors and factories", "exec adaptors", "exec/any_sender_of.hpp", "exec/static_thread_pool.hpp",
              "exec/single_thread_context.hpp", "stdexec/stop_token.hpp"],
        stub=STUBS + LEAF),
    "C17": dict(
        title="A coroutine task behaves as its code, on its scheduler, and cleans up once",
        statement="In stdexec::task and exec::task every co_await of a sender or task yields its value, throws its error, or unwinds "
                  "the coroutine with stopped, and execution resumes on the task's scheduler. The task completes exactly once with "
                  "what its code produced, stop requests from the awaiter reach whatever it awaits, and every frame and local is "
                  "destroyed. Actions registered with at_coroutine_exit run once each, in reverse order, before the awaiter continues; those "
                  "registered with on_coroutine_succeeded, _failed or _stopped run so exactly if the task ended that way.",
        over=["programs", "schedules", "inputs"],
        text="For every nesting of tasks, every outcome, thread and timing of what they await, and every moment of a stop request.",
        why="The hand-over between the thread that suspends a coroutine and the thread that completes the awaited operation is a "
            "race that a test meets at one timing only; the compositions of tasks are unbounded.",
        files=["include/stdexec/__detail/__task.hpp", "include/exec/task.hpp", "include/exec/at_coroutine_exit.hpp",
               "include/exec/on_coro_disposition.hpp",
               SD + "__as_awaitable.hpp", SD + "__connect_awaitable.hpp", SD + "__with_awaitable_senders.hpp",
               SD + "__affine.hpp", SD + "__task_scheduler.hpp"],
        mech=[("suspend/complete hand-over through an atomic thread id", SD + "__as_awaitable.hpp (__sender_awaiter, __done)"),
              ("operation state that poses as a coroutine frame", SD + "__connect_awaitable.hpp (__opstate)"),
              ("continuation chain rewritten by cleanup actions", "include/exec/at_coroutine_exit.hpp")],
        quick_runs=2000000, quick_s=40,
        rule="Random programs of up to 14 steps in nested tasks of both kinds, over leaves completing inline or from 1-2 threads, two "
             "single-threaded schedulers and a main thread; a reference interpreter computes the allowed outcomes.",
        real=["stdexec/__detail/__task.hpp", "exec/task.hpp", "exec/at_coroutine_exit.hpp", "exec/on_coro_disposition.hpp", "stdexec/__detail/__as_awaitable.hpp",
              "stdexec/__detail/__connect_awaitable.hpp", "exec/single_thread_context.hpp", "stdexec/stop_token.hpp"],
        stub=STUBS + LEAF),
    "C09": dict(
        title="parallel_scheduler: one shared context, each index once, storage lent safely",
        statement="get_parallel_scheduler() finds the same context from every thread until the backend is replaced, and the "
                  "replacement afterwards. Work scheduled on it completes exactly once; a bulk invokes its function exactly once "
                  "per index before completing with its predecessor's values, unless the predecessor or the backend completes "
                  "otherwise or stop is requested. A backend keeps exclusive use of the storage it is lent until it completes, and "
                  "nothing is leaked by operations that are stopped, fail or are never started.",
        over=["schedules", "inputs", "fault_sequences"],
        text="For every interleaving of concurrent first uses, submissions, stop requests, worker steps and chunk executions, "
             "every bulk size, policy and predecessor completion, and any partition into chunks a backend chooses.",
        why="Tests use one backend from one thread with fixed timings; the creation race, the reuse of operation storage and "
            "the stopped and never-started paths need particular interleavings or leak silently.",
        files=[SD + "__parallel_scheduler.hpp", SD + "__parallel_scheduler_backend.hpp",
               SD + "__parallel_scheduler_default_impl.hpp", "src/parallel_scheduler/parallel_scheduler.cpp",
               "include/exec/static_thread_pool.hpp"],
        mech=[("backend singleton", SD + "__parallel_scheduler_default_impl.hpp (__instance_data)"),
              ("operation storage shared by the predecessor, then by the backend",
               SD + "__parallel_scheduler.hpp (__system_bulk_op)"),
              ("stop forwarding to the backend", SD + "__parallel_scheduler_backend.hpp (__stop_callback_for)")],
        quick_runs=400000, quick_s=40,
        repo_sources=["src/parallel_scheduler/parallel_scheduler.cpp"],
        rule="Scenarios: the default backend with 1-3 pool threads found and used by 1-3 threads; transferred predecessors "
             "completing with value, error or stopped; nested submission; a replaced backend that partitions bulks at random, "
             "completes on worker threads with value, error or stopped and checks its storage; replacement while another "
             "thread looks for the backend. Operations are stopped before or while running, and sometimes never started.",
        real=["stdexec parallel_scheduler, receiver proxies and default backend", "exec::static_thread_pool",
              "bulk, bulk_chunked, bulk_unchunked, then, continues_on, schedule"],
        stub=STUBS + LEAF + ["the replaced backend (harness)"]),
    "C19": dict(
        title="Type-erased senders and schedulers behave like what they erase",
        statement="An any_sender, exec::function, any_scheduler or task_scheduler completes exactly once, with the completion, values "
                  "and context of the sender or scheduler it holds, however often it was moved, copied, assigned or compared. Stop "
                  "requests (through any token type) and declared queries reach the erased operation, a bulk on a task_scheduler "
                  "invokes each index once and reports what its function throws. Nothing leaks or is used after its lifetime, also "
                  "when an allocation fails or the operation is never started.",
        over=["schedules", "inputs", "fault_sequences"],
        text="For every erased object size, alignment, copyability and number of erasure layers, every completion kind, stop token "
             "type, interleaving of stop requests and completions, and allocation failure while erasing, moving or connecting.",
        why="Tests check single erased types on one thread; small-buffer, heap, proxy and stop-forwarding paths differ per type and "
            "their lifetime errors show only under particular interleavings.",
        files=["include/exec/any_sender_of.hpp", "include/exec/function.hpp", SD + "__task_scheduler.hpp", SD + "__any.hpp",
               SD + "__parallel_scheduler_backend.hpp"],
        mech=[("small-object-optimised interface wrapper", SD + "__any.hpp"),
              ("stop callback forwarding into the erased receiver", "include/exec/any_sender_of.hpp (_state)"),
              ("receiver proxies", SD + "__parallel_scheduler_backend.hpp (__receiver_proxy_base)")],
        quick_runs=400000, quick_s=40,
        rule="Scenarios: any_sender over seven sender shapes (small, large, over-aligned, move-only, throwing move, nested erasure) "
             "with and without stop and user queries, random moves, swaps and allocation failures; exec::function; any_scheduler over "
             "two single-thread contexts and a pool, copied and used by 1-2 threads; task_scheduler over a pool, a single-thread "
             "context and a run_loop: schedule and bulk with stops, throwing functions and failing predecessors.",
        real=["exec::any_sender, any_receiver, any_scheduler, function", "stdexec::task_scheduler", "static_thread_pool, run_loop, "
              "single_thread_context", "bulk, then, continues_on"],
        stub=STUBS + LEAF),
    "C16": dict(
        title="Trampolines and loops: every iteration once, in order, in bounded stack",
        statement="An operation started on a trampoline_scheduler completes exactly once on the starting thread before the outermost "
                  "start() there returns, deferred ones in start order, and never nested deeper, or in more stack, than the "
                  "scheduler's limits. repeat, repeat_until and repeat_n run their sender again and again, one iteration after the "
                  "other, each iteration's operation destroyed before the next exists, until the condition, count, an error or "
                  "stopped ends the loop, and complete exactly once with that outcome. After a stop request no further iteration starts.",
        over=["programs", "schedules", "inputs"],
        text="For every tree of operations that start each other, every recursion limit, every number of iterations completing inline "
             "or on other threads, every moment of a stop request, and copying, connecting or converting that throws in any iteration.",
        why="Tests run a handful of iterations inline; the depth and stack limits, the hand-over between threads in mid-loop and the "
            "failure of a later iteration's connect or copy are not exercised.",
        files=["include/exec/trampoline_scheduler.hpp", "include/exec/repeat_until.hpp", "include/exec/repeat_n.hpp",
               SD + "__sequence.hpp"],
        mech=[("thread-local state with a queue of deferred operations", "include/exec/trampoline_scheduler.hpp (__state, __drain)"),
              ("child operation rebuilt in place", "include/exec/repeat_until.hpp, include/exec/repeat_n.hpp (__repeat)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: trees of 1-320 operations on trampolines with depth 1-4096 and stack size 64 B-64 KiB, with and without stop, "
             "1-2 threads; loops of 0-300 iterations of three forms (bool, throwing conversion, void), nested loops, inline and "
             "remote iterations, throwing copies, connects and error copies, stop from inside, before or concurrently.",
        real=["exec/trampoline_scheduler.hpp", "exec/repeat_until.hpp", "exec/repeat_n.hpp", "stdexec/__detail/__sequence.hpp",
              "stdexec/stop_token.hpp"],
        stub=STUBS + LEAF),
    "C15": dict(
        title="io_uring_context completes each operation once, on its driver, in time",
        statement="An operation on an io_uring_context completes exactly once: with a value on the thread that drives the context, "
                  "never before it is due and without waiting for unrelated events afterwards, or with stopped, promptly after stop "
                  "was requested for it or for the context. run_until_stopped(), run_until_empty(), finish() and the run() sender "
                  "return when they promise to, with no operation left behind, any number of times; once the context has stopped, "
                  "further operations are stopped at once. Failing system calls are reported with their error code, lose nothing, "
                  "and no descriptor or mapping outlives the context.",
        over=["schedules", "inputs", "fault_sequences", "histories"],
        text="For every interleaving of clients, driver and kernel, every order in which requests complete, every moment of a stop "
             "request, and every interrupted, short or failing system call.",
        why="The kernel decides when and in which order requests complete, and whether a call is interrupted or falls short; tests see "
            "one behaviour of one kernel, or none where io_uring is not permitted.",
        files=["include/exec/linux/io_uring_context.hpp", "include/exec/linux/safe_file_descriptor.hpp",
               "include/exec/linux/memory_mapped_region.hpp", "include/exec/detail/atomic_intrusive_queue.hpp"],
        mech=[("submission and completion queues", "include/exec/linux/io_uring_context.hpp (__submission_queue, __completion_queue)"),
              ("wake-up through an eventfd read", "include/exec/linux/io_uring_context.hpp (__wakeup_operation)"),
              ("in-flight counter closed by stop", "include/exec/linux/io_uring_context.hpp (submit, run_until_stopped)"),
              ("operation and cancellation sharing a counter", "include/exec/linux/io_uring_context.hpp (__n_ops_, __stop_operation)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: 1-3 clients x 1-4 operations (schedule, schedule_after, schedule_at; own stop tokens) against one driver, stopped "
             "when idle or amid the work, over 1-2 lives; 1-3 rounds of run_until_empty; finish(); run() with a stop token and twice at "
             "once; construction and io_uring_enter failing. Rings of 2-8 entries whose counters may start just below their wrap-around.",
        real=["exec/linux/io_uring_context.hpp", "exec/linux/safe_file_descriptor.hpp", "exec/linux/memory_mapped_region.hpp",
              "exec/detail/atomic_intrusive_queue.hpp", "stdexec/stop_token.hpp"],
        stub=["the kernel behind io_uring_setup/io_uring_enter/mmap/eventfd/write/close (harness/uring_kernel.hpp)"] + STUBS),
    "C20": dict(
        title="finally, let, sequence, repeat and fork_join run operations one after another",
        statement="finally starts its final sender exactly once after the initial operation has completed and been destroyed, however it "
                  "completed and even if its outcome could not be stored, and then reports the initial outcome unless the final "
                  "sender fails or is stopped. let_value, let_error and let_stopped call their function exactly once if the "
                  "predecessor completes on their channel and never otherwise, keep its arguments alive until the returned sender "
                  "completes, and pass other channels through; sequence starts each sender only after the one before completed with a "
                  "value, and never after one that did not; repeat_n and repeat_until run their child the specified number of times, "
                  "or until the condition holds, or until it fails, in bounded stack; fork_join hands the one result to every branch. Whatever a "
                  "function, a copy or a connect throws reaches the caller of connect or completes the whole with that error, and "
                  "every operation is destroyed exactly once.",
        over=["schedules", "inputs", "programs"],
        text="For every outcome of every step (value, error, stopped; by value or by reference), every step that may throw, every "
             "way a step completes (inline, on another thread, on stop) and every interleaving with a stop request.",
        why="Tests run these adaptors over just() on one thread; steps that throw while an outcome is stored or the next "
            "operation is connected, and operations that complete on other threads while the previous one is torn down, are not "
            "reached.",
        files=[SD + "__finally.hpp", SD + "__let.hpp", SD + "__sequence.hpp", "include/exec/repeat_until.hpp",
               "include/exec/repeat_n.hpp", "include/exec/fork_join.hpp", "include/exec/trampoline_scheduler.hpp"],
        mech=[("store the outcome, destroy the first operation, start the final one",
               SD + "__finally.hpp (__store_result_and_start_next_op)"),
              ("replace the first operation by the second in one variant", SD + "__let.hpp (__start_next_fn), " + SD +
               "__sequence.hpp (__start_next)"),
              ("reconnect through the trampoline", "include/exec/repeat_until.hpp (__repeat)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: finally, let_value, let_error, let_stopped, sequence of 2-3, repeat_n/repeat_until of up to 60 rounds (up "
             "to 400 in the stack check), fork_join with two branches, over senders that own state, send references whose copy "
             "may throw, may throw on connect, and complete inline, remotely or on stop; the operation may never be started.",
        real=["stdexec/__detail/__finally.hpp", "stdexec/__detail/__let.hpp", "stdexec/__detail/__sequence.hpp",
              "exec/repeat_until.hpp", "exec/repeat_n.hpp", "exec/trampoline_scheduler.hpp", "exec/fork_join.hpp",
              "stdexec/__detail/__when_all.hpp"],
        stub=STUBS + LEAF),
    "C21": dict(
        title="Work runs on the context it was sent to and sees the environment it should",
        statement="starts_on starts its sender, and continues_on completes on every channel, on the context of the given scheduler; "
                  "on runs its sender or closure there and then completes on the start scheduler or on the completion scheduler of "
                  "its predecessor; affine and reschedule complete on the start scheduler, affine even if stop was requested "
                  "(exceptions: a hop that was itself stopped, or an outcome that could not be stored). Every step sees the "
                  "consumer's forwarding queries, the scheduler it was started on as its start scheduler where that is known, "
                  "and no stop request through unstoppable; senders answer forwarding queries as the sender they adapt does. None of "
                  "these changes the outcome of the work.",
        over=["schedules", "inputs", "programs"],
        text="For every way the work completes, two kinds of target context, starts from inside or outside the home context and "
             "every interleaving with a stop request.",
        why="Tests check values on one thread; which thread runs a step is only visible when several contexts are driven at once, "
            "and the throwing, erroneous, stopped and remote completions of each hop are not exercised.",
        files=[SD + "__starts_on.hpp", SD + "__continues_on.hpp", SD + "__on.hpp", SD + "__affine.hpp", SD + "__schedule_from.hpp",
               SD + "__unstoppable.hpp", SD + "__write_env.hpp", "include/exec/reschedule.hpp"],
        mech=[("store the outcome, then hop", SD + "__continues_on.hpp (__complete, __receiver2)"),
              ("start scheduler of a step started by another", SD + "__schedulers.hpp (__mk_secondary_env_t)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: starts_on, continues_on (by value and by references whose copy may throw), on (whole, nested, with a "
             "closure), affine, reschedule, chains of let_value and continues_on, when_all over two contexts, sequence and finally, "
             "sender attributes, unstoppable; a run loop as home, another run loop or a thread pool as target.",
        real=["stdexec/__detail/__starts_on.hpp", "stdexec/__detail/__continues_on.hpp", "stdexec/__detail/__on.hpp",
              "stdexec/__detail/__affine.hpp", "stdexec/__detail/__write_env.hpp", "stdexec/__detail/__read_env.hpp",
              "exec/reschedule.hpp", "exec/static_thread_pool.hpp", "run_loop"],
        stub=STUBS + LEAF),
    "C22": dict(
        title="Work nobody awaits starts once, ends once and gives back its memory",
        statement="start_detached and start_now start each sender they are given exactly once, in the call; it sees the environment "
                  "it was given, and once it has completed, with value or stopped and however early, its operation is destroyed "
                  "once and its memory returned to the allocator of that environment. An exception thrown while connecting or "
                  "allocating reaches the caller, with nothing started and nothing kept. start_now's async_wait completes once, "
                  "with value, only after all its senders have completed, a stop request on its storage reaches all of them, and "
                  "the storage may go with that completion; the sender given to when_empty starts only once the scope is empty.",
        over=["schedules", "inputs", "fault_sequences"],
        text="For every number of senders and threads that launch them, every way each completes, every allocation or connect that "
             "fails and every interleaving.",
        why="A detached operation destroys itself inside its completion, which may come before the launching call has returned or "
            "race with it; tests launch one inline sender and look at a flag.",
        files=["include/exec/start_detached.hpp", "include/exec/start_now.hpp", "include/exec/async_scope.hpp",
               SD + "__submit.hpp"],
        mech=[("operation that deletes itself through the environment's allocator", "include/exec/start_detached.hpp (operator delete)"),
              ("last completion hands over to the joiner", "include/exec/start_now.hpp (__complete, __operation::start)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: start_detached without environment, with one that brings an allocator, and with a stop token; senders with "
             "a submit of their own (also behind let_value); start_now of 0-3 senders with and without an environment, async_wait "
             "started at any time, storage destroyed as soon as it has completed; when_empty with work of its own.",
        real=["exec/start_detached.hpp", "exec/start_now.hpp", "exec/async_scope.hpp", "stdexec/__detail/__submit.hpp",
              "stdexec/__detail/__let.hpp"],
        stub=STUBS + LEAF),
    "C23": dict(
        title="Adaptors that change one completion leave the others alone; factories do as told",
        statement="then, upon_error and upon_stopped call their function exactly once, with what arrived, if the predecessor "
                  "completes on their channel and never otherwise, and complete with what it returns or throws; into_variant, into_tuple, "
                  "stopped_as_optional, stopped_as_error, materialize and dematerialize translate exactly the completions they are "
                  "documented to. All others pass through unchanged, in the predecessor's own completion, with the receiver's "
                  "environment; an exception while a value is copied becomes the error, one while connecting reaches the caller, "
                  "variant_sender runs the sender it holds, unless_stop_requested starts nothing once stop was requested, and work given a further stop token obeys both. just, "
                  "just_from and create complete with what they were given, and no operation completes in a way it did not advertise.",
        over=["schedules", "inputs", "programs"],
        text="For every completion of the predecessor (values, errors, references whose copies throw, stopped; inline or from another "
             "thread), every result of a function, every way of connecting (moved, from an lvalue, from a const lvalue) with copies "
             "that may throw, and every interleaving with stop requests.",
        why="Tests run each adaptor over just() with one completion; predecessors that complete in several ways, references, copies "
            "that throw and operations destroyed by their own completion are not combined.",
        files=[SD + "__then.hpp", SD + "__upon_error.hpp", SD + "__upon_stopped.hpp", SD + "__into_variant.hpp", SD + "__just.hpp",
               SD + "__stopped_as_optional.hpp", SD + "__stopped_as_error.hpp", SD + "__stop_when.hpp", SD + "__basic_sender.hpp",
               "include/exec/into_tuple.hpp", "include/exec/materialize.hpp", "include/exec/create.hpp",
               "include/exec/just_from.hpp", "include/exec/variant_sender.hpp", "include/exec/unless_stop_requested.hpp"],
        mech=[("call the function, complete with its result or its exception", SD + "__receivers.hpp (__set_value_from)"),
              ("two tokens, one callback", SD + "__stop_when.hpp (__fused_token)"),
              ("the operation of the sender held", "include/exec/variant_sender.hpp (__operation_state)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: each adaptor over a predecessor with up to eight completion signatures, chains of three, the factories, "
             "variant_sender through random assignments, stop_when and its fused token under concurrent stop requests.",
        real=["stdexec/__detail/__then.hpp", "stdexec/__detail/__upon_error.hpp", "stdexec/__detail/__upon_stopped.hpp",
              "stdexec/__detail/__into_variant.hpp", "stdexec/__detail/__stopped_as_optional.hpp",
              "stdexec/__detail/__stopped_as_error.hpp", "stdexec/__detail/__stop_when.hpp", "stdexec/__detail/__just.hpp",
              "exec/into_tuple.hpp", "exec/materialize.hpp", "exec/create.hpp", "exec/just_from.hpp", "exec/variant_sender.hpp",
              "exec/unless_stop_requested.hpp"],
        stub=STUBS + LEAF),
    "C24": dict(
        title="An Asio operation as a sender completes once, when nothing of it runs any more",
        statement="An operation initiated with completion_token or use_sender starts when the sender's operation is started, not before, "
                  "and completes exactly once: with the values its handler is invoked with, converted as the signature says (an exception of "
                  "the conversion becomes the error); or, if the handler is dropped by all who held it, with stopped; an exception that "
                  "left the initiating function or a handler run by the operation's executor is kept until then, the first one, and sent instead. It "
                  "never completes while such a handler still runs; a stop request emits cancellation only between handlers, only until "
                  "completion, and after that nothing refers to the stop source. With use_sender an error_code first argument is not sent as a value: none gives the "
                  "values, cancellation gives stopped, any other gives the corresponding exception.",
        over=["schedules", "programs", "fault_sequences"],
        text="For every composed operation of up to four strands, each hopping between the operation's executor and others, done, throwing "
             "or lost, every submission that fails, every time of a stop request and every interleaving.",
        why="Tests run single handlers on one io_context thread; several handlers on several threads, cancellation that races with them and "
            "abandonment inside nested handlers are sampled once or not at all.",
        files=["include/exec/asio/completion_token.hpp", "include/exec/asio/use_sender.hpp"],
        mech=[("frames that share a recursive mutex, the last one completes", "include/exec/asio/completion_token.hpp (frame_)"),
              ("handler whose destruction completes the operation", "include/exec/asio/completion_token.hpp (completion_handler)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: completion_token, use_sender with boost and with std error codes. The initiating functions are the harness's own: 0-3 "
             "strands plus the initiating function itself, posts, dispatches and defers over an executor that runs work at once or on any of "
             "1-3 workers, optionally a cancellable wait; the sender is connected from an lvalue or an rvalue, once or twice.",
        real=["exec/asio/completion_token.hpp", "exec/asio/use_sender.hpp", "Boost.Asio's initiation, executor and cancellation "
              "machinery (installed headers)", "stdexec/stop_token.hpp"],
        stub=["the I/O objects and the execution context (own initiating functions over simulated threads)"] + STUBS),
    "C25": dict(
        title="A pool built on thread_pool_base runs all of its work, each index once",
        statement="Work scheduled on a pool derived from thread_pool_base, the Asio pool among them, completes exactly once on a thread of the "
                  "pool: with value, or with stopped if stop was requested before it ran. bulk and bulk_chunked on such a pool, for every "
                  "integral shape type and every parallelism the pool reports, call their function exactly once for each index, on the pool's threads, with the "
                  "predecessor's values, and complete once, after the last call has ended, with those values or else with one of the exceptions "
                  "thrown. If the predecessor sends an error or stopped, or its values cannot be stored, nothing is "
                  "called and that is what they complete with.",
        over=["schedules", "inputs", "configurations"],
        text="For every number of threads, reported parallelism, shape and shape type, predecessor, index at which the function throws and "
             "every order in which the pool runs what was enqueued.",
        why="The tests of these pools run one bulk of a fixed shape; the last agent's completion, an exception in one agent while others run "
            "and shapes near the limits of their type need particular schedules or inputs.",
        files=["include/exec/thread_pool_base.hpp", "include/exec/asio/asio_thread_pool.hpp"],
        mech=[("agents that count themselves off, the last one completes", "include/exec/thread_pool_base.hpp (bulk_shared_state)"),
              ("even partition of the shape", "include/exec/static_thread_pool.hpp (even_share)")],
        quick_runs=2000000, quick_s=25,
        rule="Scenarios: a pool of the harness's own (1-3 workers that take tasks in any order, reporting a parallelism of 1-300) and the Asio "
             "pool over Boost's asio::thread_pool; 1-3 threads that schedule, with and without stop tokens; bulk and bulk_chunked over "
             "shapes of four types, by-reference values whose copies throw, several values, one bulk after another, two clients at a time.",
        real=["exec/thread_pool_base.hpp", "exec/asio/asio_thread_pool.hpp", "even_share of exec/static_thread_pool.hpp",
              "Boost.Asio's thread_pool (over simulated threads)"],
        stub=["the derived pool's queue and threads (own_pool)"] + STUBS + LEAF),
}

# properties this family cannot decide here: (id, property texts, reason)
NOT_APPLICABLE = {
    "N01": dict(
        title="Completion signatures, environments and domains are computed correctly",
        statement="For every well-formed sender expression and environment the advertised completion signatures, forwarded "
                  "queries and selected domain agree with what the operation does at run time, and ill-formed expressions are "
                  "diagnosed at compile time.",
        over=["programs", "inputs"],
        text="For every sender expression and environment type.",
        why="The set of expressions is unbounded; tests instantiate a fixed list.",
        files=[SD + "__completion_signatures.hpp", SD + "__env.hpp", SD + "__domain.hpp"],
        mech=[("constant evaluation in the type system", SD + "__get_completion_signatures.hpp")],
        reason="Decided entirely at compile time: there is no schedule, clock, I/O, randomness or failure to simulate, so "
               "seeded schedule and fault search has nothing to vary."),
    "N02": dict(
        title="GPU, Windows, libdispatch, TBB and Taskflow contexts complete their work",
        statement="Operations scheduled on the nvexec GPU contexts, the Windows thread pool, libdispatch, the TBB and "
                  "Taskflow pools complete exactly once.",
        over=["schedules", "configurations"],
        text="For every interleaving on the respective platform.",
        why="The needed compilers, runtimes and libraries are absent here and in the baseline.",
        files=["include/nvexec", "include/exec/windows", "include/exec/libdispatch_queue.hpp", "include/execpools"],
        mech=[("delegation to the foreign runtime", "include/exec/windows, include/nvexec, include/execpools")],
        reason="The code cannot be compiled in this sandbox (no CUDA, Windows, libdispatch, TBB or Taskflow), and the "
               "scheduling decisions are taken inside those runtimes, outside any seam of this repository."),
}
