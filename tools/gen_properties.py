#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
B = "portable_concurrency/bits/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[(B + f) if "/" not in f else f for f in files],
            mechanism=[dict(name=n, where=(B + w)) for n, w in mech],
            state=[dict(name=n, meaning=m, where=(B + w)) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=None)))

prop("C01", "A result is delivered intact and published to whoever receives it",
 "Whatever value or exception a producer stores (through a promise, a packaged task or an async task, for value, move-only, reference and void results) is exactly what get() returns or rethrows and what continuations receive: never another value, a partial one, a default one or a swallowed exception. Values and functions passed as lvalues, and objects a function returns by reference where a value is stored, are copied and left as they were. "
 "Everything the producer wrote before storing the result is visible, without a data race, to any thread that has observed readiness through is_ready(), wait(), get(), a timed wait, a notification or a continuation. "
 "A future never reports readiness before a result has been stored.",
 ["schedules","inputs","histories"],
 "For all interleavings of one producer with concurrent observers, all result types (value, move-only, reference, void), all ways of producing (promise, packaged_task, async, ready/exceptional future) and all ways of observing.",
 "Tests observe each result at one or two fixed moments, mostly single threaded; a missing release/acquire or a readiness flag raised before the value is stored is invisible to them.",
 ["shared_state.h","future.hpp","shared_future.hpp","promise.h","packaged_task.h","async.h","utils.h","once_consumable_stack.hpp"],
 [("result stored before the continuation list is consumed (acq_rel exchange)","shared_state.h: emplace, set_exception"),("readiness = list consumed","once_consumable_stack.hpp: is_consumed, consume, push")],
 [("storage_","result variant of the shared state","shared_state.h"),("head_","continuation list / consumed marker","once_consumable_stack.h")],
 ["future::get/is_ready/wait/notify","shared_future::get"])

prop("C02", "A thread blocked on a future always wakes up, and only when it is ready",
 "Every thread that calls wait() or get() on a future, or on its own copy of a shared_future, returns once the result has been stored or the producer has given up, no matter how the call interleaves with the completion, how many threads wait, or how many spurious wake-ups occur. "
 "No such call returns before the result is there. "
 "The waiting machinery is never touched after the waiting call has returned.",
 ["schedules","fault_sequences"],
 "For all interleavings of completion with any number of concurrent waiters, with spurious condition-variable wake-ups and stalled threads.",
 "A lost wake-up or a notification sent to an already destroyed waiter needs one particular preemption between two adjacent operations; tests sleep a few milliseconds and take whatever schedule the OS gives.",
 ["portable_concurrency.cpp","future.hpp","shared_future.hpp","once_consumable_stack.hpp","continuations_stack.h"],
 [("notification pushed on the state wakes a local condition variable under its mutex","portable_concurrency.cpp: wait"),("push on a consumed list runs the callback at once","portable_concurrency.cpp: continuations_stack::push")],
 None,["future::wait/get","shared_future::wait/get"])

prop("C03", "Every continuation and notification runs exactly once, only after readiness",
 "Each function attached to a future or shared_future with then(), next() or notify() runs exactly once if its result is still wanted, whether it was attached before, while or after the result was stored and no matter how many threads attach to copies of the same shared_future at once. "
 "It never runs before the result is available, and what it receives is ready. "
 "Attaching to a shared_future leaves that shared_future usable.",
 ["schedules","histories"],
 "For all interleavings of any number of attaching threads with the completing thread, all attach operations (then, next, interruptible then, notify, with and without executor) and all outcomes (value, exception, abandonment).",
 "Tests attach one function before or after completion, never during it, and never from several threads at once.",
 ["continuations_stack.h","once_consumable_stack.h","once_consumable_stack.hpp","then.hpp","future.hpp","shared_future.hpp","portable_concurrency.cpp"],
 [("lock-free list that can be consumed once; a push that loses the race runs the function itself","once_consumable_stack.hpp: push, consume"),("all collected functions are executed","portable_concurrency.cpp: continuations_stack::execute")],
 [("head_","pending continuations or consumed marker","once_consumable_stack.h")],
 ["future::then/next/notify","shared_future::then/next/notify"])

prop("C04", "A pipeline of continuations computes what its sequential meaning says",
 "For any graph built from sources, then(), next(), executors, nested futures, when_all and when_any, the outcome of every future equals the one obtained by running the same functions one after another: values flow through, an exception skips every next() up to the next then() and arrives unchanged, an exception thrown by a function, or by the constructor of its result, becomes the outcome of that stage. "
 "This holds for any order of completion and attachment, on any mix of executors and threads.",
 ["schedules","programs","histories"],
 "For all randomly generated pipeline graphs, all completion orders and all interleavings of the threads that build, complete and execute them.",
 "Tests use chains of one or two stages, completed by the same thread in one fixed order.",
 ["then.hpp","future.hpp","shared_future.hpp","shared_state.h","utils.h","async.h","when_all.h","when_any.h"],
 [("result type specific decorators forward errors or invoke the function","then.hpp: decorate_*"),("invocation result or exception stored","utils.h: set_state_value")],
 None,["future::get at every sink"])

prop("C05", "A producer that gives up breaks the promise instead of leaving waiters hanging",
 "If a promise, packaged task, posted task or continuation is destroyed, overwritten, dropped or refused (its post throws) by its executor, or discarded by a stopped thread pool before producing a result, every future that depends on it becomes ready with a broken_promise error, and every waiter and continuation behind it is released. "
 "A nested future that is invalid counts as a producer that gave up. "
 "A result that was already stored is never replaced by broken_promise.",
 ["schedules","fault_sequences","crash_points"],
 "For all moments at which a producer disappears relative to attaching, waiting and completing; executors that drop or refuse any subset of the work handed to them.",
 "Tests drop every task of a null executor in a single thread; abandonment racing with waiting, with a result or with a pool shutdown is not exercised.",
 ["promise.h","packaged_task.h","shared_state.h","then.hpp","closable_queue.hpp","portable_concurrency.cpp"],
 [("destructor and move assignment of the write end abandon an unset state","promise.h: promise_common::abandon"),("destroyed continuation closure abandons its state","then.hpp: cnt_action::~cnt_action"),("unset check","shared_state.h: abandon")],
 None,["future::get","future::is_ready"])

prop("C06", "Dropping the last future cancels work that has not started, safely",
 "Once the last future or shared_future of a continuation chain or task is gone, functions of that chain that have not started never start, the objects they captured are destroyed, and storing a result into such a chain is a harmless no-op. "
 "When the drop races with completion each function runs either completely or not at all, never on destroyed objects, and intermediate functions whose result is still wanted by another future are unaffected.",
 ["schedules","crash_points"],
 "For all interleavings of dropping the tail with storing the source result and with the executors running intermediate stages, at any position in the chain.",
 "Tests drop the future before or after completion from the same thread; the race between the two is never taken.",
 ["then.hpp","promise.h","packaged_task.h","future.h","shared_state.h"],
 [("completed side holds only weak references to dependents","then.hpp: make_then_state, cnt_state::run/schedule"),("write ends hold weak references","promise.h: promise_common, packaged_task.h")],
 None,["function side effects","promise::set_value after drop"])

prop("C07", "A cancel action runs exactly once, and exactly when nobody can get a result",
 "The cancel action given to a promise runs exactly once if every future of that promise is destroyed before a result or exception is stored or the promise is abandoned, and never runs otherwise. "
 "When storing a result races with dropping the last future exactly one of the two outcomes happens.",
 ["schedules","crash_points"],
 "For all interleavings of set_value/set_exception/abandon with the destruction of the last future or shared_future copy, held by any number of threads.",
 "Tests cover the four sequential orders only.",
 ["promise.h"],
 [("cancel action run by the destructor of a state that was never completed","promise.h: cancellable_state::~cancellable_state")],
 None,["calls of the cancel action"])

prop("C08", "Detached work is never cancelled",
 "After detach() on a future or shared_future, the work producing that result runs exactly once and completely even if all futures are destroyed at any moment afterwards, and its side effects and notifications happen. "
 "detach() hands back a usable future, invalidates the original, and does not protect stages attached after it. "
 "Everything kept alive by detach() is released once the work has completed or been abandoned.",
 ["schedules","crash_points"],
 "For all moments of dropping the returned future relative to completion of each stage, on any executor.",
 "Tests drop the detached future in the same thread before completion; nothing covers the race or the release.",
 ["future.hpp","shared_future.hpp","future_state.h","shared_state.h"],
 [("state keeps itself alive through its own continuation list","future.hpp: detach")],
 None,["function side effects","object lifetimes"])

prop("C09", "is_awaiten() is truthful and interruptible continuations can rely on it",
 "promise::is_awaiten() returns false only when no future or shared_future can ever receive a result from this promise, and returns true as long as such an object exists; after the drop of the last one is visible to the producer it returns false. "
 "An interruptible continuation is given a promise bound to its own result: the value or exception it sets, from any thread and also after the continuation returned, is delivered once, and if it never sets one the result is broken_promise.",
 ["schedules","histories"],
 "For all interleavings of polling, setting and moving the promise with dropping, copying and attaching to the futures.",
 "Tests check the flag sequentially, and run interruptible continuations in place only.",
 ["promise.h","future.hpp","shared_future.hpp"],
 [("weak reference expiry","promise.h: promise_common::is_awaiten"),("interruptible continuation holds only a weak reference","future.hpp: then(E, F) for promise-taking F")],
 None,["promise::is_awaiten"])

prop("C10", "Nested futures collapse: ready exactly when the inner one is, with its result",
 "When an async task, packaged task or continuation returns a future or shared_future, the outer future becomes ready only when the inner one is, with the inner value or exception (broken_promise if the inner is invalid or abandoned), and everything attached to or waiting on the outer future is released exactly once. "
 "For shared_future the result is the very same object. "
 "Destroying either side at any moment neither crashes nor leaks nor hangs the other.",
 ["schedules","crash_points"],
 "For all interleavings of outer completion, inner completion or abandonment, attaching to the outer future and dropping it, for all result types.",
 "Tests complete inner and outer sequentially from one thread.",
 ["shared_state.h","then.hpp","utils.h","packaged_task.h","async.h"],
 [("outer state stores the inner state and completes from its continuation list","shared_state.h: unwrap")],
 None,["future::get of the outer future"])

prop("C11", "when_all is ready exactly when all of its inputs are",
 "The future returned by when_all (tuple, iterator range and vector forms, futures and shared_futures, including none) becomes ready once every input is ready and never earlier, exactly once, whatever the order or concurrency of completions and whether inputs complete before, during or after the call. "
 "Its result holds the inputs in argument order, all ready, each with its own value or exception.",
 ["schedules","inputs"],
 "For all input counts and forms, completion orders and interleavings of concurrent completions with the call and with attaching to its result.",
 "Tests complete inputs one after another from one thread after the call.",
 ["when_all.h","future_sequence.h"],
 [("counter initialised with one extra operation, decremented atomically","when_all.h: when_all_state::make, notify")],
 [("operations_remains_","inputs still pending plus the registration itself","when_all.h")],
 ["future::is_ready/get of the result"])

prop("C12", "when_any is ready as soon as one input is and names a ready input",
 "The future returned by when_any (tuple, iterator range and vector forms, futures and shared_futures) becomes ready exactly once, when at least one input is ready and without needing any other input, and its index names an input that is ready at that moment; with no inputs it is ready at once with the index size_t(-1). "
 "Its result holds all inputs in argument order; those not chosen remain usable and deliver their own results later.",
 ["schedules","inputs"],
 "For all input counts and forms, completion orders and interleavings of simultaneous completions with the call and with attaching to or consuming its result.",
 "Tests make one input ready from one thread; two inputs completing at the same time or completion during the call is never scheduled.",
 ["when_any.h","future_sequence.h"],
 [("first completion wins an atomic flag and writes the index before publishing","when_any.h: when_any_state::notify")],
 [("ready_flag_","a winner has been chosen","when_any.h")],
 ["when_any_result::index"])

prop("C13", "A thread pool runs every accepted task exactly once before wait() returns",
 "Every function posted to a running static_thread_pool (from outside, from its own tasks, through async or as a continuation) is executed exactly once, on one of the pool's own or attached threads, with everything the poster did beforehand visible to it; with a single thread tasks run in posting order, and while one pool thread is free a blocked task keeps nobody else from running. "
 "wait() returns only after all accepted work and all pool threads have finished, their effects are visible to the caller, and it does return. "
 "An attached thread helps executing, is waited for like the pool's own threads, and is released when the pool shuts down.",
 ["schedules","configurations"],
 "For all pool sizes, posting patterns from several threads and tasks, and interleavings with wait() and attach().",
 "Tests post two tasks to a one-thread pool.",
 ["thread_pool.h","closable_queue.h","closable_queue.hpp","portable_concurrency.cpp"],
 [("blocking queue that drains before reporting closed","closable_queue.hpp: pop, push, close"),("worker loop","portable_concurrency.cpp: process_queue, static_thread_pool::attach, wait")],
 [("queue_/closed_","pending tasks and shutdown flag","closable_queue.h"),("attached_threads_","threads inside the worker loop","thread_pool.h")],
 ["task side effects","static_thread_pool::wait"])

prop("C14", "Stopping or destroying a thread pool neither loses, repeats nor hangs work",
 "After stop(), and on destruction, every task posted at any moment is either executed exactly once or destroyed unexecuted (its future gets broken_promise), a running task is allowed to finish, each pool thread starts at most one more queued task, and no pool thread, own or attached, survives the destructor. "
 "Shutdown always terminates, also when tasks, or the destructors of tasks, post more work, complete futures or stop the pool themselves, and posting to a stopped pool is a safe no-op that discards the task.",
 ["schedules","crash_points","fault_sequences"],
 "For all moments of stop() and destruction relative to posting, popping and running tasks from any thread.",
 "Tests stop one pool while its only thread is parked inside a task.",
 ["thread_pool.h","closable_queue.hpp","portable_concurrency.cpp"],
 [("stop flag checked between tasks, queue closed","portable_concurrency.cpp: process_queue, static_thread_pool::stop"),("remaining tasks destroyed with the queue","closable_queue.h")],
 None,["task execution and destruction counts","static_thread_pool destructor"])

prop("C15", "A latch releases all waiters exactly when its counter reaches zero",
 "No call of wait() or count_down_and_wait() returns before the counter has been counted down to zero, and every such call returns afterwards; is_ready() is false before and true after. "
 "Everything done before a count_down is visible after a wait. "
 "A latch may be destroyed as soon as one waiter has returned: no thread still inside count_down(), wait() or count_down_and_wait() touches it afterwards.",
 ["schedules","fault_sequences"],
 "For all counts, decrement sizes, numbers of waiters and counters, spurious wake-ups, and destruction right after a wait returned.",
 "The latch has no tests of its own; it is used as a test helper with generous lifetimes.",
 ["latch.h","portable_concurrency.cpp"],
 [("counter, waiter count and condition variable under one mutex; destructor waits for waiters","portable_concurrency.cpp: latch::*")],
 [("counter_/waiters_","remaining count and threads inside a wait","latch.h")],
 ["latch::wait/is_ready"])

prop("C16", "Timed waits tell the truth about readiness and time",
 "wait_for() and wait_until() of a timed_waiter, future or shared_future return ready only if the result is available, return timeout only if the requested time has really passed on the requested clock, return promptly in both cases, and report ready whenever the result was available before the call. "
 "Repeated polling, spurious wake-ups and steps of the wall clock do not change that, and the waiter may be destroyed or outlive the future at any time.",
 ["schedules","fault_sequences","inputs"],
 "For all deadlines, clocks, completion times relative to the deadline, wall clock jumps, spurious wake-ups and interleavings.",
 "Tests use a 5 ms timeout that always expires and a 30 min one that never does.",
 ["timed_waiter.h","future.hpp","shared_future.hpp"],
 [("notification sets a flag under the waiter mutex; predicate based condition variable wait","timed_waiter.h")],
 None,["future_status returned and simulated time at return"])

prop("C17", "Everything handed to the library is destroyed exactly once and nothing leaks",
 "Once all futures, promises, tasks, waiters and executors of a computation are gone, every value, exception, function object, executor copy and piece of memory (also memory obtained from a user allocator, which is returned to an equal allocator) that entered it has been destroyed or released exactly once, whatever mix of completion, cancellation, abandonment, detaching, unwrapping and when_all/when_any happened on whatever threads. "
 "A function object that has been executed or abandoned is destroyed no later than when the last future and task handle of its stage is gone.",
 ["schedules","histories"],
 "For all histories of a computation and all interleavings of its threads, including the ones that end in cancellation or abandonment.",
 "Tests check expiry of one shared_ptr in sequential cases; ownership cycles and double releases appear only in particular races.",
 ["shared_state.h","then.hpp","promise.h","packaged_task.h","once_consumable_stack.h","once_consumable_stack.hpp","either.h","small_unique_function.hpp","when_all.h","when_any.h","future.hpp"],
 [("shared ownership of states, weak references upstream","then.hpp, promise.h, shared_state.h: unwrap"),("list nodes release themselves with their allocator","once_consumable_stack.h: allocate_list_node")],
 None,["object and allocation counters at quiescence"])

prop("C18", "Work goes to the executor that was named, once, and nowhere else",
 "A function given to async(), then(), next() or notify() together with an executor is handed to that executor's post exactly once, only when it is due, runs only when and where the executor invokes it, and is passed as a move-only callable that fits a unique_function<void()> without allocating; without an executor it runs on the completing or the attaching thread. "
 "Executors may run work later, in any order, on any thread, or inline.",
 ["schedules","configurations"],
 "For all executor behaviours (inline, queued, reordering, delaying, multi-threaded) and interleavings of completion with attachment.",
 "Tests use one pool executor and check the thread id once.",
 ["then.hpp","async.h","future.hpp","shared_future.hpp","execution.h","small_unique_function.hpp","unique_function.hpp"],
 [("post found by ADL with a closure holding a weak reference","then.hpp: cnt_state::schedule"),("post of a packaged task","async.h: async")],
 None,["calls of post and where tasks run"])

prop("C19", "Running out of memory or threads fails one call, not the program",
 "If an allocation fails inside a call that creates, attaches to, waits on, detaches or posts, or a thread cannot be created while constructing a thread pool, that call reports the failure by an exception to its caller, the process is not terminated, already started threads are shut down, and nothing leaks. "
 "Other futures, continuations and threads of the same computation still complete, and a source future that the failing call had consumed behaves as if it had been dropped. If memory runs out while a returned nested future is being collapsed, that failure becomes the outcome of the outer future.",
 ["fault_sequences","schedules"],
 "For every single allocation or thread creation made by such a call failing, at any point of a concurrent computation.",
 "No test injects a failure.",
 ["portable_concurrency.cpp","shared_state.h","then.hpp","once_consumable_stack.h","when_all.h","when_any.h","promise.h","packaged_task.h"],
 [("allocation happens before ownership moves; RAII","once_consumable_stack.h: push, then.hpp: make_then_state"),("pool constructor","portable_concurrency.cpp: static_thread_pool::static_thread_pool")],
 None,["exception at the caller; state of everything else"])

prop("C20", "Coroutines resume exactly once, with the result they awaited",
 "A coroutine that co_awaits a future or shared_future is resumed exactly once after the result is available, also when it becomes available while the coroutine is suspending, and co_await yields the value or rethrows the exception. "
 "What a coroutine returns or throws is the outcome of its future, and dropping that future does not disturb a coroutine that is still running.",
 ["schedules"],
 "For all interleavings of suspension with completion and abandonment, for value, reference and void results and nested coroutines.",
 "The coroutine support has no tests at all, only an example program.",
 ["future.hpp","shared_future.hpp","promise.h","coro.h"],
 [("await_ready/await_suspend/await_resume on the continuation list","future.hpp, shared_future.hpp"),("promise as coroutine promise_type","promise.h")],
 None,["coroutine side effects, future::get"])

prop("C21", "All copies of a shared_future see one stable result",
 "Any number of threads may use their own copies of a shared_future at the same time: all of them, their continuations and shared_futures unwrapped from them observe the same result object, or the same exception, for as long as a copy exists. "
 "Reading, waiting on, attaching to, copying or dropping one copy never changes, moves away, invalidates or delays what the others see.",
 ["schedules","histories"],
 "For all interleavings of any number of copies being read, copied, moved, attached to and dropped around the completion.",
 "Tests use copies from one thread, or two threads that only call get().",
 ["shared_future.h","shared_future.hpp","then.hpp","shared_state.h"],
 [("shared ownership of one state, const access to its value","shared_future.hpp: get, next, then")],
 None,["addresses and values returned by shared_future::get"])

prop("C22", "A result can be set once and taken once",
 "Only the first attempt to set a value or exception succeeds; every later attempt, including running a packaged task again or setting from inside a continuation, reports promise_already_satisfied and leaves the stored result and everyone observing it undisturbed. "
 "A future can be obtained once and its value taken once: repeated retrieval reports future_already_retrieved, and use of an invalid or already consumed object reports no_state. "
 "If storing a value throws, the promise is still unset and can be completed afterwards.",
 ["schedules","histories","fault_sequences"],
 "For all operation sequences on write ends and read ends, also while other threads wait on, read or attach to the same result, and for value constructors that throw.",
 "Tests try each misuse once, in a single thread.",
 ["shared_state.h","promise.h","packaged_task.h","future.hpp","either.h"],
 [("empty-storage check before storing","shared_state.h: emplace, set_exception"),("variant state checks","promise.h, packaged_task.h: get_future, run")],
 None,["std::future_error codes"])

prop("C23", "A unique_function holds and calls exactly the function it was given",
 "A unique_function calls the function it was given, with the arguments and the result (values, move-only values, references) passed through unchanged, and owns it exactly: it is relocated only by its own move constructor to properly aligned storage and destroyed once. "
 "It is empty when default constructed or made from nullptr, a null function pointer or an empty function wrapper, and calling it then throws bad_function_call; what was moved from can be assigned and destroyed, and moving or swapping with itself changes nothing. Function pointers and reference wrappers are stored without allocating. "
 "If an allocation or a constructor of the function fails while it is stored, the failure reaches the caller, nothing leaks and what the unique_function held before is still there.",
 ["inputs","histories","fault_sequences"],
 "For all sequences of storing, moving, swapping places, calling and dropping, for callables of any size, alignment, copyability and move constructor, with any allocation or constructor failing.",
 "Tests store a few callables and call them once; executors rely on it for every task.",
 ["unique_function.h","unique_function.hpp","small_unique_function.h","small_unique_function.hpp"],
 [("small buffer or heap, chosen by size, alignment and nothrow move","unique_function.hpp, small_unique_function.hpp: is_storable_t")],
 None,["calls, results, object counters"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
