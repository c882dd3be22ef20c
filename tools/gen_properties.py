#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable).
import json,os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
S,I,H,PR,F="schedules","inputs","histories","programs","fault_sequences"
p("C01","A lazy task runs once, only when awaited, and hands over its exact outcome",
  "A task<T> does not start before it is awaited; once awaited its body runs exactly once and its awaiter is resumed exactly once, after the body has finished, with exactly the returned value, reference, move-only object or thrown exception. The coroutine frame, its parameters, its locals and its result are destroyed exactly once, also when the task is dropped or overwritten without ever being awaited.",
  [I,H,PR],"every returned value, every choice of value/exception/void/reference result, every place a task suspends, and every sequence of create/move/await/drop of bounded length",
  "The tests use a few constant values and one nesting; they sample neither the result values nor the drop/move histories.",
  ["macoro/task.h","macoro/coroutine_handle.h","macoro/awaiter.h"],
  [("initial_suspend / final_awaitable (lazy)","task_promise_base<true>, macoro/task.h"),("result storage and its destruction","task_promise, macoro/task.h")],
  [("continuation","who is resumed when the task ends","task_promise_base<true>::m_continuation"),("result type","empty/value/exception tag of the stored result","task_promise::m_resultType")],
  ["co_await of a task","destructor of task"])
p("C02","An eager task finishing on one thread resumes a concurrent awaiter exactly once",
  "An eager_task starts immediately and may finish on any thread while another thread starts awaiting it: in every interleaving the awaiter proceeds exactly once, only after the task has finished, and sees its result or exception and everything the task wrote. Asking whether the task is ready never returns true before the result can be taken, and neither side touches the task's frame after it has been destroyed.",
  [S,I],"every interleaving (and every C++11 memory-order reordering within the bound) of the completing and the awaiting thread, every result value",
  "The upstream eager tests are excluded from the reliable set because they crash randomly on exactly this race; tests sample a handful of schedules.",
  ["macoro/task.h"],[("completion/continuation handshake","task_promise_base<false>, macoro/task.h"),("await_ready / is_ready","task_awaitable_base<T,false>, macoro/task.h")],
  [("completion flag","exchanged by whoever of finisher and awaiter comes first","task_promise_base<false>")],["co_await of an eager_task","eager_task::is_ready"])
p("C03","result<T,E> holds exactly one alternative and every accessor agrees on it",
  "A result<T,E> holds either the value or the error it was last given, for every payload and also when T and E are the same type; has_value, has_error, value, error, value_or, error_or, comparisons, unwrap and operator* all agree with it, through const, mutable and rvalue access, copies, moves and assignments. Reading the wrong side throws and changes nothing, and unwrapping an error throws that error.",
  [I,H],"every 64-bit payload, each alternative, every bounded sequence of construct/assign/copy/move/access",
  "Tests use constants and a few accessors; const access is not exercised at all.",
  ["macoro/result.h"],[("tagged variant and accessors","result, macoro/result.h"),("Ok/Err/tag types","macoro/result.h")],[("alternative","which of value/error is held","result::m_var")],["result's public accessors"])
p("C04","wrap turns any outcome of an awaitable into a result and never throws",
  "Awaiting a wrapped awaitable never throws: it yields Ok with exactly the value the awaitable would have produced, or Err holding exactly the exception that asking for readiness, suspending or resuming it would have thrown, for value, void and reference results and for results that are already result objects. Suspension and resumption of the inner awaitable are unchanged, and the inner coroutine is run and destroyed exactly once.",
  [I,PR],"every value, both outcomes, awaitables that finish synchronously and that suspend","Tests check constants with one suspension shape.",
  ["macoro/wrap.h","macoro/result.h"],[("wrapped_awaiter","macoro/wrap.h")],[],["co_await wrap(x)"])
p("C05","when_all resumes once, after every child, with each child's own outcome in place",
  "Awaiting when_all_ready over any number of tasks, finishing in any order on any threads, resumes the awaiter exactly once and only after every child has finished; the i-th entry then holds the value, reference or exception of the i-th child, unaffected by the other children's failures. Everything the children wrote is visible to the awaiter, and every child frame is destroyed exactly once, including when the combined awaitable is dropped unawaited.",
  [S,I],"all interleavings of children finishing on other threads with the awaiter registering, all result values, 0..3 children",
  "Tests run children to completion on one thread or sample a few thread schedules.",
  ["macoro/when_all.h","macoro/detail/when_all_awaitable.h","macoro/detail/when_all_counter.h","macoro/detail/when_all_task.h"],
  [("children counter","macoro/detail/when_all_counter.h"),("tuple/vector awaitable","macoro/detail/when_all_awaitable.h"),("child wrapper task","macoro/detail/when_all_task.h")],
  [("count","children outstanding, plus one for the awaiter","when_all_counter")],["co_await when_all_ready(...)"])
p("C06","Joining an async_scope waits for all added work and reports every lost exception",
  "A join of an async_scope completes only after every task added to it, also those added while it is being waited for by running work, has finished, and it then completes exactly once in every interleaving. Exceptions of tasks whose handle was dropped unawaited are all collected and reported by the join, no matter whether the task finished before or during the join; with none it returns normally.",
  [S,H],"all interleavings of task completions on other threads with the join and with handle drops, 0..3 tasks, each ending in value or exception",
  "Tests complete tasks from the joining thread, before or after the join, in fixed order.",
  ["macoro/async_scope.h","macoro/detail/scoped_task_promise.h"],[("scope count and join continuation","macoro/async_scope.h"),("completion protocol of scoped tasks","macoro/detail/scoped_task_promise.h")],
  [("count","tasks outstanding","async_scope"),("exceptions","exceptions of dropped tasks","async_scope")],["co_await scope"])
p("C07","A scoped task's handle can be awaited or dropped at any moment, frame freed once",
  "The handle of a task added to a scope may be awaited, dropped or overwritten concurrently with the task's completion on another thread: an awaiter gets exactly the task's value or exception, exactly once and only after completion. The task's frame is destroyed exactly once, by whoever is last, and is never touched afterwards.",
  [S,I],"all interleavings of completion with await/drop of the handle, all values, value/void/exception outcomes","Tests perform the drop and the completion on one thread, in the two fixed orders.",
  ["macoro/async_scope.h","macoro/detail/scoped_task_promise.h"],[("status word","macoro/detail/scoped_task_promise.h")],[("status","in progress / completed / continuation / dropped","scoped_task_promise")],["scoped_task","scope.add"])
p("C08","A when_all_scope body can add tasks and ends only when all of them have ended",
  "Awaiting a coroutine that owns a when_all_scope resumes the awaiter exactly once, after the body and every task added to the scope have finished on whatever threads; the result of a task whose handle the body awaits is delivered there unchanged, and any other exception of the body or of an added task is reported to the awaiter. The body's frame and every added task's frame are destroyed exactly once.",
  [S,I,PR],"interleavings of added tasks finishing on other threads with the body's end; body/task outcome value or exception","The tests complete everything on one thread and never check the frame's destruction.",
  ["macoro/when_all_scope.h","macoro/async_scope.h"],[("when_all_scope","macoro/when_all_scope.h")],[],["co_await of the scope task"])
p("C09","Manual reset event: no waiter is lost, woken twice, or woken without a set",
  "For any number of coroutines waiting on an async_manual_reset_event and threads calling set, try_set-style tests and reset: every coroutine that began waiting before or while the event is set is resumed exactly once, one that awaits a set event continues without suspending, and none is resumed unless set was called after (or the event was set when) it started waiting. What happened before set is visible after the wait, and reset affects only later waits.",
  [S,H],"all interleavings of bounded set/reset/await histories over up to 3 threads and 2 waiters, weak memory included","Tests are single threaded.",
  ["macoro/manual_reset_event.h"],[("state word with intrusive waiter list","macoro/manual_reset_event.h")],[("state","not set / set / list of waiters","async_manual_reset_event")],["co_await event","set","reset","is_set"])
p("C10","Barrier: releases its waiters exactly when the count reaches zero",
  "A coroutine waiting on an async barrier is resumed exactly once and only after the required number of decrements have happened, in every interleaving of the decrementing threads with the wait; a wait on an already completed barrier does not suspend. Whatever the decrementing threads wrote before is visible after the wait, and to a thread to which count() reads zero.",
  [S,I],"counts up to 3, all interleavings of decrement and wait","The repository has no test of the barrier at all.",
  ["macoro/barrier.h"],[("counter and event","macoro/barrier.h")],[],["co_await barrier","decrement"])
p("C11","Sequence barrier: a wait ends after, and only after, its number is published",
  "A coroutine waiting for a sequence number is resumed exactly once in every interleaving with concurrent publishes, never before a number at or past its target has been published and never left suspended once one has; it receives the last published number it was released by. Different waiters with different targets do not disturb each other, numbers may wrap around, and what the publisher wrote before publishing is visible to the waiter.",
  [S,I],"interleavings of one publisher with up to 2 waiters on C++11 memory orders, symbolic start sequence incl. wrap-around","Tests run single threaded with small fixed numbers.",
  ["macoro/sequence_barrier.h","macoro/sequence_traits.h"],[("awaiter list and last-published word","macoro/sequence_barrier.h")],[("last published","sequence published so far","sequence_barrier"),("awaiters","list of suspended waiters","sequence_barrier")],["wait_until_published","publish"])
p("C12","Sequence numbers compare, subtract and iterate correctly across wrap-around",
  "For unsigned sequence numbers of every width, precedes is a strict order on numbers less than half the range apart and difference is its signed distance, also across wrap-around. A sequence range enumerates exactly the numbers from its first up to but excluding its end in order, its size, front, back and index agree with that, and skip/first split it without losing or repeating a number.",
  [I],"all values of the 8/16/32/64-bit sequence types; ranges up to the stated iteration bound, arithmetic facts unbounded","Tests use small numbers far from the wrap.",
  ["macoro/sequence_traits.h","macoro/sequence_range.h"],[("signed difference of unsigned","macoro/sequence_traits.h"),("range iterator","macoro/sequence_range.h")],[],["sequence_traits","sequence_range"])
p("C13","Single-producer sequencer hands out each slot once and never a slot in use",
  "A producer's claims are contiguous, in order and never ahead of the consumer by more than the buffer size, whatever was claimed one at a time or in batches; a batch holds at least one and at most the requested number of slots. A producer suspended for lack of space is resumed once, when and only when space has been freed, and a consumer waiting for a number sees it exactly when it has been published.",
  [S,I],"interleavings of producer and consumer, symbolic start sequence (wrap-around) and batch sizes, small power-of-two buffers","Tests claim a few items with one thread driving both sides.",
  ["macoro/sequence_spsc.h","macoro/sequence_barrier.h"],[("claim_one / claim_up_to","macoro/sequence_spsc.h")],[("next to claim","producer position","spsc_sequencer")],["claim_one","claim_up_to","publish","wait_until_published"])
p("C14","Multi-producer sequencer: claims never overlap and become visible only in order",
  "Concurrent producers never obtain overlapping slots, together they obtain contiguous ones, and never one still unread by the consumer. A consumer waiting for a number is told a last-published position only when every number up to it has really been published by its producer, and then sees what was written into those slots.",
  [S,I],"interleavings of 2 producers and one consumer, batch and single and try claims, buffer sizes 1..4, weak memory","Tests drive producers from one thread or sample a few schedules.",
  ["macoro/sequence_mpsc.h"],[("fetch_add claim","multi_producer_sequencer, macoro/sequence_mpsc.h"),("published array","multi_producer_sequencer, macoro/sequence_mpsc.h")],[("next to claim","shared claim counter","multi_producer_sequencer"),("published","per slot published sequence","multi_producer_sequencer")],["claim_one","claim_up_to","try_claim_one","publish","wait_until_published"])
p("C15","Multi-producer sequencer never forgets or prematurely wakes a waiter",
  "Every consumer waiting for a sequence number is resumed exactly once, as soon as all numbers up to its target have been published and not earlier, in every interleaving of producers publishing out of order; waiters with different targets are each held to their own target. Every producer suspended on a full buffer is resumed exactly once after space is freed, and queries about free or published slots agree with this.",
  [S,I],"interleavings of 2 out-of-order publishers and up to 3 waiters; symbolic sequences","Tests have a single waiter and a fixed order.",
  ["macoro/sequence_mpsc.h","macoro/sequence_barrier.h"],[("add_awaiter / resume_ready_awaiters","macoro/sequence_mpsc.h")],[],["wait_until_published","claim_one","any_available"])
p("C16","Single-producer channel delivers every item once, in order, then closes",
  "Whatever the interleaving of sender and receiver and whatever the capacity, the receiver of a single-producer channel gets exactly the sent items, unmodified, once each, in the order sent, and after the sender closes and everything has been received it observes the channel as closed. Neither side stays suspended when it could proceed, and every item is destroyed exactly once.",
  [S,I],"interleavings of a sender and a receiver exchanging up to 3 items over capacities 1, 2, 4, symbolic payloads","Tests sample thread schedules; the sanitizer notes show races reported there.",
  ["macoro/channel.h","macoro/sequence_spsc.h"],[("sender/receiver over sequencers","macoro/channel.h")],[("slots","ring of items","channel")],["push","pop","close"])
p("C17","Multi-producer channel loses, repeats or reorders nothing of each producer",
  "With several senders pushing concurrently into a multi-producer channel, the receiver gets every item pushed exactly once and each sender's items in that sender's order; it observes the channel as closed only at a close, after every item whose push completed before that close, and from then on. Nobody stays suspended when it could proceed.",
  [S,I],"interleavings of 2 senders and a receiver, up to 2 items per sender, capacities 1, 2, 4","Tests sample thread schedules.",
  ["macoro/channel.h","macoro/sequence_mpsc.h"],[("sender/receiver over sequencers","macoro/channel.h"),("sender count","macoro/channel.h")],[],["push","pop","close"])
p("C18","A channel never holds more than its capacity and never touches a slot in use",
  "At every moment the number of items pushed but not yet received is at most the channel's capacity: a push beyond that suspends until the receiver has released a slot. An item stays valid and unmodified until the receiver releases it, items left in a channel that is torn down are destroyed exactly once, and no slot is constructed over a live item. A capacity that is not a power of two is refused with an exception.",
  [S,H,I],"histories of push/pop/close/destroy up to a bound with element lifetimes counted, capacities 1, 2, 4","Tests never inspect slot lifetimes.",
  ["macoro/channel.h"],[("slot construct/destroy","macoro/channel.h")],[],["push","pop","front"])
p("C19","Stop callbacks run exactly once iff stop is requested, never once deregistered",
  "For every interleaving of a stop request with registration and deregistration of callbacks, each callback that stays registered runs exactly once if stop was or is requested (at its registration, or before request_stop returns) and never otherwise; a callback never runs twice, and never once it was deregistered. When deregistration returns on a thread other than the one running the callback, the callback is not running and will not run; a callback may deregister itself or others. Registering and deregistering over and over, few at a time, needs no further memory.",
  [S,H],"interleavings of request_stop with register/deregister on up to 3 threads and up to 3 callbacks, incl. more callbacks than one storage chunk holds","The tests have one stop source, used from one thread.",
  ["macoro/detail/stop_state.cpp","macoro/detail/stop_callback.h","macoro/detail/stop_token.cpp"],[("registration list and notification handshake","macoro/detail/stop_state.cpp")],[("state","stop requested/notification complete flags and reference counts","stop_state::m_state")],["request_stop","stop_callback"])
p("C20","Stop sources and tokens agree on the request and free their state exactly once",
  "Once stop was requested on any copy of a stop source, every associated source and token sees it, with everything written before the request, from then on; none sees it before, and unrelated ones never do. Requesting again changes nothing. A token can still be stopped as long as a source exists or stop was requested, empty tokens never can, and the shared state is freed exactly once whatever order copies, moves, assignments and destructions of sources and tokens take on any threads.",
  [S,H],"bounded histories of copy/move/assign/destroy/request chosen symbolically; interleavings over 2 threads","Tests only request and read once.",
  ["macoro/detail/stop_state.cpp","macoro/detail/stop_source.cpp","macoro/detail/stop_token.cpp"],[("reference counts","macoro/detail/stop_state.cpp")],[("state","flags and reference counts","stop_state::m_state")],["stop_source","stop_token"])
p("C21","Awaiting a stop token resumes exactly once, when and only when stop is requested",
  "A coroutine that awaits a stop token is resumed exactly once: immediately when stop was already requested or can no longer be, otherwise by the stop request, in every interleaving of the two and also when resumption destroys the coroutine at once. It is not resumed before the request, and sees what was written before it.",
  [S],"all interleavings of request_stop with the await","There is no test of awaiting a token under concurrency.",
  ["macoro/stop.h"],[("stop_awaiter","macoro/stop.h")],[],["co_await token"])
p("C22","Thread pool runs every scheduled coroutine once on its workers, and join waits",
  "Every coroutine posted, scheduled or dispatched to a thread pool that keeps work outstanding is resumed exactly once, on one of the pool's threads (dispatch from a pool thread may continue in place), and what the poster wrote is visible to it. join returns only after the work guards are released and everything queued has run, and then always returns; no worker sleeps while work is queued.",
  [S,H],"interleavings of up to 2 workers, posters and the joiner; bounded number of posts","Tests sample schedules and count a total.",
  ["macoro/thread_pool.h","macoro/thread_pool.cpp"],[("queue, condition variable and work count","macoro/thread_pool.h")],[("queue","posted handles","thread_pool_state"),("work count","outstanding work guards","thread_pool_state")],["schedule","post","dispatch","make_work","join"])
p("C23","Delayed operations are neither early nor lost; cancelling releases them at once",
  "A coroutine scheduled after a delay is resumed exactly once on the pool, not before its deadline unless its stop token is triggered, in which case it is resumed promptly and not at its deadline; operations with different deadlines do not hold each other up and join does not wait for a cancelled deadline. This holds for cancellation before, during and after registration on any thread.",
  [S,I],"interleavings of worker, scheduler and canceller with a symbolic clock and symbolic delays, 2 operations","Tests use real time with large margins and one schedule.",
  ["macoro/thread_pool.h"],[("deadline heap and stop registration","macoro/thread_pool.h")],[("heap","delayed operations by deadline","thread_pool_state")],["schedule_after"])
p("C24","take_until and timeout cancel the losing operation and return the right outcome",
  "Awaiting an operation with take_until or with a timeout returns the operation's own value or exception exactly once, after the operation and its canceller have both ended; the operation's stop token is triggered once the trigger or deadline comes first and its trigger is cancelled when the operation ends first. In every interleaving both sides are released, and nothing is touched after it was destroyed.",
  [S,I],"interleavings of operation end and trigger on different threads; value and exception outcome","Tests sample real-time schedules; sanitizer notes report races in them.",
  ["macoro/take_until.h","macoro/timeout.h"],[("take_until","macoro/take_until.h"),("timeout","macoro/timeout.h")],[],["take_until","timeout"])
p("C25","sync_wait returns only after completion, with exactly the awaited outcome",
  "Blocking on any awaitable returns only after it has completed, on whatever thread it completes, and returns exactly its value, reference or move-only object or rethrows exactly its exception; it always returns once the awaitable completes. Everything the completing thread wrote is visible, and the wait state is not touched after the waiter has returned.",
  [S,I],"interleavings of the completing thread and the blocked thread; all values; synchronous and asynchronous completion","Tests complete on the same thread or sample.",
  ["macoro/sync_wait.h"],[("mutex/condition variable handshake","blocking_promise, macoro/sync_wait.h")],[("is set","completion flag","blocking_promise")],["sync_wait","make_blocking"])
p("C26","Macro coroutines behave like native ones: same steps, same values, same cleanup",
  "A coroutine written with the MC_ macros executes the same statements in the same order as the equivalent native coroutine for all inputs: awaits suspend and resume at the same points, values, references and exceptions flow through awaits, yields and returns identically. Its captured variables, every awaiter and the frame are each destroyed exactly once, at the end of the await or of the coroutine, also when an exception is thrown or the coroutine is destroyed while suspended.",
  [I,PR,H],"symbolic inputs steering branches, loops (bounded), exceptions at every await, and destruction at every suspension point","Tests run fixed paths through each macro.",
  ["macoro/macros.h","macoro/coro_frame.h"],[("frame and awaiter storage","macoro/coro_frame.h"),("MC_ macros","macoro/macros.h")],[("suspension index","where the coroutine continues","FrameBase")],["MC_BEGIN ... MC_END"])
p("C27","Coroutine handles survive conversion: same coroutine, same promise, same state",
  "Converting a handle between typed, untyped, native and macro forms or through its address, and back, yields a handle to the same coroutine: resume, done, destroy and promise act on it, and from_promise inverts promise; a task that asks for its own promise (getPromise) gets it and goes on at once. Null handles stay null and no-op handles stay no-op: a handle compares equal to null exactly when it is null, and resuming, querying or destroying a no-op is harmless.",
  [I,PR],"promise types of different alignment and size, native and macro coroutines, all conversion paths","Tests only convert incidentally.",
  ["macoro/coroutine_handle.h","macoro/coro_frame.h"],[("address tagging","macoro/coroutine_handle.h")],[],["coroutine_handle"])
p("C28","start_on and transfer_to run the continuation on the chosen scheduler, once",
  "Awaiting start_on(scheduler, x) starts x only after a hop to the scheduler and delivers x's value, reference or exception; an lvalue x is awaited in place. transfer_to(scheduler) continues the awaiting coroutine exactly once on the scheduler and not before. A scheduler given by value lives until its hop is done, and if it refuses, x does not start.",
  [S,I],"interleavings of submitter and scheduler thread, all values, value/exception","Tests check a single run.",
  ["macoro/start_on.h","macoro/transfer_to.h"],[("start_on","macoro/start_on.h"),("transfer_to","macoro/transfer_to.h")],[],["start_on","transfer_to"])
p("C29","An async trace lists exactly the current chain of awaiting coroutines",
  "Asking for the trace inside a task yields one entry per coroutine currently awaiting it, directly or indirectly through tasks, when_all, wrap, a blocking wait or a scope (there: where the task was added), innermost first, each with the place where it awaits, for native and macro coroutines, across suspension and threads. Coroutines that are not awaiting it, or no longer, do not appear. The chain ends at a blocking wait or at an eager task; coroutines of the library itself may appear in between.",
  [PR,I],"chains of symbolic depth and shape over task, eager_task, when_all, sync_wait","Tests print or check one chain.",
  ["macoro/trace.h","macoro/task.h"],[("parent links","macoro/trace.h")],[("parent","link to the awaiting coroutine","traceable")],["get_trace"])
p("C30","Every way of awaiting takes an awaitable through the same steps, once each",
  "However an awaitable is awaited (in a native or macro coroutine, wrapped, in when_all_ready, started on a scheduler, added to a scope, in take_until, or blocking), its own co_await operator is used, member or free, chosen by its value category: an lvalue is awaited in place and as an lvalue, an rvalue as an rvalue. Its awaiter is asked once whether it is ready, suspended once and only if it is not, resumed once and last, and then destroyed once; an exception of any of these steps, or the value, is the outcome, and the consumer continues then and not before.",
  [I,S,PR],"all consumers, four shapes of awaitables, three kinds of await_suspend, lvalue and rvalue, exceptions at each step, completion at once, later, or on another thread","Tests await tasks, hardly ever other awaitables, and mostly through one consumer.",
  ["macoro/type_traits.h","macoro/wrap.h","macoro/when_all.h","macoro/coro_frame.h"],[("awaiter lookup","get_awaiter, macoro/type_traits.h")],[],["co_await","MC_AWAIT","wrap","when_all_ready","start_on","async_scope::add","take_until","sync_wait"])
p("C31","Long loops and chains of awaits run in constant stack space",
  "A coroutine that awaits in a loop uses no more stack in a late turn than in an early one, however many awaits completed at once before: tasks, eager tasks, start_on, wrap, take_until, when_all_ready, scopes, open events and barriers, stop tokens, channels, pool jobs; native coroutines awaiting native ones and macro coroutines awaiting macro ones. A chain of tasks that await each other neither grows the stack on the way down nor when the results travel up. Releasing many waiters at once resumes each from the same depth.",
  [I,PR],"all kinds of awaited operations, values, exceptions, suspended or not, order in which the ends of a channel start","No test loops long enough to overflow a stack.",
  ["macoro/task.h","macoro/coro_frame.h","macoro/wrap.h"],[("symmetric transfer","final and await_suspend, macoro/task.h")],[],["co_await","MC_AWAIT"])
p("C32","A failed allocation is reported where it happens and damages nothing",
  "If operator new fails while an operation that is not noexcept starts or runs (a native or macro coroutine, start_on, take_until, when_all_ready, wrap, a pool job or delay, a timer, a pool's threads, a stop source or callback, waiting for a stop token, making a channel), std::bad_alloc reaches whoever started or awaited it. Nothing is leaked, freed twice or run twice, operations that were not started do not run, those that were complete as always, and the same objects serve later operations.",
  [I,PR,F],"which allocation fails (any, once per attempt), values, cancellation, schedules of workers and stop requests","No test makes an allocation fail.",
  ["macoro/coro_frame.h","macoro/thread_pool.h","macoro/detail/stop_state.cpp","macoro/task.h"],[("awaiter storage","FrameBase::makeAwaitContext, macoro/coro_frame.h"),("callback table","stop_state::add_callback, macoro/detail/stop_state.cpp"),("thread creation","thread_pool::create_threads, macoro/thread_pool.h")],[],["operator new"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
