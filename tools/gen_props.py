#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the 30-odd entries stay readable)."""
import json, os
F="include/stlab/concurrency/future.hpp"; CH="include/stlab/concurrency/channel.hpp"
DE="include/stlab/concurrency/default_executor.hpp"; AW="include/stlab/concurrency/await.hpp"
SQ="include/stlab/concurrency/serial_queue.hpp"; TI="include/stlab/concurrency/system_timer.hpp"
EB="include/stlab/concurrency/executor_base.hpp"; PX="src/pre_exit.cpp"; TK="include/stlab/concurrency/task.hpp"
FO="include/stlab/forest.hpp"; FA="include/stlab/forest_algorithms.hpp"; TU="include/stlab/concurrency/tuple_algorithm.hpp"
PR="include/stlab/concurrency/progress.hpp"; DC="src/concurrency/default_executor.cpp"
RV="include/stlab/algorithm/reverse.hpp"; SN="include/stlab/iterator/set_next.hpp"
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
S="schedules"; I="inputs"; H="histories"; PG="programs"; CF="configurations"; FS="fault_sequences"
# ---------------------------------------------------------------- futures
p("C01","A continuation runs exactly once, and only after its input is ready",
 "Every continuation attached to a future (with then or recover, by any thread, before, while or after the future becomes ready) is handed to its executor exactly once and runs exactly once with that future's outcome. It never runs before the future is ready, and none is lost or repeated however attaching races with the future becoming ready or with other attachments.",
 [S,PG],"all interleavings of one resolving thread with one or two attaching threads, for value, void and move-only futures and for failing inputs",
 "The tests start one attach on one thread and a resolve on another and see whichever order the OS picks; the window between testing for readiness and queueing the continuation is a few instructions wide.",
 [F],[("ready flag and continuation list are updated under one mutex; continuations are swapped out once when the value is set",F+": shared_base::then/recover, set_value, set_exception")],
 [("continuation list","continuations waiting for the value",F+": shared_base::_then"),("ready flag","value or error is available",F+": shared_base::_ready")],
 ["calls of the continuation body","tasks handed to the executor"])
p("C02","A future's outcome is stable, visible and consistently reported",
 "Once any observer sees a future as ready, every later query through that future or any copy of it, on any thread, reports ready and the same single value or error, and the value's contents are fully visible to the observer. A query (is_ready, get_try, get_ready, exception) never reports a half-set outcome, and returns no value and no error before the outcome exists.",
 [S],"all interleavings of one producer with one or two observers polling copies of the future",
 "A torn or early-published readiness flag shows only under a specific interleaving or memory order; the tests poll until ready on one thread.",
 [F],[("flag published under/after the value, with mutex or acquire/release pairing",F+": shared_base::is_ready,get_try,set_value,set_exception")],
 [("ready flag","outcome is available",F+": shared_base::_ready")],["results of is_ready/get_try/get_ready/exception"])
p("C03","Abandoned work breaks the promise; a waiter is never left hanging",
 "If the work that would resolve a future is destroyed without having been called (the last promise/packaged task is dropped, an executor discards the task, or an upstream's work is dropped), the future becomes ready with a broken-promise error which reaches every continuation and waiter. A future whose work did run never reports a broken promise.",
 [S,FS],"all interleavings of promise destruction with attaching, waiting, copying and resolving; executors that run or drop each task",
 "Tests drop a promise on one thread at one point; the race of the last drop with resolution or attachment is not reachable deterministically.",
 [F],[("promise reference count; the last release without a result sets broken_promise",F+": shared<>::remove_promise, packaged_task::~packaged_task")],
 [("promise count","live promises of the shared state",F+": shared<>::_promise_count")],["exception of the future","continuations reached"])
p("C04","Dropping the last future cancels pending work and frees what it holds",
 "When the last copy of a future is destroyed or reset before its task has started, the task's function never runs and everything it captured, and every upstream future it alone was holding, is released; nothing captured is ever leaked or released twice. A step that has run, whether it returned or threw, is released then (with what it captured and the inputs it was holding), though its result lives on. A future that was detached, or of which any copy or continuation is still alive, is not cancelled and its task still runs.",
 [S,H],"all interleavings of dropping futures with an executor running, delaying or discarding their tasks",
 "Tests cancel at fixed points with a parked executor; the race between the drop and the start of the task needs schedule control.",
 [F],[("tasks hold their shared state weakly and upstream futures only until run",F+": packaged_task, shared<>::operator(), future::detach, future::reset")],
 (),["task bodies run","destructor counts of captured values"])
p("C05","Errors propagate along a chain and are recoverable exactly where asked",
 "If a step throws, its future is ready with that very exception, every then-continuation downstream is skipped and reports the same exception, and a recover-continuation is called with the ready failed (or succeeded) future and its result replaces the outcome for those downstream. No exception escapes into an executor's thread and none is swallowed or replaced on the way.",
 [S,PG],"all chains up to the bound built from then/recover steps over value, void and move-only types with each step succeeding or throwing, under all interleavings of running and attaching",
 "Tests exercise a few chain shapes; the property is about every chain shape and failing position.",
 [F],[("invoke wraps the call and stores the exception; continuation forwards it",F+": value_setter / reduction, shared_base::set_exception")],
 (),["final outcome of the chain","bodies called"])
p("C06","A future of a future collapses to the inner outcome",
 "When a continuation or async task returns a future, the outer future becomes ready only when the inner one is, with the inner one's value or error, at any nesting the API reduces; if the inner future is abandoned the outer reports broken promise. Dropping the outer future releases the inner one.",
 [S,PG],"all interleavings of the outer task, the inner task, attachment and drop, for value, void and move-only inner types",
 "Three parties race (outer task, inner task, reader); tests let the inner task finish in one order.",
 [F],[("reduction attaches a forwarding recover-continuation and keeps the inner continuation alive in the outer state",F+": reduction_helper, reduce")],
 (),["value/exception of outer future"])
p("C07","when_all delivers every result in order, exactly once, or the first error",
 "when_all (argument and range form) calls its function exactly once, only after all inputs are ready, with each input's value in its position (void inputs omitted); if any input fails the function is not called and the result is an error one of the inputs produced. An empty range calls the function with an empty vector, and dropping the result releases all inputs.",
 [S,PG,FS],"all interleavings of the inputs becoming ready on different threads with each subset of them failing, including drop of the result",
 "The countdown of remaining inputs races with itself only when inputs complete truly concurrently.",
 [F],[("countdown of remaining inputs; results stored per index; last one schedules",F+": when_all_shared, context_result, attach_when_arg_")],
 [("remaining","number of inputs not yet ready",F+": when_all_shared::_remaining / common_context::_remaining")],["calls of the function","its arguments"])
p("C08","when_any delivers exactly one success with its index, or fails if all fail",
 "when_any (argument and range form) calls its function exactly once with the value and position of an input that really succeeded, as soon as one has, whatever the others do later; only if every input fails is the function skipped and the result an error of one of the inputs. An empty range yields a broken-promise error.",
 [S,PG,FS],"all interleavings of the inputs completing on different threads with each subset of them failing",
 "Two winners, a winner overwritten by a later completion, and a failure counted after a success need concurrent completions.",
 [F],[("first success recorded under lock/atomic; failures counted down",F+": when_any_shared, single_trigger, any_trigger")],
 [("index of winner","first successful input",F+": when_any_shared::_index / _index")],["calls of the function","value and index"])
p("C09","Each of several readers of one future receives the intact value",
 "When several continuations, combinators and readers are attached to copies of the same future, each of them receives its own complete and unmodified value: moving the value out for one of them is done only if no other present or possible later reader could observe it. A value handed over to a sole consumer by move is moved, never duplicated, for move-only types.",
 [S,PG],"all interleavings of two or three attachments (lvalue and rvalue), reads and drops of copies of one future with its resolution",
 "The move optimisation depends on a use count read while other threads copy or drop; a wrong decision shows only for some orders.",
 [F],[("unique-use test before moving from the shared value",F+": shared_base<T>::get_ready_r / then_r, future::then &&")],
 (),["values seen by each continuation"])
p("C10","Blocking waits return the outcome, wake up, and time out safely",
 "await/blocking_get returns the future's value or rethrows its error and always returns once the future is resolved, whichever thread resolves it and at whichever moment. The timed form returns within its bound with a future that is still usable: after a timeout the eventual outcome can still be obtained from the returned future, and if the outcome arrived in time the returned future is ready with it.",
 [S,FS],"all interleavings of one waiter with the resolver, with the timeout firing at every possible moment",
 "A missed notification or a timeout racing the result is a one-instruction window.",
 [AW,"include/stlab/concurrency/ready_future.hpp"],[("state and condition variable shared with the resolving continuation",AW+": await, await_for, blocking_get, blocking_get_for, invoke_waiting")],
 (),["value returned","deadlock"])
p("C11","Coroutine futures behave like ordinary continuations",
 "A coroutine returning a future resolves that future with its co_return value or with the exception that leaves it, exactly once; co_await on a future resumes the coroutine exactly once, after the awaited future is ready, with its value or by rethrowing its error. Nothing of the coroutine is leaked or destroyed twice, and a ready future is awaited without losing the resumption.",
 [S,PG],"all interleavings of a coroutine awaiting one or two futures with their resolution on other threads",
 "The test awaits on the real pool in whatever order occurs; ready-check/suspend/resume races are not controlled.",
 [F],[("promise_type and awaiter built on package and recover",F+": std::coroutine_traits, operator co_await")],
 (),["value of the coroutine's future","number of resumptions"])
# ---------------------------------------------------------------- executors
p("C12","The default executor runs every task exactly once and drains at pre-exit",
 "Every task submitted to a default, low or high priority executor from any thread, including from tasks, is run exactly once, without needing further submissions to get it going. When pre_exit returns, every task submitted before it has completed and all pool threads have stopped.",
 [S,CF],"all interleavings (within the preemption bound) of submitters, one or two workers and shutdown, for pool sizes 1 to 3",
 "A lost wakeup between an idle worker and a submitter, or between a worker and shutdown, needs one exact interleaving of try-lock, wait and notify.",
 [DE,DC],[("per-worker queues with try-lock stealing, condition variable wakeups",DE+": notification_queue, priority_task_system")],
 [("queues","pending tasks per worker",DE+": priority_task_system::_q"),("done","shutdown flag per queue",DE+": notification_queue::_done")],["tasks run","deadlock"])
p("C13","Pool tasks start by priority, first-in first-out within a priority",
 "When a single worker of the default executor chooses among tasks that are all pending, it starts every high priority task before any default one and those before any low one; among tasks of equal priority submitted by one thread it starts them in submission order. This holds for any mix and number of pending tasks and however submissions interleave with removals.",
 [I,S],"every sequence of priorities up to length 6 (and all interleavings of submissions with execution)",
 "Heap order errors show only for particular mixes; tests use three tasks per priority.",
 [DE],[("binary heap keyed by (priority, sequence number)",DE+": notification_queue")],
 [("heap","pending tasks",DE+": notification_queue::_q")],["start order of tasks"])
p("C14","Waiting inside pool tasks does not starve the pool",
 "While tasks of the default executor block in await for work that has already been submitted to it (nested up to the documented thread limit), the pool wakes or adds threads so that the awaited work runs and the waits complete. It never exceeds its thread limit, and every thread added this way still runs tasks once and is joined at pre-exit.",
 [S,CF],"all interleavings (within the preemption bound) of nested awaits on pools of one and two workers",
 "Whether the pool grows depends on momentary lock contention; tests on many-core machines never use up the workers.",
 [DE,AW],[("await wakes an idle worker or adds a thread before blocking",AW+": invoke_waiting; "+DE+": wake, add_thread")],
 [("threads","pool and expansion threads",DE+": priority_task_system::_threads")],["completion of awaits","deadlock"])
p("C15","A serial queue runs its tasks one at a time, in order, exactly once",
 "Tasks submitted to a serial queue (either scheduling mode, any underlying executor) run exactly once, never overlap, and run in submission order for each submitter and in happens-before order across submitters; effects of one are visible to the next. Tasks submitted from within its own tasks and after the queue object is destroyed or copied obey the same rule, and the queue never stalls with pending tasks.",
 [S,CF],"all interleavings of two submitters and an executor that may run drain steps on different threads, in both scheduling modes",
 "The hand-over between finishing the last task and a new submission is the racy window; tests only check totals.",
 [SQ],[("running flag and queue under one mutex; empty test and flag reset in one critical section",SQ+": serial_instance_t::enqueue, kickstart, all, single")],
 [("queue","pending tasks",SQ+": _queue"),("running flag","a drain is in progress",SQ+": _running")],["start/end events of tasks"])
p("C16","Timed tasks run once, not before they are due, and in due order",
 "A task scheduled with the timer or with a delayed/at executor is run exactly once and never before its due time; with one timer, tasks that are due in different order of submission run in order of due time, and a task with an earlier due time submitted while the timer is sleeping is not delayed by the later one. Tasks still pending when pre-exit happens are neither run early nor block shutdown.",
 [S,I],"all interleavings of one or two submitters with the timer thread under a virtual clock, all orders of up to three due times, all instants for shutdown",
 "Real-time tests cannot distinguish early by a little, and cannot place a submission exactly at the timer's wakeup.",
 [TI,EB,DC],[("heap by due time and timed wait re-evaluated after each wakeup",TI+": invoke, timed_queue_run; "+EB+": execute_at, execute_delayed")],
 [("timed queue","heap of due times",TI+": _timed_queue")],["start time and order of tasks"])
p("C17","Pre-exit handlers run exactly once, last registered first",
 "Calling pre_exit runs every handler registered before it exactly once in reverse order of registration; handlers registered by a running handler are run too, before the call returns. Handlers registered concurrently from several threads are neither lost nor repeated.",
 [S,H],"every registration/nesting pattern up to the bound, and all interleavings of two registering threads",
 "Tests register one handler; nesting and concurrent registration are not covered.",
 [PX,"include/stlab/pre_exit.hpp"],[("mutex-protected handler stack popped until empty",PX+": at_pre_exit, pre_exit")],
 [("handler stack","registered handlers",PX)],["order of handler calls"])
p("C18","The type-erased task keeps value semantics of what it holds",
 "A task created from any callable (small or large, inline or heap, empty or not, noexcept or not) calls exactly that callable with the given arguments and result; move construction, move assignment (also to itself), swap and reset transfer or destroy it exactly once (a moved-from task may be assigned to, swapped and destroyed); references are passed and returned as such; calling an empty task throws bad_function_call (an empty task is one made from nothing, nullptr, a null function pointer or an empty std::function of its signature), and bool, comparison with nullptr, target_type and target report truthfully. Sequences of these operations never leak, double-destroy or call a wrong or dead callable, also if the callable's constructor throws.",
 [H,I],"every operation sequence up to depth 4 over three task variables and callables of every storage class",
 "Tests try single operations; aliasing, reassignments over different storage classes and exception cases combine.",
 [TK],[("small-buffer storage with a table of move/destroy/invoke functions",TK+": task_")],
 (),["call results","live-object counts"])
# ---------------------------------------------------------------- channels
p("C19","Channels deliver every sent value once, in order, through every stage",
 "Every value sent into an open channel before it is closed is delivered exactly once to each attached process in the order one sender sent it (and in happens-before order across senders), through any chain of processes and executors; nothing is duplicated, lost or reordered. Values from concurrent senders are interleaved but each sender's own order is kept.",
 [S,PG],"all interleavings of one or two senders with processes run by executors that may run each step on another thread, chains up to length 3",
 "The hand-over between a process going idle and a new value arriving is the racy window; tests check sums after the fact.",
 [CH],[("per-process queue and running flag under one mutex; run/yield loop",CH+": shared_process enqueue, run, step, pop_from_queue")],
 [("process queue","values waiting",CH+": shared_process::_queue"),("running flag","a step is scheduled or active",CH+": _process_running")],["values received by each process"])
p("C20","A process is never run concurrently with itself",
 "All calls into one channel process (its await, yield, state and close operations, or its function) are mutually exclusive and each sees the effects of the previous, on whatever threads its executor runs them and however many senders, merges, timeouts or back-pressure releases poke it at once.",
 [S],"all interleavings of two senders, back-pressure release and close against one process, with an executor that runs each step on its own thread",
 "Two concurrent runs need the schedule-again decision to race with a wakeup; tests cannot see an overlap.",
 [CH],[("single running flag guarded by the process mutex",CH+": shared_process::run, step, task_done, clear_to_send")],
 [("running flag","a step is scheduled or active",CH+": _process_running")],["begin/end of process calls"])
p("C21","Splitting a channel broadcasts every value to every branch",
 "When several processes are attached to the same receiver, every value that passes it after they are attached reaches each of them exactly once and unmodified, in the same order; a branch that is dropped stops receiving without disturbing the others. Move-only values go to a single branch intact.",
 [S,PG],"all interleavings of values passing with two or three branches, one of them slow or dropped",
 "Copy/move of the last value and the bookkeeping of slow branches depend on order.",
 [CH],[("loop over downstream list with copies",CH+": downstream<T>::send, broadcast")],
 (),["values received per branch"])
p("C22","Merging channels combines inputs as specified",
 "zip_with calls its function with the n-th value of each input, in order; round robin (merge_channel<round_robin_t>) takes one value from each input in turn; unordered merge passes every value once in an order that keeps each input's own order. Nothing is lost, paired wrongly or duplicated, however the inputs are interleaved in time.",
 [S,I],"all arrival orders and interleavings of two or three inputs with up to three values each",
 "Tests send in one order from one thread.",
 [CH],[("per-input queues with strategy deciding when a step is ready",CH+": zip_with_queue_strategy, round_robin_queue_strategy, unordered_queue_strategy")],
 [("strategy queues","values waiting per input",CH)],["arguments of the merge function"])
p("C23","Closing and errors travel downstream after the values before them",
 "Closing a sender (explicitly or by destroying its last copy) is seen by each downstream process exactly once (its close operation, if it has one) and only after all values sent before it have been processed; a process that still owes output gives it before the close passes on. An exception thrown by a process reaches each process attached to it once, in its place among the values: through set_error if it has that operation, otherwise by closing it. A value sent after a close is ignored, and once everything upstream is closed the graph releases its processes.",
 [S,H],"all interleavings of sending, closing, copying and dropping senders and receivers with process steps, chains up to length 3",
 "When the close races with the last value being processed, tests see only the common order.",
 [CH],[("close flag handled when the queue is empty; errors queued among the values",CH+": shared_process dequeue, close_process, task_done, remove_sender")],
 (),["calls of close/set_error","values before it"])
p("C24","Back-pressure bounds queues and always releases",
 "A process with a buffer size of n never holds more than its buffer of unprocessed values because of an upstream process: the upstream process is suspended when the buffer is full and resumed when room is available, so with bounded buffers the whole chain both stays bounded and never stalls. A buffer size of 0 means no limit.",
 [S,CF],"all interleavings of a generator-like process and a slower consumer for buffer sizes 0, 1 and 2, one or two branches",
 "Whether a resume is lost or a suspend is counted twice depends on the race of consumer and producer.",
 [CH],[("the upstream process is suspended until there is room everywhere downstream; clear-to-send messages",CH+": broadcast, resume, clear_to_send, pop_from_queue")],
 [("suspended","the process waits for room downstream",CH+": _process_suspended, _process_cleared")],["items outstanding between producer and consumer","deadlock"])
p("C25","Processes follow the await/yield/state protocol, including timeouts",
 "A process object is given values by await only while it states that it awaits, and is asked to yield exactly when it states it has output: at once, or when the time it asked for is reached and not before (an await with a timeout is woken by a yield at that time, again and again as long as it states one). Each yielded value is passed on once; after its close operation its final yields are still taken. A timed process that receives a value before its time is not also woken for that time. (A process with an input starts with its first value or close, one without input when it is ready.)",
 [S,PG],"all interleavings of sends, timer expiries and steps for accumulators, generators and timed processes",
 "Tests use one generator and one accumulator in one order; timer against value races are not reachable.",
 [CH],[("step loops selected on process state; timeout hand-over with a cancellation token",CH+": shared_process::step, await_timeout, try_broadcast")],
 (),["sequence of calls made on the process"])
p("C26","A channel graph is inert until set_ready, and honours its annotations",
 "No process runs before every receiver of it has been set ready (or is gone), so no value reaches a process before every process on the way to it is ready; once they are, all values sent before and after flow. Executor and buffer-size annotations, in any order and combination that compiles, apply to exactly the process they annotate (a later one of the same kind replaces the earlier); a process without one runs on the executor of the process before it with a buffer of one.",
 [S,PG,CF],"all annotation combinations, and all interleavings of set_ready with a send and a drop",
 "The combinations are many and the mistakes silent (another executor is used); set_ready racing a send is not tested.",
 [CH],[("count of receivers that are not ready; annotation structs merged by operator&",CH+": set_ready, add_receiver/remove_receiver, annotated_process, annotations")],
 (),["executor on which a process ran","buffer behaviour"])
# ---------------------------------------------------------------- data structures
p("C27","forest operations produce the tree they describe",
 "After any sequence of insert, push, pop, erase (range or single), insert_parent, splice, reverse, copy, move, swap, assign and clear, a forest holds exactly the tree that the sequence describes: right nodes, parent/child/sibling order, size, emptiness; and iterators to untouched nodes remain valid and point to the same node. Copies are equal and independent.",
 [H,I],"every sequence of operations up to the depth bound from every small forest, with every choice of position",
 "Tests use a handful of fixed trees; errors hide in specific shapes (leaf at end, only child, root range, self position).",
 [FO],[("leading/trailing linked edges with set_next",FO+": forest<T>, node_base, set_next")],
 [("node links","leading/trailing next and prior",FO+": node_base::_nodes")],["full-order traversal","size"])
p("C28","forest traversals visit what they promise, forwards and backwards",
 "For every forest, full-order iteration visits each node once leading and once trailing in nesting order; preorder, postorder and child iteration visit each node (child) once in their order; edge, depth and filter iteration report edges, depths and the filtered subset truthfully; reverse iteration is the exact reverse and increment followed by decrement is the identity. find_parent, has_children, find_edge and child ranges agree with the structure.",
 [I],"every ordered forest with up to 6 nodes (7 in thorough) and every position in it",
 "Tests iterate over one fixed tree.",
 [FO],[("iterator adaptors over the full-order iterator",FO+": preorder_iterator, postorder_iterator, child_iterator, edge_iterator, depth_fullorder_iterator, filter_fullorder_iterator, reverse_fullorder_iterator")],
 (),["sequence of nodes"])
p("C29","Flatten, unflatten, transcribe and shape comparison are faithful",
 "flatten followed by unflatten reproduces a forest exactly, transcribe reproduces the (mapped, pruned) shape of its source range exactly, and equal_shape is true exactly for ranges of the same shape, for every forest and also into non-empty destinations at a given position.",
 [I],"every pair of ordered forests up to 5 nodes, every insertion position",
 "Tests use one forest.",
 [FA],[("traversal driven cursor",FA+": transcriber, flatten, unflatten, equal_shape")],
 (),["resulting forest"])
p("C30","Progress tracking counts every tracked task once",
 "A progress tracker's steps are the wrapped functions in existence: every wrap and every copy of a wrapped function adds one, moving adds none, destroying or assigning over one takes it away. Its completed count is the number of finished calls of them. Calling a wrapped function calls the function once with its arguments, gives its result, and calls the tracker's callback once afterwards with the totals. No count is lost or doubled on whatever threads this happens; a tracker may go before its functions.",
 [S,H],"every sequence of wrap, move, call and destroy up to the bound and all interleavings of two wrapped calls",
 "Tests wrap three functions and call them on one thread.",
 [PR],[("atomic totals and a move-only client object",PR+": progress_tracker, tracker_client")],
 [("totals","tracked and completed",PR)],["steps and completed counts"])
p("C31","In-place link and range algorithms permute without loss",
 "The reverse algorithms on forward, bidirectional and node-linked ranges reverse exactly the requested range (also up to a pivot from either end), return the stated positions, and leave everything outside unchanged; set_next relinks exactly one edge.",
 [I],"every range length up to 8 and every sub-range and pivot, for list, forward and link-based iterators",
 "Tests cover the bidirectional case on few lengths.",
 [RV,SN],[("pairwise swap / relinking",RV+": reverse, reverse_until, reverse_append")],
 (),["resulting sequence"])
p("C32","Tuple and functional helpers keep positions and values",
 "The tuple helpers (for_each, transform, void filtering, apply with ignored or optional positions, get by runtime index, find of a valid position) treat every position exactly once, in order, with its own value, and move-only and void placeholders are handled without loss; bound reference-unwrapping helpers and scope run the callable exactly once with the right arguments.",
 [I],"every tuple of up to four positions over {value, void placeholder, move-only} and every index and presence mask",
 "Template code is instantiated in the tests for a few shapes only.",
 [TU,"include/stlab/functional.hpp","include/stlab/scope.hpp","include/stlab/utility.hpp"],[("index-sequence pack expansions",TU)],
 (),["arguments seen"])
p("C33","Distinct handles are safe to use concurrently, and nothing leaks",
 "Different copies of futures, senders, receivers, serial queues and executors can be used, moved, reset and destroyed concurrently on different threads without data races, use of freed memory, double release, deadlock or leak; when all handles are gone and all tasks done, every object the library allocated has been released.",
 [S,H],"all interleavings of two threads doing up to three operations each on copies of one object",
 "Tests run without controlled schedules and without race detection; ownership errors show only in specific orders of last release.",
 [F,CH,SQ],[("shared states behind reference-counted pointers and mutexes",F+": shared_base; "+CH+": shared_process; "+SQ+": serial_instance_t")],
 (),["race detector","allocation ledger"])
p("C34","Exceptions from copying values and functions are reported and do no damage",
 "When a copy of a user's value or function throws, wherever the library makes it, the exception is never lost, never terminates the program and never leaves anything waiting for ever, leaking or broken: it leaves the call that made the copy (which then has no effect, save for nodes a range insertion had already copied), or it is the outcome of the future whose result needed the copy (then, recover, get, when_all, when_any, reductions), or it arrives as an error in a channel's process in the place of the value; other readers of the same future, later values of the same channel, the task being assigned to, the tracker and the forest keep their contents and go on working.",
 [FS,H,I],"every choice of up to two throwing copies in pipelines of futures, combinators and channels of up to three branches, and of one in forests of up to five nodes",
 "Which copies the library makes is not visible in its interface; tests use values whose copies never throw.",
 [F,CH,FO],[("copies made when continuations run",F+": attach_when_arg_, attach_tasks, package, value_"),("copies made when values are queued and sent",CH+": broadcast, downstream::send"),("copies of nodes",FO+": forest(const forest&), insert")],
 (),["fault injection at every copy"])
p("C35","Futures, tasks, senders and receivers are regular values",
 "Copying, moving, assigning, swapping, resetting and destroying handles never changes what any other handle refers to and keeps the books exactly: two handles compare equal exactly if they refer to the same future, channel or receiver (or to nothing); a moved-from, reset, closed or empty handle refers to nothing and using it is harmless (an empty or ready receiver refuses an attachment with the documented channel_error, a closed or empty sender ignores values); a packaged task is canceled exactly when no future refers to it and nothing is detached, and one that is abandoned or assigned over breaks its promise at once; a pending function is destroyed with the last future; a channel closes exactly when its last sender is gone, and starts exactly when its last unready receiver is ready or gone.",
 [H,I],"every sequence of up to seven operations (copy, move, self-assign, swap, assign new, reset, close, use) on three handles over two or more states, copyable, void and move-only",
 "Tests exercise a handful of hand-written sequences; reference counts go wrong only in particular ones.",
 [F,CH],[("future and packaged_task handles",F+": future, packaged_task"),("sender and receiver handles",CH+": sender, receiver"),("ready futures","include/stlab/concurrency/ready_future.hpp")],
 (),["every handle's observers after every operation"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sc=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sc)
print(len(P))
