#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that anchors stay readable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                        observe_at=list(observe),hook_needed=None))
    assert len(title)<=80,title
    assert statement.count('. ')<=2,id
    P.append(d)
I='include/librf/src/'
CH=[I+'channel_v2.h',I+'channel_v2.inl',I+'ring_queue.h',I+'intrusive_link_queue.h']
EV=[I+'event_v2.h',I+'event_v2.inl','source/event_v2.cpp',I+'intrusive_link_queue.h']
MX=[I+'mutex_v2.h',I+'mutex_v2.inl','source/mutex_v2.cpp',I+'without_deadlock_assemble.inl']
SC=[I+'scheduler.h','source/scheduler.cpp',I+'rf_task.h','source/rf_task.cpp']
ST=[I+'state.h',I+'state.inl','source/state.cpp',I+'promise.h',I+'promise.inl',I+'future.h']
TM=[I+'timer.h','source/timer.cpp']

p('C01','Channel: each value delivered exactly once, in order, unaltered',
  'Every value whose write into a channel_t takes effect is returned by exactly one read, unaltered, and no read ever returns a value that was not written or was already returned. Values leave the channel in the order in which their writes took effect, for every capacity (0 included), element type, wrap-around of the buffer and mix of coroutines and plain threads on several schedulers.',
  ['schedules','histories','inputs'],'all interleavings of reads and writes by coroutines on any number of schedulers/threads, all capacities, element types and channel lock variants, all history lengths',
  'test_async_channel* run a fixed producer/consumer shape under the OS scheduler and mostly print or sum; the interleavings, capacities and element types form an unbounded space.',
  CH,[('value hand-over to waiting reader / buffer refill from waiting writer','channel_impl_v2::try_read_nolock/try_write_nolock/awake_one_* in channel_v2.inl'),('ring buffer indices','ring_queue.h')],
  [('_values','buffered values','channel_v2.inl'),('_read_awakes/_write_awakes','suspended readers/writers','channel_v2.inl')],['channel_t::read/write/co_await'])
p('C02','Channel: blocks only when it must, never strands a reader or writer',
  'A channel_t of capacity n holds at most n values not yet read: a write completes if and only if there is room or a reader to take the value, otherwise it waits; a read completes if and only if a value is available, otherwise it waits. When space or a value becomes available for a waiting writer or reader, the longest-waiting one is served and its coroutine is resumed without any further operation on the channel.',
  ['schedules','histories','inputs'],'all interleavings, including a peer arriving between the readiness test and the suspension, and all capacities',
  'A stranded coroutine shows up only in a specific window between readiness test and enqueue; tests use one shape and cannot enumerate windows; bounded blocking is not asserted by any test.',
  CH,[('re-test under the lock before suspending','channel_t::read_awaiter/write_awaiter::await_suspend'),('wake-ups','channel_impl_v2::awake_one_reader_/awake_one_writer_')],
  [('_max_counter','capacity','channel_v2.inl')],['channel_t::read/write','scheduler quiescence'])
p('M01','Mutex: exclusive and recursive per root coroutine; only the owner unlocks',
  'At any moment at most one owner (a root coroutine together with everything it awaits, or one explicit address) holds a mutex_t. The owner may lock it again, also from a nested coroutine or after moving to another scheduler, and it becomes free only after the matching number of unlocks; an unlock by anyone else changes nothing.',
  ['schedules','histories','programs'],'all interleavings of lock/try_lock/timed lock/unlock by coroutine chains and by plain threads, all recursion depths',
  'test_async_mutex exercises a few chains whose critical sections only print; exclusion is a claim about every interleaving.',
  MX,[('owner and recursion counter','mutex_v2_impl::try_lock_lockless/unlock'),('owner identity is the root state','mutex_t::lock_awaiter::await_suspend2')],
  [('_owner,_counter','current owner and recursion depth','mutex_v2.inl')],['mutex_t lock/try_lock/unlock results','is_locked'])
p('M02','Mutex: release hands over to the longest live waiter; none is stranded',
  'When the owner releases a mutex_t with coroutines waiting, ownership passes to the longest-waiting one that has not timed out and that coroutine is resumed holding the lock; with nobody waiting the mutex becomes free. No coroutine stays suspended on a mutex that is free.',
  ['schedules','histories'],'all interleavings of enqueue, release and time-out',
  'Lost wake-ups and skipped waiters need a release to hit a specific window; tests cannot enumerate windows and check no order.',
  MX,[('hand-off loop','mutex_v2_impl::unlock'),('enqueue under the lock','lock_awaiter::await_suspend2')],
  [('_wait_awakes','waiters in arrival order','mutex_v2.inl')],['mutex_t::lock','scheduler quiescence'])
p('M03','Mutex: try and timed locks report exactly whether the lock is held',
  'try_lock never waits and succeeds exactly when the mutex is free or already owned by the caller. A timed lock reports true exactly when the caller holds the lock and false only once its deadline has passed without acquiring, after which it never acquires later, and a time-out does not disturb the other waiters.',
  ['schedules','histories','inputs'],'all interleavings of releases with deadlines, all deadlines including already expired ones',
  'No existing test uses timed mutex locks with contention at the deadline.',
  MX,[('single winner between notify and time-out','state_mutex_t::on_notify/on_timeout'),('spin with deadline for addresses','mutex_v2_impl::try_lock_until')],
  [('state_mutex_t::_value','who claims the waiter','source/mutex_v2.cpp')],['try_lock/try_lock_for/try_lock_until results'])
p('M04','Locking several mutexes: all or nothing, deadlock free, released once',
  'mutex_t::lock(m1,...,mn) completes holding every listed mutex and, while it is not complete, keeps retrying without deadlocking against any other multi-lock or single lock, whatever the orders of the arguments. Its guard (or the matching multi-unlock) releases each of them exactly once, also when the guard is moved or unlocked early.',
  ['schedules','histories','inputs'],'all argument orders, numbers of mutexes and interleavings of competing multi-locks',
  'Tests run one arrangement of a few mutexes; a deadlock needs particular orders and interleavings.',
  MX+[I+'spinlock.h'],[('try-and-back-off','without_deadlock_assemble.inl'),('guard','batch_unlock_t')],(),['mutex_t::lock(...) completion','batch_unlock_t'])
p('E01','Event: one signal releases exactly one wait, and is not lost',
  'Each event_t::signal() either releases exactly one wait that is pending, the longest-waiting one, or is remembered and satisfies exactly one later wait; a wait is never released without a signal of its own. reset() discards remembered signals and nothing else; an event created signaled starts with exactly one remembered signal.',
  ['schedules','histories','inputs'],'all interleavings of signal/reset/wait from coroutines and threads, all counts',
  'test_async_event* use one signaller and a few waiters with sleeps in between; counts under concurrency are never compared.',
  EV,[('pop-and-claim or count','event_v2_impl::signal/try_wait_one'),('claim by CAS','state_event_t::on_notify')],
  [('_counter','remembered signals','event_v2.inl'),('_wait_awakes','waiters','event_v2.inl')],['event_t::wait/co_await','scheduler quiescence'])
p('E02','Event: signal_all releases exactly the waits pending at that moment',
  'event_t::signal_all() releases every wait pending at that moment and remembers nothing for later waits, and every released coroutine is resumed exactly once. It leaves remembered signals unchanged.',
  ['schedules','histories'],'all interleavings of signal_all with waits arriving, timing out and being signalled',
  'Needs waits arriving concurrently with signal_all; tests only use it with all waiters parked long before.',
  EV,[('drain the waiter list under the lock','event_v2_impl::signal_all')],(),['event_t::wait results'])
p('E03','Event: timed waits return true iff signalled, false only after the deadline',
  'A timed wait returns true exactly when it consumed a signal or was released by signal_all, and otherwise returns false, never before its deadline and without needing any further signal; it never both times out and swallows a signal. Deadlines already in the past are honoured without losing an available signal.',
  ['schedules','histories','inputs'],'all interleavings of signals with deadlines, all durations including zero and negative',
  'test_async_event_timeout uses generous margins so that signal and deadline never collide.',
  EV+TM,[('single winner between notify and time-out','state_event_t::on_notify/on_timeout'),('timer','state_event_base_t::add_timeout_timer')],(),['event_t::wait_for/wait_until results'])
p('E04','Event: wait_all completes exactly when every event has supplied a signal',
  'event_t::wait_all over distinct events completes with true exactly once one signal of every event in the set has been supplied to it, consuming exactly one of each; over an empty set it completes immediately. Its timed form returns false only after the deadline when some event had not supplied its signal, and afterwards takes no further signals; concurrent wait_alls, signals and time-outs over overlapping sets never deadlock.',
  ['schedules','histories','inputs'],'all sets, orders, overlaps and interleavings with signals and deadlines',
  'Tests use one wait_all at a time with a sequential signaller.',
  EV+[I+'spinlock.h'],[('batch lock of all events','event_t::all_awaiter::await_suspend2'),('counting sub-waits','state_event_all_t::on_notify/on_timeout')],
  [('_counter','events still missing','event_v2.inl')],['event_t::wait_all/wait_all_for results'])
p('T01','Timer: each callback runs exactly once, not early, in deadline order',
  'Every timer added to a scheduler has its callback invoked exactly once: with false at the first update at or after its deadline, or with true if it was stopped before firing or the timers were cleared. No callback runs with false before its deadline, callbacks run by one update go in deadline order, and stop reports true exactly when it prevented the callback from running with false.',
  ['histories','inputs','schedules'],'all sequences of add/stop/clear/update at any times, from inside callbacks too, any number of timers, additions from other threads',
  'test_async_timer adds two timers; order, counts and re-entrancy over arbitrary histories are not covered.',
  TM,[('ordered multimap and pending list','timer_manager::update'),('state flag of a timer','timer_manager::stop/clear')],
  [('_added_timers,_runing_timers','pending and armed timers','timer.h')],['timer callbacks','timer_handler::stop/expired','timer_manager::empty'])
p('T02','Sleep: never ends early, always ends, and reports cancellation',
  'A coroutine that sleeps for a duration or until a time point (by any spelling) resumes exactly once, never before that time and at the first scheduler update at or after it, on the scheduler whose timer it used. If the pending timers are cancelled instead, the sleep ends with canceled_exception, whether or not it had been awaited yet.',
  ['histories','inputs','schedules'],'all sets of concurrent sleepers, durations (zero and negative included) and cancellation points',
  'test_async_sleep has a few sleepers with generous margins on the real clock.',
  TM+[I+'sleep.h','source/sleep.cpp'],[('awaitable completed by timer','sleep_until_'),('cancellation','timer callback argument')],(),['sleep_for/sleep_until/co_await duration'])
p('S01','Scheduler: each ready coroutine is resumed exactly once, on its own thread',
  'Whenever a coroutine becomes ready it is resumed exactly once by the scheduler it belongs to, in the thread that runs that scheduler, also when it is made ready by another thread at any moment. A coroutine never runs in two threads at a time, is never resumed while running or after finishing, and none that is ready is forgotten.',
  ['schedules','programs'],'all programs of tasks, nested awaits and cross-thread wake-ups, all interleavings with the scheduler loop',
  'Tests observe end results of a few programs; a doubled or dropped resumption needs a particular interleaving with the batch swap.',
  SC+ST,[('ready queue under lock, swapped per batch','scheduler_t::add_generator/run_one_batch'),('one-shot handle','state_future_t::resume')],
  [('_runing_states,_cached_states','ready queue','scheduler.h')],['per-coroutine running marks'])
p('S02','Scheduler: ready coroutines run first-come-first-served; yield is fair',
  'Coroutines of one scheduler are resumed in the order in which they became ready, so a coroutine that yields runs again only after every coroutine that was ready before it, and is always resumed again. One batch resumes exactly the coroutines that were ready when it began.',
  ['programs','histories'],'all mixes of yielding, waiting and new tasks, any number of tasks',
  'No test checks resumption order.',
  SC+[I+'yield.h'],[('FIFO vector per batch','scheduler_t::run_one_batch'),('yield re-queues','yield_awaitor')],(),['order of resumptions'])
p('S03','Scheduler: runs until, and only until, all its work is done',
  'run_until_notask returns only when every task started on the scheduler, from any thread, before it returned has finished and no timer is pending, and does return once that is so; empty() tells the same. A started coroutine, callable or future always runs to completion even if it was already complete, failed, or completed by another thread while being started.',
  ['schedules','programs'],'all programs (tasks starting tasks, failing tasks, timers, cross-thread starts) and interleavings',
  'Tests only show that the loop ended for a few programs; premature or missing termination depends on interleaving with task removal.',
  SC+ST,[('task dictionary','scheduler_t::new_task/del_final'),('loop condition','scheduler_t::run_until_notask')],
  [('_ready_task','unfinished tasks','scheduler.h')],['run_until_notask return','scheduler_t::empty'])
p('S04','via moves the coroutine chain to the target scheduler, exactly once',
  'After co_await via(s) the coroutine continues exactly once, in the thread that runs s, and everything it awaits from then on, its callers when it returns to them, and its task belong to s as well. via to the current scheduler continues immediately without changing anything; no step of the chain is lost, doubled or run in the old thread after the switch.',
  ['schedules','programs'],'all nestings, sequences of switches (back and forth included) and interleavings of the two schedulers',
  'test_async_switch_scheduler does a fixed ping-pong on one chain.',
  [I+'switch_scheduler.h']+ST+SC,[('move scheduler and task up the parent chain','state_future_t::switch_scheduler_await_suspend'),('re-queue on target','switch_scheduler_awaitor::await_suspend')],(),['thread and scheduler seen by each coroutine step'])
p('S05','Current scheduler, root and task queries tell the truth',
  'Inside any coroutine, at any nesting depth and after any switches, the current-scheduler query returns the scheduler that is running it, the root query returns one identity per task shared by all coroutines of its await chain and distinct between tasks, and the current-task query returns the task that was started for that root. this_scheduler() in a thread returns the scheduler bound to that thread, the first one bound winning until it is released, else the global one.',
  ['programs','histories'],'all nestings, switches, and constructions/destructions of local schedulers',
  'Tests use these queries only as plumbing.',
  [I+'current_scheduler.h','source/scheduler.cpp']+ST,[('parent chain','state_base_t::get_root/get_scheduler'),('thread binding','local_scheduler_t')],(),['librf_current_scheduler/root_state/current_task','this_scheduler'])
p('S06','Stopping a scheduler reaches every task and cancels every timer',
  'request_stop_all_if_possible requests stop on every unfinished task of that scheduler that has a stop source and cancels all pending timers, each exactly once, so that sleeping coroutines end with canceled_exception. Tasks without a stop source and other schedulers are not affected, stop callbacks may use the scheduler, and the scheduler stays usable.',
  ['programs','histories','schedules'],'all task populations and stop points, callbacks that use the scheduler',
  'Only test_async_stop_token touches it, with one task.',
  SC+TM+[I+'stop_token.h'],[('walk of the task dictionary','scheduler_t::request_stop_all_if_possible')],(),['stop callbacks','sleep results'])
p('F01','A promised value reaches the awaiting coroutine exactly once',
  'A coroutine awaiting a future (of an awaitable_t, at any time relative to its completion by any thread, or of a coroutine) is resumed exactly once after completion and obtains exactly the value supplied, for every value type including void, references, move-only and large types. It is never resumed before completion and never misses it.',
  ['schedules','inputs','programs'],'all interleavings of completion with the await, all value types and nesting depths',
  'test_async_cb completes from a detached thread after a delay, never in the window between readiness test and suspension.',
  ST+[I+'awaitable.h'],[('value published under lock, re-test on suspend','state_t::set_value / state_future_t::future_await_suspend')],
  [('_has_value','completion state','state.h')],['co_await results'])
p('F02','Exceptions travel along the await chain to the nearest handler',
  'An exception leaving a coroutine, or put into an awaitable_t, is rethrown unchanged (same type and content) at the await of that future, exactly once, whether it was set before, during or after the await, and for every value type; the frames in between are unwound. A handler that catches it lets the chain continue normally, and an exception that no coroutine of a task handles ends that task without disturbing any other.',
  ['programs','schedules','inputs'],'all nesting depths, throw points, value types and interleavings with awaiting',
  'test_async_exception has a handful of sequential throws of one type.',
  ST+[I+'awaitable.h'],[('stored exception_ptr','state_t::set_exception/future_await_resume'),('capture','promise_impl_t::unhandled_exception')],(),['catch sites'])
p('F03','Coroutine frames, results and callables are destroyed once, never in use',
  'Everything that a coroutine which runs to its end owns (parameters, locals, temporaries, results, the callable it was started from) is destroyed exactly once, after its last use and no later than when the task and all handles to it are gone; such a destructor may itself use the scheduler. No librf operation touches an object after it was destroyed, whatever the order in which futures, awaitables, events, mutexes, channels, timers and waiters go away.',
  ['programs','schedules','histories'],'all programs, drop orders and interleavings',
  'test_memory_leak never ends and is not run; destruction order and use-after-free are invisible to the other tests.',
  ST+SC+EV+MX+[I+'counted_ptr.h'],[('intrusive counting','counted_ptr / state_base_t::lock/unlock'),('frame destruction at final suspend','state_future_t::promise_final_suspend/resume')],
  [('_count','references to a state','state.h')],['object birth/death/use marks','heap shadow'])
p('W01','when_all completes when all are done, with every result in its place',
  'when_all over any number of tasks, callables or futures (none included), as arguments or as a range, on this or another scheduler, resumes its awaiter exactly once, after all of them have completed and without further help. Each result is delivered at the position of its task.',
  ['schedules','programs','inputs'],'all completion orders, counts, argument forms and interleavings with the awaiter suspending',
  'test_async_when_all is compiled out here; nothing runs when_all at all.',
  [I+'when_v2.h','source/when_v2.cpp'],[('countdown','state_when_t::on_notify_one'),('result slots','when_all_connector_1/2')],
  [('_counter','tasks still running','when_v2.h')],['when_all result'])
p('W02','when_any reports the first completion once; the others still finish',
  'when_any resumes its awaiter exactly once, as soon as one of its tasks has completed, and reports the index and the result of a task that completed first, the two belonging together. Later completions neither change the report nor resume the awaiter again, and those tasks still run to completion; over nothing it completes immediately with index -1.',
  ['schedules','programs','inputs'],'all completion orders and interleavings, ties across threads',
  'No running test uses when_any.',
  [I+'when_v2.h','source/when_v2.cpp'],[('first index by CAS','when_any_connector')],(),['when_any result'])
p('K01','Stop request wins once; each callback runs exactly once or never',
  'Of all request_stop calls on one stop state, exactly one returns true; every callback registered and not deregistered before that request runs exactly once, and one registered afterwards runs immediately in its constructor. Once the destructor of a stop_callback has returned, its callback is not running (unless it destroys itself) and will never run.',
  ['schedules','histories'],'all interleavings of request, registration and deregistration, including from inside callbacks',
  'test_async_stop_token requests stop once with one callback.',
  [I+'stop_token.h'],[('stop bit and list lock','stop_state::request_stop/try_add_callback/remove_callback')],
  [('state_','flags and counts','stop_token.h')],['request_stop results','callback invocations'])
p('K02','Stop state is shared faithfully by sources and tokens and freed last',
  'stop_requested and stop_possible of any token or source reflect the shared stop state: requested once any associated source requested, possible while requested or while a source remains. Copying, moving, assigning, swapping and destroying sources, tokens and callbacks in any order keep the shared state alive exactly as long as any of them refers to it.',
  ['histories','schedules'],'all orders of copies, moves and destructions of sources, tokens and callbacks, in any threads',
  'Tests never drop sources before tokens or callbacks, or in different orders.',
  [I+'stop_token.h'],[('two reference counts in one word','stop_state::add/remove_*_reference')],(),['stop_requested/stop_possible','heap shadow'])
p('G01','Generators produce exactly their yielded sequence, lazily and in order',
  'Iterating a generator_t gives exactly the values its body yields, in order, then (if it has yielded at all) the value it returns, and then ends, for good; the body runs only as far as needed, and destroying or moving the generator at any point destroys its frame exactly once. A generator started as a task advances one yield per batch until it finishes and is then removed.',
  ['programs','inputs'],'all bodies (none, one, many yields), partial iterations, moves, and interleavings with other tasks',
  'test_async_yield_return prints a few sequences.',
  [I+'generator.h','source/state.cpp'],[('iterator resumption','generator_iterator/begin'),('task stepping','state_generator_t::resume')],(),['iteration values','steps per batch'])
p('L01','Spin locks and batch locks exclude, release and never deadlock',
  'A spinlock admits one holder at a time, try_lock succeeds exactly when it is free, and a released lock can always be taken again. A batch lock over several spin locks returns holding all of them, in whatever order different threads list them and without deadlock, and its destruction or unlock releases each exactly once.',
  ['schedules','inputs'],'all interleavings and list orders',
  'Only used indirectly by the tests, in uncontended or statistical fashion.',
  [I+'spinlock.h',I+'without_deadlock_assemble.inl'],[('CAS acquire','spinlock::lock/try_lock'),('try-and-back-off','scoped_lock_range_lock_impl')],(),['critical-section marks'])
p('A01','asio token: each operation completes its future exactly once, with its result',
  'An asynchronous operation started with asio::rf_task hands out a future that its handler completes whenever and in whatever thread it is invoked, be it during initiation, before or after the await: the awaiting coroutine then resumes exactly once, on its own scheduler, and not before the handler was invoked. It gets the values the handler was given, unaltered (several as a tuple), or asio::system_error with the error_code if that is set, or the very exception of a non-null exception_ptr; copies and drops of the handler free the shared state exactly once.',
  ['schedules','inputs'],'all handler signatures (none, error_code or exception_ptr; any number of values, also move-only), all moments and threads of the invocation',
  'No test of the suite includes the asio integration at all.',
  ['asio/asio_task_1.12.2.inl','asio/asio_task.h','include/librf/src/state.inl'],[('handler sets the state','asio::librf::promise_handler::operator()'),('future from the handler state','async_result<rf_task_t,...>::initiate')],(),['co_await of the operation'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
