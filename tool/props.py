#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing: python3 tool/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = 'include/boost/cobalt/'
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()), why=' '.join(why.split()),
                      files=[f if f.startswith(('src/', 'include/')) else INC + f for f in files], mech=mech, technique=technique, note=note, na=na, state=state))


S, I, PRG, H, F, C = 'schedules', 'inputs', 'programs', 'histories', 'fault_sequences', 'configurations'
AI = 'path-sensitive abstract interpretation of the clang AST'

prop('P01', 'The outcome of a promise, task or generator reaches its awaiter',
     '''The value returned or the exception thrown by a promise or task is exactly what awaiting it yields, in every form of awaiting, and is
     delivered at most once. An exception leaving a generator reaches its consumer. A coroutine that is destroyed or ends without producing
     an outcome is reported to its awaiter as an error rather than as an empty value.''',
     [H, PRG], 'every body, every way of ending it (return, throw, destruction of the frame), every awaiting form, awaited before or after completion',
     'tests sample a handful of bodies; the combination of end, moment of awaiting and form of awaiting is a product of histories',
     ['detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp', 'promise.hpp', 'task.hpp', 'src/detail/exception.cpp'],
     [('return_value/unhandled_exception store into the receiver', 'detail/promise.hpp, detail/task.hpp, detail/generator.hpp'),
      ('get_result / await_resume hand the outcome over', 'detail/promise.hpp, detail/task.hpp')])
prop('P02', 'A waiting coroutine is resumed exactly once when what it awaits completes',
     '''A coroutine that awaits a promise, task or generator is resumed when that coroutine produces its outcome, exactly once, and is never
     destroyed, skipped or resumed by the awaited coroutine before that. The frame of a finished coroutine is destroyed exactly once.''',
     [S, H], 'every order of start, suspension, completion and await',
     'a lost or doubled resumption shows only for particular interleavings of completion and await',
     ['detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp'],
     [('final_awaitable transfers control to the registered awaiter', 'detail/promise.hpp, detail/task.hpp, detail/generator.hpp'),
      ('await_suspend registers the awaiter', 'detail/promise.hpp, detail/task.hpp, detail/generator.hpp')])
prop('P03', 'Awaiting a finished coroutine does not suspend; a second await is refused',
     '''Awaiting a promise or task whose outcome is already there continues immediately with it. A promise or generator that already has an
     awaiting coroutine refuses a further one with an error to the newcomer and leaves the registered one waiting. Observers (ready, done, truth value)
     tell whether there is something to take.''',
     [H, S], 'every history of completion, await and observation of one coroutine object',
     'tests observe few of the states a handle can be in',
     ['detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp', 'promise.hpp', 'task.hpp', 'generator.hpp'],
     [('await_ready / await_suspend / ready / operator bool', 'detail/promise.hpp, detail/task.hpp, detail/generator.hpp, promise.hpp')])
prop('P04', 'Moving a coroutine handle keeps the coroutine connected',
     '''After a promise, task or generator object is move-constructed or move-assigned, the running coroutine delivers to the new object, the moved-from
     object holds nothing and refuses to be awaited, and state already delivered (value, exception, waiting coroutine) moves along.
     A coroutine that was replaced by the assignment is detached or destroyed, never left pointing at the object.''',
     [H, PRG], 'every sequence of moves at every stage of the coroutine (running, finished, awaited, detached)',
     'moves are only tested in one stage; a dangling back pointer is silent until the coroutine finishes',
     ['detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp', 'promise.hpp', 'task.hpp', 'generator.hpp'],
     [('receiver move constructor / assignment relink the promise', 'detail/promise.hpp, detail/task.hpp, detail/generator.hpp')])
prop('P05', 'Dropping a handle cancels, destroys or detaches the coroutine, never leaks it',
     '''Destroying an attached promise or generator cancels its coroutine and lets it run on detached; an unstarted task is destroyed; a detached coroutine
     never touches the destroyed handle. Whichever of coroutine frame and handle dies first, the other is told.''',
     [H, S], 'every order of handle destruction, cancellation, completion and frame destruction',
     'the failure is a dangling pointer or a leak that only sanitizers on the right history would show',
     ['detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp', 'promise.hpp', 'task.hpp', 'generator.hpp'],
     [('handle and receiver destructors, promise destructors', 'promise.hpp, generator.hpp, detail/promise.hpp, detail/task.hpp, detail/generator.hpp')])
prop('P06', 'No cancellation handler outlives the operation it was installed for',
     '''Every awaitable that installs a handler into the cancellation slot of the awaiting coroutine removes it before the await completes, on every path
     and in every form of awaiting, so that a later cancellation never reaches a finished operation.''',
     [S, H], 'every awaitable of the library, every completion path, every later cancellation',
     'the stale handler only matters when cancellation arrives after completion while the coroutine waits on something else',
     ['detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp', 'detail/gather.hpp', 'detail/join.hpp', 'detail/race.hpp', 'detail/wait_group.hpp',
      'impl/channel.hpp', 'op.hpp', 'detail/thread.hpp', 'composition.hpp', 'src/channel.cpp', 'src/thread.cpp'],
     [('slot clearing in await_resume', 'the awaitables of promise, task, generator, channel, thread, gather, join, race'),
      ('completion_handler installed slots', 'op.hpp, detail/handler.hpp')])
prop('P07', 'Cancelling a coroutine reaches the operation it waits for, with its type',
     '''A cancellation signalled to a coroutine (by its handle, by dropping it, or by its own awaiter being cancelled) is delivered to the operation the
     coroutine currently waits for, with the requested cancellation type unchanged, through any depth of promises, tasks, generators, threads, wait groups
     and combinators. An operation whose awaiter is cancelled before it starts is not left without a handler.''',
     [S, PRG], 'every nesting of awaitables, every cancellation type, every moment',
     'tests send one or two types at one nesting level',
     ['detail/forward_cancellation.hpp', 'detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp', 'detail/gather.hpp', 'detail/join.hpp',
      'detail/race.hpp', 'detail/wait_group.hpp', 'detail/thread.hpp', 'src/thread.cpp', 'this_coro.hpp', 'src/channel.cpp', 'detail/handler.hpp'],
     [('forward_cancellation / forward_dispatch_cancellation', 'detail/forward_cancellation.hpp'), ('await_suspend installs forwarding', 'all awaitables')])
prop('P08', 'A generator exchanges every value exactly once and in order',
     '''Each value yielded by a generator is taken by the consumer exactly once, unchanged and in order, each value the consumer pushes is what the pending
     yield evaluates to, and the generator runs only when the consumer asked for a value (or started eagerly). A finished generator reports its end and is never resumed again.''',
     [H, S], 'every alternation of consumer and generator, eager or lazy, with or without pushed values, with cancellation in between',
     'loss or duplication needs a particular alternation; tests run fixed ones',
     ['generator.hpp', 'detail/generator.hpp', 'async_for.hpp'],
     [('receiver get_result / yield_awaitable / awaitable', 'detail/generator.hpp')])
prop('P09', 'A channel hands each value to exactly one reader',
     '''Every value written to a channel is received by exactly one reader, unchanged: never lost, duplicated or overwritten, and buffered values leave in the order
     they entered and stay within the capacity. A reader that resumes without error has a value, and a suspended writer resumes without error only after its value was taken or buffered.''',
     [S, H], 'every interleaving of readers, writers, wake-ups and cancellations, every capacity including zero',
     'hand-off goes through four queues; a test covers a few interleavings',
     ['channel.hpp', 'impl/channel.hpp', 'src/channel.cpp'],
     [('read_op/write_op await_ready, await_suspend, await_resume', 'impl/channel.hpp, src/channel.cpp')])
prop('P10', 'Closing, cancelling or destroying a channel wakes every waiter with an error',
     '''After a channel is closed every suspended reader and writer is resumed with an error, none is left linked in the queues, and new operations that cannot be served fail immediately.
     Cancelling one waiting operation resumes exactly that one with an error and unlinks it. Destroying a channel unlinks all of its operations.''',
     [S, H], 'every set of waiting operations, every order of closing, cancelling and destroying',
     'needs waiters in each queue at the moment of closing',
     ['channel.hpp', 'impl/channel.hpp', 'src/channel.cpp'],
     [('channel::close, channel destructor, cancel_impl', 'impl/channel.hpp, src/channel.cpp')])
prop('P11', 'gather completes after all of its members and keeps every outcome in place',
     '''gather resumes its awaiter exactly when the last of the awaited operations has finished, whatever failed, and yields for each operation, at its position,
     its value or its exception. Cancelling it cancels every member that is still running.''',
     [S, I], 'every number of members including none, every order of completion, every subset failing or ready at once',
     'completion orders and failing subsets grow exponentially',
     ['gather.hpp', 'detail/gather.hpp', 'detail/fork.hpp'],
     [('gather awaitables', 'detail/gather.hpp'), ('fork use count', 'detail/fork.hpp')])
prop('P12', 'join waits for all members, cancels the rest on the first error and reports it',
     '''join resumes its awaiter only after every started member finished, yields the values in position, and on a failure reports the first one and
     cancels the members still running.''',
     [S, I], 'every number of members including none, every order of completion, every failing subset',
     'completion orders and failing subsets grow exponentially',
     ['join.hpp', 'detail/join.hpp', 'detail/fork.hpp'],
     [('join awaitables', 'detail/join.hpp')])
prop('P13', 'race yields the first outcome, cancels the losers and waits for them',
     '''race yields the index and outcome of the first member that completes, cancels all others exactly once, and resumes its awaiter only once every started member has ended,
     so that no loser outlives the race. Later outcomes never replace the first.''',
     [S, I], 'every number of members, every order of completion, ready members, interruptible members',
     'completion orders grow exponentially',
     ['race.hpp', 'detail/race.hpp', 'detail/fork.hpp'],
     [('race awaitables, interrupt', 'detail/race.hpp')])
prop('P14', 'A wait group tracks every pushed promise',
     '''A wait group holds each promise pushed into it until it was waited for: wait() completes after all of them, wait_one() after one of them which is then removed,
     and cancelling the group cancels each of them. Leaving it through `with` cancels the pending promises
     with the cancellation type chosen for that kind of exit, unless that is `none`, and awaits them. reap() removes completed promises only.''',
     [S, H], 'every set of pushed promises, every order of completion',
     'orders of completion',
     ['wait_group.hpp', 'detail/wait_group.hpp'],
     [('wait_group operations and wrappers', 'wait_group.hpp, detail/wait_group.hpp')])
prop('P15', 'with always runs the teardown, exactly once, with the exception of the body',
     '''For every way the body of with ends (normally, by exception, by cancellation) the teardown is run and awaited exactly once, after the body, before the resource is destroyed, and receives
     the exception of the body; the value or the exception of the body is what with yields; an exception of the teardown only when the body succeeded.''',
     [F, PRG], 'every body, synchronous or asynchronous, void or value, every teardown form, every failure of either',
     'tests exercise a few combinations of body, teardown and failure',
     ['with.hpp', 'detail/with.hpp'],
     [('with overloads and their coroutine promise', 'with.hpp, detail/with.hpp')])
prop('P16', 'Awaiting an asynchronous operation delivers its completion exactly once',
     '''Awaiting an operation starts it exactly once, resumes the awaiting coroutine exactly once when the operation completes, and yields the completion arguments unchanged in
     the throwing, result and tuple forms. A completion handler dropped without being invoked destroys the awaiting coroutine rather than leaking it, and an exception of the initiation reaches the awaiter.''',
     [S, H], 'every operation, completion inline, posted or never',
     'needs operations that complete at unusual moments',
     ['op.hpp', 'detail/handler.hpp', 'result.hpp'],
     [('completion_handler, op::awaitable', 'detail/handler.hpp, op.hpp')])
prop('P17', 'An operation that completes while being started resumes safely',
     '''When an operation completes immediately or from within its initiation (through its handler or the handler's immediate executor) the awaiting coroutine is resumed exactly once and never
     from inside its own suspension: an immediate completion is detected after initiation, and any other one resumes the coroutine when it is delivered. The immediate executor runs functions in place only during the initiation.''',
     [S], 'every moment of completion relative to initiation',
     'depends on timing inside the initiation',
     ['detail/handler.hpp', 'op.hpp', 'io/ops.hpp', 'composition.hpp'],
     [('completed_immediately state machine', 'detail/handler.hpp, op.hpp, io/ops.hpp')])
prop('P18', 'A cobalt thread publishes its end once and never races with its owner',
     '''The owner of a thread that awaits it is resumed exactly once with the outcome of the thread function, whether the thread finishes before, during or after the await.
     State shared between the two threads is accessed only under its lock or atomically, and cancelling or joining works at any moment.''',
     [S], 'every interleaving of the two threads',
     'data races and lost wake-ups need particular interleavings',
     ['thread.hpp', 'detail/thread.hpp', 'src/thread.cpp'],
     [('thread_state, thread_awaitable, run_thread', 'detail/thread.hpp, src/thread.cpp')])
prop('P19', 'run and main drive the event loop and restore what they replaced',
     '''Running a coroutine through run or main installs the executor and memory resource of this thread for exactly the time of the run, restores them on every exit, drives the event loop until
     the coroutine is finished, and yields its value or exception. A termination signal cancels the main coroutine.''',
     [F, H], 'every ending of the coroutine, nested and repeated runs',
     'restoration on the failing paths is not exercised',
     ['run.hpp', 'detail/main.hpp', 'main.hpp', 'src/main.cpp', 'src/this_thread.cpp'],
     [('run, detail::main_promise', 'run.hpp, detail/main.hpp, src/main.cpp')])
prop('P20', 'spawn delivers the outcome of the task to the handler exactly once',
     '''A spawned task runs on the given executor and its completion token receives its value or exception exactly once, after the task finished, on the handler's executor and
     with the cancellation of the handler forwarded to the task.''',
     [S, PRG], 'every task, result type, token, executor',
     'orders of completion and dispatch',
     ['spawn.hpp', 'detail/spawn.hpp'],
     [('async_initiate_spawn', 'detail/spawn.hpp')])
prop('P21', 'Coroutine and handler memory returns to where it came from, with its size',
     '''Memory for a coroutine frame or handler is released to the resource or allocator it was obtained from, with the size and alignment it was requested with; no two live
     blocks overlap; and a failing allocation leaves nothing behind.''',
     [H, I], 'every size, every order of allocation and release',
     'mismatched sizes are invisible to most resources',
     ['this_coro.hpp', 'detail/sbo_resource.hpp', 'detail/monotonic_resource.hpp', 'detail/wrapper.hpp', 'detail/spawn.hpp', 'op.hpp', 'detail/main.hpp'],
     [('promise_memory_resource_base, sbo_resource, monotonic_resource', 'this_coro.hpp, detail/sbo_resource.hpp, detail/monotonic_resource.hpp')])
prop('P22', 'A cancelled coroutine stops at its next suspension unless told otherwise',
     '''Once a coroutine was cancelled and throwing on cancellation is enabled, its next await throws the cancellation error before suspending; disabling it, querying the state and resetting the
     state behave as requested, and only permitted cancellation types are let through.''',
     [H, S], 'every sequence of cancellations, resets and awaits',
     'sequences of state changes',
     ['this_coro.hpp', 'detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp'],
     [('promise_throw_if_cancelled_base, promise_cancellation_base', 'this_coro.hpp')])
prop('P23', 'as_result and as_tuple report the same outcome as a plain await',
     '''For every awaitable the non-throwing forms of awaiting yield the value a plain await would return, and carry an error exactly when a plain await would throw, with the same error.
     They never throw for an error of the operation and never read a value that is not there.''',
     [I, F], 'every awaitable, every outcome',
     'outcomes times forms times awaitables is not sampled',
     ['result.hpp', 'op.hpp', 'detail/promise.hpp', 'detail/task.hpp', 'detail/gather.hpp', 'detail/join.hpp', 'detail/race.hpp', 'detail/thread.hpp', 'impl/channel.hpp', 'src/channel.cpp', 'src/thread.cpp'],
     [('await_resume overloads for as_result_tag and as_tuple_tag', 'all awaitables')])
prop('P24', 'No error of an I/O operation is dropped',
     '''Every synchronous I/O function reports the error of each system or library call it makes to its caller, and yields a value only when all of them succeeded; it performs the call
     it is named for, with the arguments given.''',
     [F, I], 'every failing system call at every point',
     'tests do not inject failures of the calls behind a wrapper',
     ['src/io/socket.cpp', 'src/io/file.cpp', 'src/io/stream_file.cpp', 'src/io/random_access_file.cpp', 'src/io/pipe.cpp', 'src/io/serial_port.cpp', 'src/io/signal_set.cpp', 'src/io/ssl.cpp',
      'src/io/stream_socket.cpp', 'src/io/datagram_socket.cpp', 'src/io/seq_packet_socket.cpp', 'src/io/endpoint.cpp'],
     [('error_code out parameter converted into the result', 'src/io/*.cpp')])
prop('P25', 'Each I/O operation starts exactly the operation asked for, once',
     '''Awaiting an I/O operation initiates exactly one operation of the requested kind on the requested object with the requested buffers, offset, flags and peer, and passes the completion
     handler on exactly once.''',
     [I, PRG], 'every operation, buffer shape, offset and flag',
     'mix-ups between similar operations show only on real devices and unusual arguments',
     ['src/io/socket.cpp', 'src/io/file.cpp', 'src/io/stream_file.cpp', 'src/io/random_access_file.cpp', 'src/io/pipe.cpp', 'src/io/serial_port.cpp', 'src/io/signal_set.cpp', 'src/io/ssl.cpp',
      'src/io/stream_socket.cpp', 'src/io/datagram_socket.cpp', 'src/io/seq_packet_socket.cpp', 'src/io/resolver.cpp', 'src/io/sleep.cpp', 'src/io/steady_timer.cpp', 'src/io/system_timer.cpp', 'io/ops.hpp'],
     [('initiate_* functions', 'src/io/*.cpp')])
prop('P26', 'Endpoints keep their address, port, protocol and size',
     '''An endpoint built from a protocol and an address stores that address family, address, port or path and its exact size, reading it back yields the same values, and reading
     it as another family fails instead of misinterpreting memory.''',
     [I], 'every family, address and path length',
     'families and lengths are not sampled',
     ['io/endpoint.hpp', 'src/io/endpoint.cpp'],
     [('make_endpoint_tag / get_endpoint_tag implementations', 'src/io/endpoint.cpp')])
prop('P27', 'Composed reads and writes continue until done and report the bytes transferred',
     '''The composed read and write operations repeat the underlying operation on the remaining buffer and the advanced offset until everything was transferred or an error occurred,
     and report the total number of bytes with the error.''',
     [F, I], 'every sequence of partial transfers and errors',
     'partial transfers are rare on the devices tests use',
     ['src/io/read.cpp', 'src/io/write.cpp', 'io/read.hpp', 'io/write.hpp'],
     [('read_all/write_all loops', 'src/io/read.cpp, src/io/write.cpp')])
prop('P28', 'Buffer sequences describe exactly the memory they were made from',
     '''Iterating, consuming or measuring a buffer sequence covers exactly the bytes it was made from: every buffer once, in order, minus what was consumed,
     for every shape of sequence.''',
     [I], 'every shape and size of sequence, every number of consumed bytes',
     'shapes times consumed counts',
     ['io/buffer.hpp'], [('basic_buffer_sequence', 'io/buffer.hpp')])
prop('P29', 'An owning coroutine handle destroys its coroutine exactly once',
     '''The owning coroutine handle destroys the coroutine it holds when it is destroyed, reset or overwritten, gives ownership away when moved from or released, and resumes
     only after giving up ownership; the no-op coroutine is never destroyed.''',
     [H], 'every sequence of moves, resets, releases and resumptions',
     'double destruction and leaks are silent',
     ['unique_handle.hpp', 'src/detail/util.cpp', 'detail/util.hpp'],
     [('unique_handle specialisations', 'unique_handle.hpp')])
prop('P30', 'A coroutine used as composed operation completes its handler exactly once',
     '''A coroutine-based composed operation starts at once with the completion handler it is given, delivers what it returns to the awaiter, destroys its own frame exactly once and then
     resumes the awaiter exactly once, or marks it as complete when the operation is still being started. It awaits other operations as tuples, with the memory of its handler. Nothing of the destroyed frame is used afterwards.
     An exception is not swallowed: it leaves the coroutine to whoever resumed it.''',
     [S, F], 'every body, immediate and deferred completion, cancellation',
     'histories of completion and cancellation',
     ['composition.hpp'], [('composition_promise', 'composition.hpp')])
prop('P31', 'Library errors are distinct, described and thrown as documented',
     '''Each library error has its own code and message, converts to an error code of the library's category, is truthy as an error,
     and each failure condition throws or stores the exception of the matching error.''',
     [I], 'every error and every place that raises one',
     'most failure places are not reached by tests',
     ['error.hpp', 'src/error.cpp', 'src/detail/exception.cpp', 'detail/exception.hpp'],
     [('cobalt_category_t::message, detail exceptions', 'src/error.cpp, src/detail/exception.cpp')])
prop('P32', 'Public headers compile on their own and together',
     '''Every public header can be included alone or after any other public header, in one unit or in many, and then declares everything it documents.''',
     [C, PRG], 'every header and every pair order',
     'tests include a fixed set of headers in a fixed order',
     ['io/random_access_device.hpp', 'io.hpp'], [('include guards', 'all headers')],
     technique='compile witnesses (each header alone, twice, all in both orders, with the names it must declare), preprocessor state queries for include guards, linkage query over LLVM IR')
prop('P33', 'Stackful contexts behave like coroutines',
     '''An experimental stackful context yields its return value or exception to the awaiter, resumes the awaiter exactly once, and releases its stack exactly once after it
     finished or was destroyed.''',
     [H, S], 'every body and every way of ending it',
     'no tests of the baseline cover it', ['experimental/context.hpp', 'experimental/frame.hpp', 'experimental/yield_context.hpp'],
     [('context promise and frame', 'experimental/*.hpp')])
prop('P34', 'Coroutines run and resume on their own executor',
     '''A coroutine adopts the executor given to it or that of its thread, every operation it awaits completes through that executor, and
     a coroutine never switches threads by awaiting something from another one.''',
     [S, C], 'every nesting of executors and threads',
     'tests use one thread with one executor',
     ['this_coro.hpp', 'detail/promise.hpp', 'detail/task.hpp', 'detail/generator.hpp', 'src/this_thread.cpp', 'detail/thread.hpp', 'src/thread.cpp', 'detail/handler.hpp'],
     [('executor members and get_executor', 'all promises')])
prop('P35', 'Waiting channel operations are served fairly',
     '''Readers and writers waiting on a channel are served in the order in which they arrived.''',
     [S, H], 'every history of waiters', 'orders of arrival', ['impl/channel.hpp', 'src/channel.cpp'], [('intrusive wait queues', 'impl/channel.hpp')])
prop('P36', 'race starts its members in random order, left_race in the given one',
     '''A race starts its members in an order that is a shuffle of all of them, drawn from the generator it was given, or from the one of its thread, so that no
     member wins only for its position; a left_race starts them in the order in which they were given.''',
     [S, I], 'every number of members, generator and form of race', 'tests sample a few orders and cannot see a bias',
     ['race.hpp', 'detail/race.hpp'], [('shuffle of the bodies', 'detail/race.hpp'), ('generator of the thread', 'race.hpp')],
     technique=AI + ': the order containers and generator of every instance, with the uniformity of std::shuffle taken from the standard')
prop('P37', 'Data arrives unchanged and timers fire',
     '''Bytes read from a stream, file or pipe are the bytes written, in order, and a timer fires once its time has come.''',
     [I, S], 'every byte stream', 'behaviour of the kernel and of asio', ['src/io/stream_socket.cpp', 'src/io/steady_timer.cpp'],
     [('asio timers and descriptors', 'src/io/*.cpp')],
     na='wall-clock timing and byte contents are decided by the kernel and asio at run time; what the wrappers pass on is decided under P25, P27, P28 and P38')
prop('P38', 'A timer or sleep waits for exactly the time it was given',
     '''A timer or sleep waits until exactly the time it was given, on its own clock: it is armed for that very expiry, completes without waiting only once
     that time has passed, reports and changes its expiry as asked, and a time given in another resolution is never rounded to an earlier one.''',
     [I, S], 'every expiry, clock, duration type and moment of awaiting', 'tests measure a few sleeps with tolerances',
     ['io/sleep.hpp', 'src/io/sleep.cpp', 'io/steady_timer.hpp', 'src/io/steady_timer.cpp', 'io/system_timer.hpp', 'src/io/system_timer.cpp'],
     [('asio timer of the object', 'src/io/steady_timer.cpp'), ('time point of a sleep', 'src/io/sleep.cpp')])


NOTE = ('Decides the property on every abstract path of the anchored functions (helpers inlined, loops unrolled to a bound, templates in the instantiations of /verif/drivers), '
        'assuming Boost.Asio and the standard library behave as documented.')


def main():
    import sys
    sys.path.insert(0, os.path.join(V, 'rules'))
    import run, lib
    run.load_rules()
    claimed = set(lib.RULES)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['id'] in claimed and not p['na']:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 rules/run.py %s quick' % p['id'],
                           'thorough_cmd': 'python3 rules/run.py %s thorough' % p['id'],
                           'technique': p['technique'] or AI + ' with typestate and hand-off rules',
                           'level': 'other', 'level_note': p['note'] or NOTE})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no check has been built for it yet'})
    json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
    print(len(PROPS), 'properties,', len(checks), 'claimed')


if __name__ == '__main__':
    main()
