#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CB = "kanon/linux/net/connection/connection_base.inl"
p("P01", "Bytes accepted for sending reach the socket exactly once, in order",
  "On a connection that stays up, the concatenation of everything handed to the send operations (byte range, string view, contiguous buffer, chunked buffer; any mixture; from the loop thread or from other threads) is exactly the byte sequence the peer receives: nothing lost, duplicated, corrupted or reordered. This holds whatever the socket does: short writes, a full socket buffer at any point, and readiness notifications in level- or edge-triggered mode, and no accepted byte stays queued forever once the peer keeps reading. Sends from one thread keep their order and each single send stays contiguous.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of sends up to a bound, all short-write/EAGAIN decisions of the kernel within a budget, all interleavings of a sending thread with the loop thread within a preemption bound",
  "The tests do not open a connection that is made to block; short writes, EAGAIN and cross-thread interleavings come from the kernel and the scheduler and no test controls them.",
  [CB, "kanon/net/connection/connection_base.h", "kanon/net/connection/connection_base.cc", "kanon/linux/net/chunk_list.cc", "kanon/net/chunk_list.h", "kanon/buffer/chunk_list.cc"],
  [("direct write, then queue the rest and arm write interest", CB+": SendInLoop / SendInLoopForBuf / SendInLoopForChunkList"), ("drain on writable", CB+": HandleLtWrite / HandleEtWrite"), ("hand-over to the loop thread", CB+": Send")],
  ["bytes received by the peer endpoint of the (virtual) socket", "public Send overloads of TcpConnection"],
  [("output_buffer_", "bytes accepted but not yet written", "kanon/net/connection/connection_base.h")])
p("P02", "Received bytes are delivered to the message callback once and in order",
  "The concatenation of the bytes a connection's message callback sees in the input buffer (a callback may consume any part and leave the rest) equals the bytes the peer sent, in order, with none lost, duplicated or altered, for every segmentation of the stream and every mix of short reads, interrupted and would-block reads, in level- and edge-triggered mode. All bytes that arrived before the peer's end of stream are delivered before the connection is reported closed. Nothing is delivered while reading is disabled, and enabling it again brings everything that waits, also after the write side was shut down. An orderly end of stream or a read error never crashes the process.",
  ["schedules", "fault_sequences", "histories"],
  "all segmentations of a bounded stream, all short-read/EINTR/EAGAIN decisions within a budget, peer close or reset at every point, all callback consumption patterns within a bound",
  "Tests read from a loopback peer that delivers everything at once; the segmentation, the errno of each read and the position of the FIN/RST are never varied.",
  [CB, "kanon/linux/net/buffer.cc", "kanon/linux/net/chunk_list.cc", "kanon/buffer/buffer.h"],
  [("read into buffer with spill-over area", "kanon/linux/net/buffer.cc: BufferReadFromFd"), ("read handling", CB+": HandleLtRead / HandleEtRead"), ("close/error", CB+": HandleClose / HandleError")],
  ["message and connection callbacks"], [("input_buffer_", "received, not yet consumed bytes", "kanon/net/connection/connection_base.h")])
p("P03", "Connection up and down are each reported exactly once and the fd is closed once",
  "Every established connection invokes its connection callback exactly once as connected and, when it ends for whatever reason (peer close, reset, force close from any thread, server or loop teardown), exactly once as not connected, on its own loop thread, with no message callback before the first or after the second. Its socket descriptor is closed exactly once, only after it has been removed from the poller, and the connection object is destroyed without any access to it afterwards.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of peer close/reset, local close calls and loop iterations within a preemption and fault bound",
  "Tests exercise at most one orderly close; double-close and use-after-free need a close racing a force close or an error event.",
  [CB, "kanon/net/connection/connection_base.cc", "kanon/net/tcp_server.cc", "kanon/net/tcp_client.cc", "kanon/linux/net/channel.cc"],
  [("state machine connecting/connected/disconnecting/disconnected", CB+": ConnectionEstablished / HandleClose / ConnectionDestroyed / ForceClose"), ("tie of channel to connection", "kanon/linux/net/channel.cc: HandleEvents")],
  ["connection callback, message callback", "descriptor table of the (virtual) kernel"], [("state_", "connection state", "kanon/net/connection/connection_base.h")])
p("P04", "Graceful shutdown sends all accepted data first, then closes the write side",
  "After a graceful write-side shutdown of a connection that stays up, the peer first receives every byte that had been accepted for sending before the shutdown call (by the same thread) and then end of stream, exactly once. This holds whether the data was still queued, partly written or handed over from another thread, in level- and edge-triggered mode, and end of stream is never withheld once the data is out.",
  ["schedules", "fault_sequences", "histories"],
  "all send/shutdown sequences within a bound, all short-write/EAGAIN decisions within a budget, call from the loop thread or another thread, all interleavings within a preemption bound",
  "The tests never shut down a connection whose output is blocked.",
  [CB, "kanon/net/socket.cc"],
  [("deferred shutdown when output is pending", CB+": ShutdownWrite / HandleLtWrite / HandleEtWrite")],
  ["peer endpoint of the (virtual) socket"], [("state_", "kDisconnecting defers the shutdown", "kanon/net/connection/connection_base.h")])
p("P05", "Write-complete and high-water-mark notifications tell the truth",
  "The write-complete callback runs on the loop thread, only while the connection is up and when nothing accepted for sending on that thread remains unwritten, and at least once after the output drains; whatever it returns, later sends and writable events keep working. The high-water-mark callback runs exactly when a send makes the queued output grow from below the mark to the mark or above, with the size then queued.",
  ["schedules", "fault_sequences", "histories"],
  "all send sequences and short-write/EAGAIN decisions within bounds, both callback results",
  "No test blocks the output, so the queued-output paths and both callbacks are not reached.",
  [CB, "kanon/net/connection/connection_base.h"],
  [("callbacks after draining / when queueing", CB+": CallWriteCompleteCallback / SendInLoop / HandleLtWrite")],
  ["write-complete and high-water callbacks"])
p("P06", "Every task handed to a running event loop runs exactly once, on its thread",
  "A callable handed to an event loop, from any thread including the loop's own, before or while the loop runs, is executed exactly once on the loop's thread; tasks from one thread execute in the order they were handed over, and a call to run a task from the loop's own thread executes it immediately. A sleeping loop wakes up for a new task at once: it never stays asleep while a task is queued.",
  ["schedules", "histories"],
  "all interleavings, within a preemption bound, of producers (including tasks that queue tasks) with the loop's poll / dispatch / drain phases, both poller back ends",
  "A lost wake-up or double execution needs the producer to run at one particular point of the loop's cycle; the timing tests see one schedule.",
  ["kanon/net/event_loop.cc", "kanon/net/event_loop.h"],
  [("queue + wake-up descriptor", "kanon/net/event_loop.cc: QueueToLoop / RunInLoop / Wakeup / EvRead"), ("drain", "kanon/net/event_loop.cc: CallFunctors / StartLoop")],
  ["execution of the callables"], [("functors_", "queued tasks", "kanon/net/event_loop.h"), ("calling_functors_", "draining", "kanon/net/event_loop.h")])
p("P07", "Quitting an event loop ends it promptly, safely and without losing tasks",
  "After a quit request from any thread, at any point including before the loop starts waiting and from inside a callback, the loop function returns without waiting for any further event, and tasks handed over before the quit request still run exactly once. Quitting from another thread never touches the loop after the loop's owner was able to see it end.",
  ["schedules", "histories"],
  "all interleavings of a quitting thread, a producing thread and the loop within a preemption bound",
  "The tests quit from one fixed point; a lost quit or a use after free needs one specific interleaving.",
  ["kanon/net/event_loop.cc", "kanon/net/event_loop_thread.cc"],
  [("quit flag plus wake-up", "kanon/net/event_loop.cc: Quit / StartLoop")], ["return of StartLoop"], [("quit_", "quit requested", "kanon/net/event_loop.h")])
p("P08", "Loop threads and loop pools start fully, hand out loops fairly and stop cleanly",
  "Starting a loop thread returns a pointer to a usable loop that runs on the new thread, and destroying the loop thread object quits that loop and joins the thread, in every interleaving, without races, hangs or access to a dead loop. A pool of n loops hands them out round-robin starting with the first (the base loop when n is 0), and destroying the pool stops every loop.",
  ["schedules", "configurations", "histories"],
  "all interleavings of start, use, loop-ends-by-itself and destruction within a preemption bound; pool sizes 0..3",
  "Start-up and teardown races need a specific interleaving; the tests run each once.",
  ["kanon/net/event_loop_thread.cc", "kanon/net/event_loop_pool.cc", "kanon/net/event_loop_pool.h"],
  [("start handshake", "kanon/net/event_loop_thread.cc: StartRun"), ("round robin", "kanon/net/event_loop_pool.cc: GetNextLoop / GetLoop / StartRun")], ["loop pointers handed out, thread ids of callbacks"])
p("P09", "Timers fire as often as due, never early, in order of their due time",
  "A one-shot timer (at a time or after a delay) runs exactly once, on the loop's thread, not before its due time and not later than the loop gets to run after it; a periodic timer runs repeatedly, its due times at least one interval apart. Timers due at different times run in order of due time, and this holds for timers added from any thread, from inside timer callbacks, with equal or past due times, whatever the order of insertion.",
  ["schedules", "histories", "inputs"],
  "all sequences of timer operations up to a bound with delays from a small set (including 0, past and equal), all interleavings with another thread within a preemption bound, under a virtual clock",
  "Real-clock tests observe a few delays once and cannot tell late from lost; insertion orders and re-arming races are not enumerated.",
  ["kanon/linux/net/timer/timer_queue.cc", "kanon/net/timer/timer_queue.h", "kanon/net/timer/timer.h", "kanon/net/event_loop.cc"],
  [("ordered set of timers + one timerfd", "kanon/linux/net/timer/timer_queue.cc: AddTimer / ProcessAllExpiredTimers / ResetTimers")], ["timer callbacks under the virtual clock"])
p("P10", "A cancelled timer never runs again and cancellation never corrupts memory",
  "Once cancellation of a timer has taken effect on the loop thread (at once when called there, when processed if called elsewhere), its callback never starts again, including a timer due in the same batch and a periodic timer cancelling itself from inside its callback. Cancelling a timer that already fired, was already cancelled, or was cancelled twice is harmless, cancelling one timer never affects another, and the memory of every finished or cancelled timer is released without being touched again.",
  ["schedules", "histories"],
  "all sequences of add/cancel operations up to a bound, cancel from outside, from callbacks of the same or another timer, and from another thread; all interleavings within a preemption bound",
  "Tests cancel a live timer from one place; cancelling inside the same batch or after expiry is not covered and memory errors are invisible without a monitor.",
  ["kanon/linux/net/timer/timer_queue.cc", "kanon/net/timer/timer_id.h", "kanon/net/timer/timer.h"],
  [("cancel set checked before re-arming", "kanon/linux/net/timer/timer_queue.cc: CancelTimer / ProcessAllExpiredTimers")], ["timer callbacks; heap accesses"])
p("P11", "Both poller back ends report exactly the armed, ready events of live channels",
  "After any sequence of enabling, disabling and removing event interest on channels, a poll returns each channel whose descriptor is ready for an event it is interested in exactly once with exactly those events, and never a channel that is disabled or removed; the poll(2) and epoll(7) back ends behave alike. Re-enabling a disabled channel works any number of times, removing one channel leaves the others intact, a descriptor number can be reused after removal, and hang-up or error on a descriptor never crashes the loop.",
  ["histories", "inputs", "configurations"],
  "all sequences of channel operations and readiness changes up to a bound over up to three channels, for both back ends",
  "The tests use one channel with one interest set; the index bookkeeping of both back ends depends on the history of operations.",
  ["kanon/linux/net/poller.cc", "kanon/linux/net/epoller.cc", "kanon/linux/net/channel.cc", "kanon/linux/net/channel.h"],
  [("poll(2) array and channel map", "kanon/linux/net/poller.cc: UpdateChannel / RemoveChannel / FillActiveChannels"), ("epoll registration state", "kanon/linux/net/epoller.cc: UpdateChannel / RemoveChannel / UpdateEpollEvent")], ["active channel list returned by Poll"])
p("P12", "Every accepted client becomes exactly one connection, whatever accept() reports",
  "Each client that completes a connection to a listening server leads to exactly one server connection, on the loops of the server's pool in turn, and its descriptor is never leaked or closed twice. Transient accept errors (aborted or interrupted connections, exhausted descriptors, no buffers, protocol or network errors of the client) never stop or crash the server: clients that can be served afterwards are served.",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "all arrival sequences of up to three clients, all accept() error sequences within a budget, level- and edge-triggered listening, pool sizes 0..2",
  "accept() failures cannot be provoked by an ordinary test and descriptor exhaustion is never tested.",
  ["kanon/net/acceptor.cc", "kanon/linux/net/sock_api.cc", "kanon/net/tcp_server.cc"],
  [("accept loop with reserved spare descriptor", "kanon/net/acceptor.cc"), ("connection table", "kanon/net/tcp_server.cc: NewConnection")], ["connection callbacks; peer endpoints; descriptor table"])
p("P13", "A server starts once and its teardown closes every connection exactly once",
  "Starting a server any number of times, from any thread, makes it listen exactly once. Destroying a server ends every connection it still has (each reported not connected exactly once, each descriptor closed once), stops its pool threads, and leaves nothing that touches the server or its connections afterwards, whichever connections are opening or closing on the pool's loops at that moment.",
  ["schedules", "histories", "configurations"],
  "all interleavings of start calls, client arrival/close and server destruction within a preemption bound; pool sizes 0..2",
  "Teardown races depend on the interleaving of the base loop with the pool loops; tests never destroy a busy server.",
  ["kanon/net/tcp_server.cc", "kanon/net/user_server.h", "kanon/net/event_loop_pool.cc"],
  [("start-once flag", "kanon/net/tcp_server.cc: StartRun"), ("teardown", "kanon/net/tcp_server.cc: ~TcpServer / RemoveConnection")], ["connection callbacks; descriptor table; heap accesses"], [("connections_", "live connections", "kanon/net/user_server.h")])
p("P14", "Connecting succeeds once or keeps retrying with bounded back-off",
  "A connector hands over exactly one connected descriptor for every successful connection attempt and never hands over or leaks a descriptor of a failed, self-connected or stopped attempt. On a retryable failure it tries again after a delay that starts at the initial value, doubles up to the documented maximum and never becomes negative or zero; on a fatal error it gives up without crashing, and after being stopped it never connects again until restarted.",
  ["fault_sequences", "schedules", "histories"],
  "all sequences of connect() results and deferred socket errors up to a depth, with stop/restart at every point",
  "Tests connect to a live local port; refused, unreachable, self-connected and stopped attempts are not produced.",
  ["kanon/net/connector.cc", "kanon/net/connector.h"],
  [("connect state machine and retry timer", "kanon/net/connector.cc: Connect / Connecting / CompleteConnect / Retry / StopInLoop")], ["new-connection callback; descriptor table; virtual clock"])
p("P15", "A client connects, disconnects, reconnects and is destroyed cleanly at any point",
  "A client reports each connection it establishes up once and down once; disconnecting shuts it down gracefully, stopping ends pending attempts, a retry-enabled client reconnects after losing its connection and one without retry does not. Destroying a client at any moment (idle, connecting, waiting to retry, connected) leaks no descriptor and leaves nothing that touches it later.",
  ["schedules", "fault_sequences", "histories"],
  "all sequences of connect/disconnect/stop/destroy with connect outcomes and peer close at every point, from the loop thread and another thread within a preemption bound",
  "Tests do one connect to a live server; the destruct-while-connecting paths are not reached deterministically.",
  ["kanon/net/tcp_client.cc", "kanon/net/user_client.h", "kanon/net/connector.cc"],
  [("client lifecycle", "kanon/net/tcp_client.cc: ~TcpClient / Connect / Disconnect / Stop / NewConnection")], ["connection callback; descriptor table; heap accesses"])
p("P16", "A count-down latch releases every waiter, and only once the count is reached",
  "A wait on a count-down latch returns only after the count has been brought to zero, even if the underlying wait wakes up spuriously, and every waiter returns once it is zero, in every interleaving. Waiting on a latch that is already at zero returns at once, however it came to be zero.",
  ["schedules", "histories"], "all interleavings of up to three counting and waiting threads within a preemption bound, spurious wake-ups included",
  "Spurious wake-ups and the notify-before-wait order are not under a test's control.",
  ["kanon/thread/count_down_latch.h", "kanon/thread/condition.h"], [("guarded counter + condition", "kanon/thread/count_down_latch.h: Wait / Countdown")], ["return of Wait"])
p("P17", "Mutexes and reader-writer locks exclude, and guards always release",
  "At most one thread is inside a mutex and a writer of the reader-writer lock excludes readers and writers, while readers may overlap; guards release on every exit path, try-lock reports truthfully whether it acquired, and the ownership queries and assertions are right for the calling thread. None of the lock's own bookkeeping races, and a lock may be destroyed as soon as no thread holds or waits for it.",
  ["schedules"], "all interleavings of up to three threads using the lock operations within a preemption bound",
  "Mutual exclusion and data races are properties of all schedules.",
  ["kanon/thread/mutex_lock.h", "kanon/thread/rw_lock.h", "kanon/util/mem.h"], [("holder tracking around pthread mutex", "kanon/thread/mutex_lock.h: Lock / Unlock / TryLock / IsLockedInThisThread")], ["critical sections; monitor of memory accesses"])
p("P18", "A thread pool runs every accepted task exactly once",
  "Every task pushed to a started thread pool is executed exactly once, with a single worker in the order of pushing; pushing to a full queue waits until there is room rather than losing or reordering tasks, when a maximum queue size was set before the start. Destroying the pool at any moment runs what was accepted and joins its threads without deadlock, and the pool needs no particular number of tasks or workers to make progress or stop.",
  ["schedules", "histories", "configurations"], "all interleavings of up to two producers, two workers and a stopper within a preemption bound, queue bounds 1..2 and unbounded, fewer, equal and more tasks than workers",
  "A lost wake-up, double execution or stop deadlock needs a particular interleaving.",
  ["kanon/thread/thread_pool.cc", "kanon/thread/thread_pool.h"], [("bounded queue with two conditions", "kanon/thread/thread_pool.cc")], ["execution of the tasks; return of Push and the destructor"])
p("P19", "Condition waits reacquire the mutex and no notification is lost",
  "A wait on a condition atomically releases the mutex and holds it again, with correct ownership bookkeeping, when it returns for any reason; a notification wakes a thread that was waiting and a broadcast wakes all. A timed wait returns no later than its time limit, for any non-negative limit including fractions of a second, and tells time-out from notification.",
  ["schedules", "inputs"], "all interleavings of up to two waiters and a notifier within a preemption bound, time limits around the second boundary under a virtual clock",
  "Interleavings and clock values are not controlled by tests.",
  ["kanon/thread/condition.h", "kanon/thread/mutex_lock.h"], [("ownership hand-over around pthread_cond_wait", "kanon/thread/condition.h: Wait / WaitForSeconds")], ["ownership queries after a wait; virtual clock"])
p("P20", "A thread object runs its function exactly once and joins or detaches safely",
  "Starting a thread object runs the given callable exactly once on a new thread whose cached thread id and name are right for it (an object without a name gets one of its own); joining waits for it to finish, and destroying, moving or detaching the object before, while or after the thread runs never leads to access to a dead object, to a detached thread being joined or a descriptor-like handle being released twice.",
  ["schedules", "histories"], "all sequences of start/join/move/destroy up to a bound, all interleavings with the thread within a preemption bound",
  "Whether the object dies before the thread has copied what it needs depends on the schedule.",
  ["kanon/thread/thread.cc", "kanon/thread/thread.h", "kanon/thread/current_thread.h"], [("thread start trampoline", "kanon/thread/thread.cc: StartRun / Run / ~Thread")], ["execution of the callable; heap accesses"])
p("P21", "Asynchronous logging writes every record once, whole and in order",
  "Every record appended to the asynchronous log before it is stopped is in the output after stopping, exactly once and unbroken, records of one thread in their order, whatever the interleaving of producers, the back-end thread, buffer switches, timed flushes and stop; only the documented overload discard may drop whole buffers beyond the oldest sixteen, and the log then says how many. A record also reaches the file within the flush interval without stopping. Stopping a running log, or destroying it, always terminates and leaves no thread behind.",
  ["schedules", "histories"], "all interleavings of up to two producers, the back end and stop within a preemption bound, buffers filling at every point (small buffers)",
  "The tests log a lot and look at nothing; a record lost in the hand-over or at stop needs one interleaving.",
  ["kanon/log/async_log.cc", "kanon/log/async_log.h", "kanon/string/fixed_buffer.h"],
  [("double buffering with a back-end thread", "kanon/log/async_log.cc: Append / StartRun / Stop")], ["bytes reaching the output callback"])
p("P22", "Log files roll without losing records and retention keeps the newest files",
  "Records appended to a log file end up, in order and each whole, in the concatenation of the rolled files, for every sequence of appends, size limits, flushes and clock movements. When a retention count is configured only the oldest files are ever removed, they go in the order of their age once the count is reached, the newest one always remains, and closing the log never hangs, loses records or leaves more files than wanted. Several log files can be written at once, in one new directory too, and the name of each tells when it began, the process and the host. Files roll when the size or the period is over (at most once a second) and only then, and records reach the file on a flush and within the flush interval.",
  ["histories", "schedules", "configurations"], "all sequences of append / flush / clock-advance up to a depth over several roll sizes and retention counts; all interleavings with the removing thread within a preemption bound",
  "Rolling depends on size and clock together and the removal thread on the schedule; tests do not advance the clock.",
  ["kanon/log/log_file.h", "kanon/log/append_file.cc", "kanon/log/append_file.h", "kanon/log/log_file.cc", "kanon/process/process_info.cc"], [("size/date rolling, retention thread", "kanon/log/log_file.cc: Append / RollFile")], ["files in the log directory"])
p("P23", "Each log statement emits exactly one well-formed record iff its level is enabled",
  "A log statement produces exactly one record, ended by a newline, with level, message and source location, if and only if its level is at or above the configured threshold (fatal statements always), and the record of a message that fits is complete. Messages longer than the record limit are truncated rather than overflowing or merging with the next record, system-error statements carry the text of the current error number, and only fatal statements end the process, after flushing their record.",
  ["inputs", "configurations", "histories"], "all levels x thresholds x message lengths around the record limit, all error numbers in a range, all streamed value kinds with boundary values",
  "Tests print a few messages and do not check them, least of all around the limit.",
  ["kanon/log/logger.cc", "kanon/log/logger.h", "kanon/util/time_stamp.h"], [("record assembly", "kanon/log/logger.cc")], ["bytes handed to the output callback"])
p("P24", "The contiguous buffer behaves as an exact byte queue with prepend area",
  "After any sequence of append, prepend (within the reserved header area), fixed-width integer writes and reads, advance, remove, find, shrink, swap and move operations, the buffer's readable content equals what the same operations give on an ideal byte queue: sizes, contents, search results and integer values in network order included. No operation reads or writes outside the buffer, however contents are moved or grown.",
  ["histories", "inputs"], "all operation sequences up to a depth, with sizes chosen around every internal boundary",
  "Whether data is moved or the buffer grown depends on the history of indices; tests use a few fixed histories.",
  ["kanon/buffer/buffer.h", "kanon/buffer/buffer.cc", "kanon/linux/net/buffer.cc"], [("read/write indices with make-space", "kanon/buffer/buffer.h")], ["public buffer API"])
p("P25", "The chunked buffer behaves as an exact byte queue over any chunk layout",
  "After any sequence of append, prepend (into the reserved header), integer writes and reads, advance, reserve, splice/append of another list, copy, move, swap, shrink and clear, the chunked buffer's readable content and size equal those of an ideal byte queue, and writing it to a descriptor transfers exactly those bytes in order, however many chunks there are and however short the transfer. No chunk is leaked, shared or freed twice, and a chunk takes the memory of its size.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences up to a depth, with sizes around the chunk boundary, short/failed transfers, and lists of more chunks than one system call takes",
  "Partial chunks in the middle, recycled chunks and long lists arise only from particular histories.",
  ["kanon/buffer/chunk_list.h", "kanon/buffer/chunk_list.cc", "kanon/net/chunk_list.h", "kanon/linux/net/chunk_list.cc"], [("list of fixed chunks with free list", "kanon/buffer/chunk_list.cc")], ["public chunk list API"])
p("P26", "The singly linked list agrees with a sequence under every operation",
  "After any sequence of its operations (push/emplace/insert/erase/extract at front, after a position and at the back, assign, resize, splice, merge, remove_if, unique, reverse, sort, swap, copy, move, clear), a list's contents, order, size and last element equal those of an ideal sequence with the standard meaning of the operation. Every element is constructed and destroyed exactly once and nodes are neither leaked nor shared, also when making, assigning or comparing an element throws.",
  ["histories", "inputs"], "all operation sequences up to a depth over lists of up to three distinct small values, several element types",
  "The cached last node and size go wrong only after particular operation sequences, of which tests sample a few.",
  ["kanon/algo/forward_list.h", "kanon/algo/forward_list/forward_list_impl.h", "kanon/algo/forward_list/algorithm.cc"], [("header node, cached last node and size", "forward_list.h")], ["public list API"])
p("P27", "Memory pools hand out disjoint live blocks and release everything once",
  "Blocks obtained from a fixed-size pool are distinct, non-overlapping, large enough and keep their contents until freed, in every sequence of allocation, free, shrink and pool destruction, for every block size and at least one block per chunk; they are aligned to 8 bytes when they are that large. Freed blocks are reused, and shrinking or destroying a pool releases exactly the unused memory, never a block still in use, without touching freed memory. Memory that can't be had, also because its size can't be represented, is reported and leaves the pool as it was. The typed pool and pool allocator construct and destroy each object exactly once.",
  ["histories", "configurations"], "all sequences of malloc/free/shrink up to a depth, block sizes and blocks-per-chunk over a range",
  "A dangling free list appears only after shrink in particular histories.",
  ["kanon/mem/fixed_chunk_memory_pool.cc", "kanon/mem/fixed_chunk_memory_pool.h", "kanon/mem/linear_fixed_memory_pool.h", "kanon/mem/object_memory_pool.h", "kanon/mem/object_pool_allocator.h"], [("embedded free list per chunk", "kanon/mem/fixed_chunk_memory_pool.cc")], ["addresses handed out; heap accesses"])
p("P28", "String-view searches, comparisons and slices agree with the standard meaning",
  "Every search (forward, backward, any-of, none-of, with a character or a string, from any start position), comparison, prefix/suffix test, slice, copy and case-insensitive comparison of a string view gives the result the same operation of the standard string gives, for every content including the empty string, embedded zero bytes and overlapping matches. No operation reads outside the viewed bytes, even when they are not zero-terminated.",
  ["inputs"], "all pairs of strings up to a length over a small alphabet that includes the zero byte, all positions including past the end",
  "Tests sample a handful of strings; the off-by-one cases are at the corners of the input space.",
  ["kanon/string/string_view.h", "kanon/string/string_view.cc"], [("search loops", "kanon/string/string_view.cc")], ["return values; accesses near the ends of the viewed bytes"])
p("P29", "Numbers convert to text and back exactly, and bad text is reported",
  "Every integer, floating-point, pointer and boolean value written to a log stream or converted to text yields its correct decimal (hexadecimal for pointers) form within the space reserved for it, (text that does not fit its buffer is cut at the end, a number is written whole or not at all, and nothing is written beyond the buffer), and text-to-number conversion (of text below 64 characters) returns the number the text denotes for text in range and reports failure for text that is empty, malformed or out of range; the base-aware view conversions, like strtol, take the leading number and report text that has none or whose number is out of range. Conversions running in several threads do not disturb each other.",
  ["inputs", "schedules"], "all 8/16-bit values and all boundary values of wider types, all texts up to a length over the relevant alphabet, every remaining space of the target buffer, two concurrent conversions",
  "Tests convert a few values; boundary lengths of the target buffer and concurrent use are not tried.",
  ["kanon/string/fixed_buffer.h", "kanon/string/lexical_cast.h", "kanon/string/stream_common.h", "kanon/string/string_view.cc", "kanon/string/lexical_stream.h", "kanon/log/log_stream.h"], [("digit generation", "stream_common.h"), ("strtol-based casts", "lexical_cast.h")], ["text produced; numbers returned"])
p("P30", "Format strings place every argument exactly once and never overrun",
  "Formatting with the format-stream yields the literal text with each `%` replaced by the corresponding argument in order and `%%` printed as one `%`; a format whose number of placeholders differs from the number of arguments is reported (by the assertion of a debug build) rather than read out of bounds. This holds for every format string and every kind of argument. Text that exceeds the stream's buffer is cut at its end and a number that does not fit is left out; nothing is written beyond the buffer. Concatenation and string-stream helpers yield exactly the concatenation of their arguments.",
  ["inputs"], "all format strings up to a length over the placeholder alphabet, zero to three arguments of every supported kind",
  "Tests format a few well-formed strings.",
  ["kanon/string/fmt_stream.h", "kanon/string/string_util.h", "kanon/string/fmt_stream.cc", "kanon/string/lexical_stream.h"], [("placeholder scanner", "kanon/string/fmt_stream.h")], ["text produced"])
p("P31", "Internet addresses round-trip between text, binary and socket form",
  "An address built from text and port, from a bare port (with or without loopback, IPv4 or IPv6) or from a socket address reports that family, address and port in socket form, in host order and as text, the text parses back to the same address, and malformed text is rejected by an exception rather than turned into some other address. Text that begins with a letter goes to the name resolver, and the addresses the resolver gives come back in its order.",
  ["inputs"], "all structured variants of IPv4/IPv6 text over boundary values and all ports at byte boundaries",
  "Tests print a few addresses.",
  ["kanon/net/inet_addr.cc", "kanon/net/inet_addr.h", "kanon/net/sock_api.h"], [("union of IPv4 and IPv6 socket address", "kanon/net/inet_addr.cc")], ["socket address bytes; text"])
p("P32", "Type-erased and optional holders keep exactly the value put into them",
  "After any sequence of construct, assign, copy, move, swap, clear, convert and access operations, including those whose copy throws, an any, unique-any or optional holder is empty or holds exactly the value the same operations give on an ideal holder; access with the right type yields that value and access with a wrong type or to an empty holder is reported as specified, without undefined behaviour. Every held object is constructed and destroyed exactly once.",
  ["histories", "inputs"], "all operation sequences up to a depth over two or three holders and several value types, including throwing copies",
  "Tests sample a few sequences and do not count constructions.",
  ["kanon/util/any.h", "kanon/util/unique_any.h", "kanon/util/raw_any.h", "kanon/util/optional.h"], [("owned polymorphic holder", "kanon/util/any.h"), ("aligned storage + flag", "kanon/util/optional.h")], ["public API; construction/destruction counts"])
p("P33", "Time stamps order, add and print exactly",
  "Arithmetic on time stamps and intervals is exact to the microsecond over the whole representable range, comparison orders them chronologically, intervals given in fractional seconds meaning the nearest microsecond, and the printed forms are the exact seconds or the exact calendar date and time of the local zone with six fractional digits, of which the date and time parse back to the same second; malformed text is reported.",
  ["inputs"], "all microsecond values and boundary seconds within ranges, all pairs of boundary intervals",
  "Tests print the current time.",
  ["kanon/util/time_stamp.h", "kanon/util/time_stamp.cc"], [("microsecond count", "kanon/util/time_stamp.h")], ["values and text"])
p("P34", "Sized and reserved arrays keep exactly their elements",
  "After any sequence of construct (empty, of a size, from a list or range, by copy or move), assign, swap, grow, shrink and element access, a reserved array and a fixed vector report the size these operations give and hold at every index the element they should: elements kept across a change of size keep their values, new elements of class type are default constructed. Every element is constructed and destroyed exactly once and the memory is released once. An operation that throws because an element can't be made or memory can't be had leaves nothing leaked and the array it was applied to as it was.",
  ["histories", "inputs"], "all operation sequences up to a depth over two arrays and several element types (trivial, counted, copy-only, move-only, throwing)",
  "The tests of these arrays sample a few sequences of integers and count nothing.",
  ["kanon/algo/reserved_array.h", "kanon/algo/fixed_vector.h", "kanon/algo/construct.h"], [("owned array of raw memory", "kanon/algo/reserved_array.h"), ("storage in place", "kanon/algo/fixed_vector.h")], ["public API; construction/destruction counts"])
p("P35", "Protobuf messages cross a connection whole, verified and once",
  "A message sent by one of the protobuf codecs is put on the connection as one frame (size, tag, payload, XXH32 checksum of tag and payload; all in network byte order, the size of the second codec as a varint) no matter how large it is, where the pieces of the output buffer end and which thread sends it, and frames of several threads never mix. On the receiving side every frame smaller than the codec's maximum is delivered exactly once, in order and as soon as it is complete, with its exact content, however the stream is cut into reads and however many frames arrive together; a frame with a wrong size, tag, checksum or payload is reported to the error callback, which by default shuts the connection down for writing, and neither it nor what follows it in the same read is delivered. The chunk stream gives protobuf exactly the room it reports and keeps exactly the bytes written into it, also after BackUp().",
  ["inputs", "schedules", "histories"], "all segmentations of short streams, all single damaged bytes, all sizes around the ends of output pieces, two sending threads under every interleaving up to a bound, all operation sequences of the chunk stream up to a depth",
  "The tests of the codecs need a running peer and send one message that is read at once.",
  ["kanon/protobuf/generic_pb_codec.cc", "kanon/protobuf/generic_pb_codec.h", "kanon/protobuf/protobuf_codec.h", "kanon/protobuf/protobuf_codec2.cc", "kanon/protobuf/protobuf_codec2.h", "kanon/protobuf/chunk_stream.cc"], [("frame decoder", "kanon/protobuf/generic_pb_codec.cc"), ("zero-copy output stream over a chunk list", "kanon/protobuf/chunk_stream.cc")], ["bytes on the connection; messages and errors delivered"])
p("P36", "A remote procedure call is answered once and completes once",
  "An RPC server calls the named method of the named service once for every well-formed request, with the request's content and a controller that carries its deadline, and sends exactly one response with the request's id and the method's result when the method completes it - at once, later, or from another thread; a request that names no service or method, an unknown one, or carries no or a malformed content is answered with the matching error code instead. Whatever a client sends - responses, strange messages, malformed frames - the other clients are served on, and completing a call whose connection or server is already gone does nothing harmful. Destroying the server while requests arrive is safe. On the client every call with a completion callback sends one request with an id no other call of the channel has, also when several threads call at once, and its callback runs exactly once, on the connection's thread and with the response to that very call, in whatever order responses arrive and even when they are repeated; a response after the deadline, or one that nobody waits for, is ignored. The controller is optional, is not used after the call returns, and a channel may be destroyed before a deadline has passed.",
  ["schedules", "histories", "inputs"], "all programs of requests of every kind up to a length, all orders of responses, completion and destruction at every point under every interleaving up to a bound",
  "The tests of the RPC part need a running server and make a few calls one after the other.",
  ["kanon/rpc/rpc_channel.cc", "kanon/rpc/rpc_channel.h", "kanon/rpc/rpc_server.cc", "kanon/rpc/rpc_server.h", "kanon/rpc/rpc_controller.cc", "kanon/rpc/rpc_controller.h", "kanon/rpc/callable.h", "kanon/rpc/rpc.proto"], [("channel: outstanding calls, services", "kanon/rpc/rpc_channel.cc"), ("server owning channels", "kanon/rpc/rpc_server.cc")], ["bytes on the connection; calls of services and completion callbacks"])
p("P37", "Weak callbacks and pointer helpers use only live objects and free them once",
  "Calling a callback that is weakly bound to an object runs the bound function with the given arguments and returns its result if and only if the object is still owned at that moment; the object then stays alive until the function returns, even when its last owner lets go of it in another thread meanwhile. Afterwards a call does nothing and returns an empty value, and the callback never keeps its object alive. The pointer helpers agree: a cast to the derived class yields the derived object itself whatever base it starts from, and takes over or shares the ownership; a key made of a raw pointer finds the owner with the same pointer and never deletes it; objects made by the factories get exactly the arguments given; an object whose deletion is deferred is deleted once at the end of the scope, however the scope is left.",
  ["schedules", "histories", "inputs"], "all interleavings of callers and the last owner up to a bound, all base classes and forms of the casts, all operation sequences over a set of owners",
  "No test uses weak callbacks or casts from a second base class, and a race between the last owner and a caller needs one schedule.",
  ["kanon/thread/weak_callback.h", "kanon/util/ptr.h"], [("lock, then call", "kanon/thread/weak_callback.h"), ("owning and non-owning keys, casts, factories", "kanon/util/ptr.h")], ["calls, results and destructions"])
p("P38", "Sockets are set up and reported exactly; none blocks a loop or leaks to a child",
  "Every descriptor the library opens (sockets of servers, clients and connections, wake-up, timer and poller descriptors, the reserve descriptor) is closed on exec at rest, and every socket and wake-up descriptor is non-blocking, after whatever happened: retries, lost connections, too many clients. A listening socket has its address reusable, and its port shared exactly if asked for, before the address is taken; a failure to set an option stops nothing. Setting no-delay, keep-alive or the context of a connection changes exactly this connection, to the last value given. A connection reports the local and peer address of its own socket (text, port and family), is in exactly one state at a time, connected exactly between the two reports, and the client reports the address it was given.",
  ["histories", "inputs", "environment outcomes"], "all sequences of settings on two connections, all back ends, families, pool sizes, connect outcomes and ways to end; failing setsockopt()",
  "Tests look at no socket option or descriptor flag; a blocking or inherited descriptor shows only under load or after an exec.",
  ["kanon/net/sock_api.cc", "kanon/net/socket.cc", "kanon/net/acceptor.cc", "kanon/net/connection/tcp_connection.cc", "kanon/net/connection/connection_base.h", "kanon/net/tcp_client.cc", "kanon/net/event_loop.cc"], [("SetNonBlockAndCloExec, options, names", "kanon/net/sock_api.cc"), ("options of the listener, reserve descriptor", "kanon/net/acceptor.cc"), ("no-delay and keep-alive", "kanon/net/connection/tcp_connection.cc")], ["descriptor flags and socket options in the kernel", "addresses and states of connections"])
p("P39", "Atomic counters lose no update; thread-local values stay in their thread",
  "Every operation on an atomic counter (of either kind, of every integral type) takes effect at one instant: after any concurrent additions, subtractions, increments, decrements, exchanges, sets and resets the value is the one some order of them gives, each returns the value it left or, where its name says so (get-and-..., postfix), the value it found in that order, and no two increments get the same ticket. A thread-local holder gives every thread a value of its own, made once, at the thread's first access and with the arguments of that access, the same object at every later access, never shared with another thread or another holder, and destroyed exactly once when its thread ends.",
  ["schedules", "histories"], "all programs of up to 4 counter operations over two or three threads and of up to 3 thread-local accesses per thread to two holders, in all interleavings within a preemption bound, against all orders of the operations",
  "A lost update or a value that leaks into another thread needs two threads at one particular point; the tests count with one schedule.",
  ["kanon/thread/atomic_counter.h", "kanon/thread/atomic.h", "kanon/thread/thread_local.h"], [("read-modify-write", "kanon/thread/atomic_counter.h: Add / GetAndAdd / Sub / GetAndSub"), ("the value of a thread", "kanon/thread/thread_local.h: value / Destructor")], ["return values; construction and destruction of values"], [("count_", "the value", "kanon/thread/atomic_counter.h")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
# anchors must exist
for x in P:
    for fn in x["anchors"]["files"]:
        if not os.path.exists("/repo/" + fn): print(x["id"], "missing", fn)
