#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": a, "where": b} for a, b in mechanism]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append(d)


K = "src/kern/"
SCHED = K + "core/hev-task-system-schedule.c"

p("C01", "A live task is queued exactly once and task counts always match",
  "A task is queued for running exactly once from the moment it is started or woken until it waits or "
  "ends, and the scheduler's numbers of live and of runnable tasks always equal the numbers of such "
  "tasks. Waking a task that is already runnable changes nothing, and waking a task that has ended "
  "aborts instead of queueing it. Starting a task that has not ended does nothing.",
  ["schedules", "programs", "histories"],
  "every interleaving of run, wake-up, yield, wait and exit by any number of tasks",
  "The tests run a handful of short programs; a count that drifts by one or a double queueing only shows "
  "in particular wake/exit orders (a wake-up of a runnable task, a stop while others wait).",
  [SCHED, K + "task/hev-task.c"],
  [("queue insert / remove / re-insert", SCHED), ("hev_task_run guard", K + "task/hev-task.c")],
  [("running count / total count", "numbers of runnable and of live tasks", SCHED),
   ("task state", "stopped, running (queued) or waiting", K + "task/hev-task-private.h")])

p("C02", "The runnable task with the smallest key runs next; keys grow by priority",
  "When a task gives up the processor the runnable task with the smallest scheduling key runs next, and "
  "tasks with equal keys run in the order they were queued. The key of the task that ran grows by its run "
  "time weighted with the priority it was queued with, and a woken task (or one started by a running "
  "task) re-enters at the smallest queued key plus its priority. A "
  "priority change is clamped to the documented range and takes effect when the task is next queued.",
  ["schedules", "programs", "inputs"],
  "every set of tasks, priorities, run times and yield/wake orders",
  "Tests check one fixed order of a few tasks; wrong tie-breaking, a stale cached minimum or an "
  "unweighted key only shows with specific priority mixes.",
  [SCHED, K + "task/hev-task.c", "src/lib/rbtree/hev-rbtree-cached.c"],
  [("ordered insert and pick of the leftmost node", SCHED),
   ("cached leftmost maintenance", "src/lib/rbtree/hev-rbtree-cached.c"),
   ("priority clamp", K + "task/hev-task.c")],
  [("scheduling key", "position of a task in the run order", K + "task/hev-task-private.h")])

p("C03", "Ready I/O always wakes its task; the loop blocks only when nothing can run",
  "On every scheduling pass with a waiting task the scheduler collects ready I/O events before it picks "
  "the next task, without blocking if some task is runnable and blocking for an event otherwise. Every "
  "collected event wakes the task it was registered for, within the number of events actually returned. "
  "Running the system returns to the caller only when no live task is left.",
  ["schedules", "histories", "fault_sequences"],
  "every mix of runnable and waiting tasks and every event batch, including failed or interrupted polls",
  "Starvation of waiting tasks by busy ones, or events dropped from a batch, needs particular timing the "
  "tests do not produce.",
  [SCHED, K + "io/hev-task-io-reactor-epoll.h", K + "core/hev-task-system.c"],
  [("poll before pick", SCHED), ("event delivery loop", SCHED)])

p("C04", "Contexts switch through matching save points; ended tasks never resume",
  "A yielding task saves its context before control passes to the scheduler and is later resumed exactly "
  "there, and the scheduler saves its own context before it resumes any task. A task that ends never "
  "continues past its end, whether it returns from its entry or calls exit, and its stack and memory are "
  "released only by the scheduler after it has left that task's stack.",
  ["schedules", "programs"],
  "every order of task start, yield, wait, return and exit",
  "A use of a released stack or a resume through a stale context normally goes unnoticed in short tests.",
  [SCHED, K + "task/hev-task-executer.c", K + "task/hev-task.c",
   "src/arch/x86/hev-task-execute-x86_64.s"],
  [("save/restore pairing of contexts", SCHED), ("task trampoline", K + "task/hev-task-executer.c")],
  [("task context / kernel context", "saved jump buffers", K + "task/hev-task-private.h")])

p("C05", "Joining a task returns only once it has ended, however it ends",
  "Joining a task blocks until that task has ended and then reports success, whether the task returns "
  "from its entry function or ends itself with exit, and the joining task is woken in both cases. "
  "Joining a task somebody else is joining fails at once without side effects. After a join has returned "
  "the ended task can be started and joined again.",
  ["schedules", "histories"],
  "every order of join, return, exit, restart and unrelated wake-ups",
  "Tests join one task that returns normally; join with exit, second joiners and restarts are never run.",
  [K + "task/hev-task.c", K + "task/hev-task-executer.c", SCHED],
  [("join loop", K + "task/hev-task.c"), ("wake of the joiner at the end", K + "task/hev-task-executer.c")],
  [("joiner", "task waiting for the end", K + "task/hev-task-private.h")])

p("C06", "A blocking call leaves no reference to its caller behind when it returns",
  "When a blocking call (mutex lock, condition wait with or without timeout, sleep, channel read or "
  "write, join) returns for any reason, no wait queue, timer or channel still refers to the calling task "
  "or to memory on its stack because of that call. Nothing can therefore wake, or write through, a task "
  "that has already returned or ended.",
  ["schedules", "histories", "fault_sequences"],
  "every return path of every blocking call: success, time-out, peer gone, early wake-up",
  "A dangling waiter only matters when a later signal, expiry or destroy hits it after the task ended; the "
  "tests end before that.",
  [K + "sync/hev-task-mutex.c", K + "sync/hev-task-cond.c", K + "time/hev-task-timer.c",
   K + "itc/hev-task-channel.c", K + "task/hev-task.c"],
  [("waiter node removal", K + "sync"), ("timer node removal", K + "time/hev-task-timer.c"),
   ("waiting task registration of a channel", K + "itc/hev-task-channel.c")])

p("C07", "Blocking calls re-check their condition after every wake-up",
  "A blocking call reports success only if, after its last suspension and with no suspension in between, "
  "it has itself observed the condition it waits for; a task woken for an unrelated reason goes back to "
  "waiting. Before suspending it has made itself known to whoever will establish the condition.",
  ["schedules", "histories"],
  "every sequence of related and unrelated wake-ups of the waiting task",
  "Spurious wake-ups (a task woken through a descriptor or an explicit wake while it waits for something "
  "else) do not occur in the tests.",
  [K + "sync/hev-task-mutex.c", K + "sync/hev-task-cond.c", K + "itc/hev-task-channel.c",
   K + "itc/hev-task-channel-select.c", K + "task/hev-task.c", "src/lib/io/poll/hev-task-io-poll.c",
   "src/lib/dns/hev-task-dns-proxy.c"],
  [("wait loops", K)])

p("C08", "At most one task holds a mutex and every unlock lets a waiter proceed",
  "A lock or trylock succeeds only if the mutex was observed free with no suspension between that "
  "observation and taking it, so two tasks never hold it together. A failing trylock changes nothing. "
  "Unlocking frees the mutex and, if tasks wait for it, wakes one that is then able to take it; every "
  "waiter stays queued until it has the lock.",
  ["schedules", "programs"],
  "every interleaving of lock, trylock, unlock by any number of tasks",
  "One test with two tasks; queues of several waiters, barging and spurious wake-ups are not reached.",
  [K + "sync/hev-task-mutex.c"],
  [("lock wait loop and hand-over", K + "sync/hev-task-mutex.c")],
  [("waiter list", "tasks waiting for the mutex", K + "sync/hev-task-mutex.h")])

p("C09", "Condition signals reach exactly one waiter, broadcasts all; timeouts lose none",
  "Waiting on a condition registers the caller before it releases the mutex and holds the mutex again "
  "whenever it returns. A signal removes and wakes exactly one waiter if there is one, a broadcast "
  "removes and wakes all of them. A timed wait returns success only if it was signalled and failure "
  "otherwise, and a waiter that times out takes only itself off the queue, so later signals still reach "
  "the others.",
  ["schedules", "histories"],
  "every order of waits, timed waits, signals, broadcasts and time-outs",
  "Tests use one waiter at a time; time-outs with other waiters queued are not reached.",
  [K + "sync/hev-task-cond.c"],
  [("waiter list surgery", K + "sync/hev-task-cond.c")])

p("C10", "Channels deliver every message once, in order, within its buffer",
  "Messages written to one end of a channel are read from the other end exactly once and in order. A "
  "transfer copies at most the smaller of the message and the reader's buffer (and at most the slot size "
  "of a buffered channel) and reports the number of bytes it copied. A writer waits while the buffer is "
  "full, a reader while it is empty, and each side is woken when the other makes progress possible.",
  ["schedules", "inputs", "programs"],
  "every buffer count, message size, reader size and interleaving of the two ends",
  "The tests use a few sizes and one order; index wrap-around, exact-size limits and wake-ups at the "
  "full/empty edges are not covered.",
  [K + "itc/hev-task-channel.c"],
  [("ring indexes and use count", K + "itc/hev-task-channel.c"), ("wait on full / empty", K + "itc/hev-task-channel.c")],
  [("use count", "messages stored", K + "itc/hev-task-channel-private.h")])

p("C11", "Destroying a channel end fails its peer cleanly and frees each end once",
  "Destroying one end of a channel detaches it from its peer and wakes a task blocked on either end. "
  "Pending messages can still be read; after that reads and all writes on the surviving end fail instead "
  "of blocking. The memory of an end is released exactly once, after the last operation using it, and is "
  "never touched afterwards.",
  ["schedules", "histories"],
  "every order of destroy relative to blocked and later reads and writes on both ends",
  "Tests destroy idle channels; destroy under a blocked writer is a use-after-free only a particular "
  "order reveals.",
  [K + "itc/hev-task-channel.c"],
  [("reference held across a blocking write", K + "itc/hev-task-channel.c")])

p("C12", "Channel select reports exactly the channels that are ready",
  "Selecting for reading returns a registered channel with a pending message, selecting for writing one "
  "whose next write would not block; if none is ready the caller waits up to the timeout and is woken "
  "when one becomes ready. A channel stays on a ready list exactly while it is ready, at most once, and "
  "removing it from the selector takes it off all lists.",
  ["schedules", "histories", "inputs"],
  "every order of select, add, remove, read and write with any buffer counts",
  "One test selects on a single message; ready-list upkeep at the full and empty edges is not covered.",
  [K + "itc/hev-task-channel-select.c", K + "itc/hev-task-channel-select-private.h",
   K + "itc/hev-task-channel.c", "src/lib/list/hev-list.c"],
  [("ready lists", K + "itc/hev-task-channel-select-private.h")])

p("C13", "The timer is always armed for the earliest sleeper and wakes that task",
  "Whenever tasks sleep, the underlying timer is armed for the earliest expiry among them and its expiry "
  "wakes that sleeper; sleepers are kept in order of expiry. A sleeper that leaves, by expiry or early "
  "wake-up, re-arms the timer for the next one, and when no sleeper is left an expiry wakes nobody. "
  "Expiry times are always valid: the nanosecond part is below one second.",
  ["schedules", "inputs", "histories"],
  "every set of overlapping sleeps with any durations and early wake-ups",
  "Tests sleep in one or two tasks with round durations; a carry at exactly one second or an early "
  "wake-up of the earliest sleeper is never hit.",
  [K + "time/hev-task-timer.c", K + "time/hev-task-timer-timerfd.h", K + "time/hev-task-timer-timerfd.c"],
  [("sorted insert, arm, re-arm", K + "time/hev-task-timer.c")])

p("C14", "Sleep waits the requested time and reports what remains",
  "Sleeping for zero returns immediately; otherwise the task is suspended until the requested time from "
  "now, in the unit asked for and for every representable duration. The result is the unslept rest in "
  "the same unit, zero once the time has passed and never more than was asked for by a wrong sign or "
  "borrow.",
  ["inputs", "schedules"],
  "every duration representable in the argument and every early wake-up",
  "Tests sleep a few fixed times; unit conversion, borrow and overflow of large values are not covered.",
  [K + "task/hev-task.c", K + "time/hev-task-timer.c"],
  [("expiry computation and remaining time", K + "time/hev-task-timer.c")])

IO = "src/lib/io/"
p("C15", "I/O calls suspend only when the kernel says try again and pass results through",
  "A task I/O call (read, write, vector, send, receive, message, accept, connect, and the chained I/O "
  "counterparts) suspends only after the system call failed because it would block, through the caller's "
  "yielder if one is given and the scheduler otherwise, and then repeats the same call with the same "
  "arguments. A yielder that asks to stop makes the call return the documented abort value. In every "
  "other case the call returns exactly the kernel's result without retrying, including what the kernel "
  "reported in a receive message header.",
  ["schedules", "fault_sequences", "inputs"],
  "every errno, every would-block sequence and every yielder decision, for every wrapper",
  "Tests run over healthy sockets: error returns, yielder aborts and repeated would-block are not "
  "exercised per wrapper.",
  [IO + "basic/hev-task-io.c", IO + "socket/hev-task-io-socket.c", "src/lib/cio/base/hev-task-cio.c"],
  [("retry loops", IO + "basic/hev-task-io.c"), ("retry loops", IO + "socket/hev-task-io-socket.c"),
   ("retry loops", "src/lib/cio/base/hev-task-cio.c")])

p("C16", "Exact and wait-all transfers account for every byte",
  "A transfer that must be complete (wait-all socket calls, exact chained reads and writes) continues "
  "each partial step exactly where the previous one stopped, never passes the end of the caller's "
  "buffers, and returns success only when every requested byte was transferred. If it stops early because "
  "of end of file or error it returns the number of bytes already transferred if there are any, else the "
  "step's own result. The caller's vector and its elements are left unmodified, and control data is sent "
  "only once.",
  ["inputs", "fault_sequences"],
  "every split of the transfer into partial steps, every vector layout, stop at every point",
  "Loopback tests transfer small blocks in one step; partial steps across vector boundaries need "
  "particular kernel timing.",
  [IO + "socket/hev-task-io-socket.c", "src/lib/cio/base/hev-task-cio.c"],
  [("offset and vector advance", IO + "socket/hev-task-io-socket.c"),
   ("exact loops", "src/lib/cio/base/hev-task-cio.c")])

p("C17", "Descriptors handed out are non-blocking and never leak on failure",
  "Every descriptor a task I/O constructor returns (open, creat, openat, dup, dup2, socket, socketpair, "
  "accept, pipe) is in non-blocking mode. If making it non-blocking fails, every descriptor the call "
  "created is closed exactly once and a negative value is returned; a descriptor the call did not create "
  "is never closed.",
  ["fault_sequences", "inputs"],
  "every success or failure of each system call inside each constructor",
  "The failing branches need a failing ioctl right after a successful open; tests never take them.",
  [IO + "basic/hev-task-io.c", IO + "socket/hev-task-io-socket.c", IO + "pipe/hev-task-io-pipe.c"],
  [("set non-blocking or close", IO + "socket/hev-task-io-socket.c")])

p("C18", "A failing constructor releases all it acquired and nothing else",
  "Every constructor or initialiser that fails releases each piece of memory, descriptor and registration "
  "it acquired exactly once, and reports failure. One that succeeds has every resource it hands out. "
  "Destructors release each resource exactly once.",
  ["fault_sequences"],
  "a failure injected at every acquisition inside every constructor and initialiser",
  "Tests never see an allocation or system call fail.",
  [K + "core/hev-task-system.c", K + "io/hev-task-io-reactor.c", K + "time/hev-task-timer-timerfd.c",
   K + "task/hev-task.c", K + "itc/hev-task-channel.c", "src/lib/cio/buffer/hev-task-cio-buffer.c",
   "src/lib/dns/hev-task-dns-proxy.c", "src/lib/misc/hev-task-stack-detector.c",
   "src/mem/slice/hev-memory-allocator-slice.c"],
  [("error unwinding", K + "core/hev-task-system.c")])

p("C19", "Splicing forwards all bytes in order until both directions are done",
  "Splicing two endpoints forwards every byte read in one direction to the other side in order, keeps "
  "unsent bytes for the next pass, and counts a direction as finished only when its input ended or failed "
  "with nothing left to send or its output failed. It suspends with a wait only if every unfinished direction "
  "was told to try again, and stops when both directions are finished (either one, for single-descriptor or "
  "chained endpoints) or the yielder asks. It releases its buffers on every exit.",
  ["schedules", "fault_sequences", "configurations"],
  "every pattern of partial reads and writes, would-block and end of file in both directions",
  "Tests splice small amounts in one go; back pressure with data left over at end of file is not reached.",
  [IO + "basic/hev-task-io.c", "src/lib/cio/base/hev-task-cio.c"],
  [("splice step and loop", IO + "basic/hev-task-io.c"), ("chained splice", "src/lib/cio/base/hev-task-cio.c")])

p("C20", "The circular buffer never loses, duplicates or overruns bytes",
  "The readable regions of a circular buffer are exactly the stored bytes in order and the writable "
  "regions exactly the free space, none of them empty and all inside the storage. Completing a write "
  "appends exactly the given number of bytes and completing a read removes exactly that many from the "
  "front. Storage is released when the last reference goes.",
  ["inputs", "histories"],
  "every capacity, fill level, read position and sequence of reads and writes",
  "Two short tests with one capacity; wrap-around edges (full, empty, ending exactly at the end) are not "
  "enumerated.",
  [IO + "buffer/hev-circular-buffer.c"],
  [("region computation", IO + "buffer/hev-circular-buffer.c")])

CIO = "src/lib/cio/"
p("C21", "Chained I/O stages delegate faithfully and pass results and errors up",
  "Each operation of a chained I/O object runs the implementation of its own kind (the system call on its "
  "descriptor, buffering, or discarding), and a stage that delegates calls the same operation of the next "
  "stage with the same data and returns its result. After "
  "a failing operation the stage's error is the error of the system call or stage that failed, so "
  "would-block is recognised at the top of any chain.",
  ["programs", "configurations", "fault_sequences"],
  "every stacking of chained I/O kinds and every failing operation in any stage",
  "Tests stack two fixed chains over healthy sockets; a lost error code hangs or spins only under "
  "back pressure.",
  [CIO + "base/hev-task-cio.c", CIO + "fd/hev-task-cio-fd.c", CIO + "socket/hev-task-cio-socket.c",
   CIO + "buffer/hev-task-cio-buffer.c", CIO + "null/hev-task-cio-null.c"],
  [("class tables", CIO), ("next-stage delegation", CIO + "base/hev-task-cio.c")])

p("C22", "A chain owns its stages: each is destroyed once, closing what it opened",
  "Releasing the last reference of a chain destroys every stage in it that nothing else references exactly "
  "once, releasing the stage's own buffers, descriptors and memory exactly once. Popping a stage destroys that stage only and "
  "returns the rest of the chain intact.",
  ["programs", "histories", "fault_sequences"],
  "every chain depth and order of push, pop, reference and release",
  "Leaks and double closes are invisible to the tests.",
  [CIO + "base/hev-task-cio.c", CIO + "fd/hev-task-cio-fd.c", CIO + "socket/hev-task-cio-socket.c",
   CIO + "buffer/hev-task-cio-buffer.c"],
  [("destructors", CIO)])

p("C23", "The buffering stage neither loses, reorders nor invents bytes",
  "Bytes read through a buffering stage are exactly the bytes of the next stage, in order: what was "
  "buffered is delivered before anything newer, and the result is the number of bytes delivered. Bytes "
  "accepted for writing are either passed on or kept in the buffer in order until flushed, the result "
  "counts exactly the accepted bytes, and peeked bytes stay readable. A request is served as far as the "
  "buffered data or free space allows, whatever the sizes of its pieces.",
  ["inputs", "schedules", "fault_sequences"],
  "every buffer size, request size, partial step and error of the next stage",
  "Tests use requests far smaller than the buffers over a healthy socket pair.",
  [CIO + "buffer/hev-task-cio-buffer.c"],
  [("buffered read / write / flush / peek", CIO + "buffer/hev-task-cio-buffer.c")])

M = "src/mem/"
p("C24", "The slice allocator never hands out live memory or a too small block",
  "A block returned by the slice allocator is at least as large as requested, aligned, and not handed out "
  "again until it is freed. The number of cached blocks never exceeds the configured limit and the cache "
  "books stay consistent: a freed block is either cached once or returned to the system. Resizing keeps "
  "the contents up to the smaller size, and destroying the allocator returns all cached blocks.",
  ["inputs", "histories", "configurations"],
  "every sequence of allocations, frees and resizes of every size, for several allocator limits",
  "The memory tests allocate a few sizes; cache eviction at the limit and size-class edges are not hit.",
  [M + "slice/hev-memory-allocator-slice.c"],
  [("size-class cache and eviction", M + "slice/hev-memory-allocator-slice.c")],
  [("use/cached counts", "blocks in the cache", M + "slice/hev-memory-allocator-slice.c")])

p("C25", "Allocation calls honour size, zeroing and the thread's own allocator",
  "Zeroing allocations return memory whose every requested byte is zero, and an element count times size "
  "that does not fit fails instead of returning a short block. Each allocation, resize and free uses the "
  "calling thread's default allocator if one is set and the plain allocator otherwise. Replacing the "
  "default hands the previous one back to the caller, and an allocator is destroyed when its last "
  "reference goes.",
  ["inputs", "histories", "configurations"],
  "every size and count, with and without a default allocator, on any thread",
  "Tests use small products and one allocator.",
  [M + "api/hev-memory-allocator-api.c", M + "base/hev-memory-allocator.c",
   M + "simple/hev-memory-allocator-simple.c"],
  [("allocator dispatch", M + "api/hev-memory-allocator-api.c")])

p("C26", "Reference counts destroy an object exactly when the last reference goes",
  "Taking a reference adds one, releasing subtracts one, and the object is destroyed at the release that "
  "reaches zero and at no other time; nothing touches it afterwards. For atomically counted objects this "
  "holds when several threads release concurrently, and the destroying thread sees everything the others "
  "did before they released.",
  ["schedules", "histories"],
  "every sequence of ref/unref on tasks, buffers, channels, allocators and objects, on several threads "
  "for the atomic kind",
  "Tests take and drop one reference on one thread.",
  [K + "task/hev-task.c", "src/lib/object/hev-object.c", "src/lib/object/hev-object-atomic.c",
   IO + "buffer/hev-circular-buffer.c", M + "base/hev-memory-allocator.c"],
  [("ref / unref pairs", "src/lib/object/hev-object.c")])

p("C27", "A proxied name lookup answers its own caller and nobody else",
  "A name lookup from a task hands the caller's arguments to the helper thread, suspends until the answer "
  "to that very request has arrived, and returns the lookup's own result and error. Request memory on "
  "either side is not touched after it was given back, and a lookup that cannot be handed over fails "
  "with an error instead of a made-up result.",
  ["schedules", "fault_sequences"],
  "every interleaving of lookups from several tasks with the helper thread, and spurious wake-ups",
  "The DNS test needs a network and is not part of the stable tests; races with the helper thread cannot "
  "be tested deterministically.",
  ["src/lib/dns/hev-task-dns-proxy.c", "src/lib/dns/hev-task-dns.c", K + "aide/hev-task-aide.c"],
  [("request hand-over and wait", "src/lib/dns/hev-task-dns-proxy.c")])

p("C28", "Schedulers on different threads share no unsynchronised mutable state",
  "Each thread that initialises the task system has its own scheduler, allocator, reactor and timer, and "
  "task-level calls touch only the calling thread's. Every process-wide variable the library writes after "
  "start-up is written under a lock, through a once-guard, or with the same value by everyone.",
  ["schedules", "programs"],
  "every number of threads running independent task systems",
  "One test starts two threads without checking isolation; data races do not show in results.",
  [K + "core/hev-task-system.c", K + "aide/hev-task-aide.c", M + "base/hev-memory-allocator.c",
   "src/lib/object/hev-object.c"],
  [("thread-specific context", K + "core/hev-task-system.c"), ("once guards and locks", K + "aide/hev-task-aide.c")])

p("C29", "Task stacks are big enough, aligned, inside their mapping and guarded",
  "A task's stack pointer starts aligned at the upper end of memory of at least the requested size that "
  "belongs to the task alone, with an inaccessible (or watched) area below it if overflow detection is "
  "on. Destroying the stack releases exactly what was acquired. Switching enters the given function "
  "with its object on that stack and comes back to the caller's stack, registers and result.",
  ["inputs", "configurations"],
  "every stack size and every stack back end",
  "An undersized or misaligned stack works until a deep call; tests use the default back end only.",
  [K + "task/hev-task-stack-mmap.c", K + "task/hev-task-stack-heap.c", K + "task/hev-task-call.c",
   K + "task/hev-task.c", "src/arch/x86/hev-task-execute-x86_64.s"],
  [("stack allocation and bounds", K + "task/hev-task-stack-mmap.c")])

p("C30", "Watching a descriptor registers exactly the requested events for that task",
  "Adding or modifying a watched descriptor registers exactly the requested read, write and error "
  "interests, edge-triggered, for the given task on the calling thread's reactor; deleting removes it. A "
  "failing registration is reported as failure and a succeeding one as success. Polling for descriptors "
  "with a time-out watches all of them, waits for that time in total at most, and returns the kernel's "
  "latest answer.",
  ["inputs", "programs", "fault_sequences"],
  "every combination of event flags and every failing registration",
  "Tests register two flag combinations.",
  [K + "io/hev-task-io-reactor-epoll.h", K + "io/hev-task-io-reactor-epoll.c", K + "task/hev-task.c",
   IO + "poll/hev-task-io-poll.c"],
  [("event mapping", K + "io/hev-task-io-reactor-epoll.h")])

p("C31", "The ordered tree keeps its order, links and colours through every change",
  "Inserting, erasing and replacing nodes keep the tree's in-order sequence (plus or minus the node "
  "concerned), keep child and parent links mutually consistent, and keep the number of black nodes equal "
  "on all paths with no red node below a red one. The cached first node is always the leftmost, and "
  "stepping to the next or previous node follows the in-order sequence.",
  ["inputs", "histories"],
  "every tree shape and every sequence of insertions and removals",
  "Tests insert and erase a small random set; single rebalancing cases can stay unvisited.",
  ["src/lib/rbtree/hev-rbtree.c", "src/lib/rbtree/hev-rbtree-cached.c", "src/lib/rbtree/hev-rbtree.h"],
  [("rotations and recolouring", "src/lib/rbtree/hev-rbtree.c")])

p("C32", "System start-up and shut-down are complete and symmetric per thread",
  "Initialising the task system on a thread either succeeds with everything in place or leaves the "
  "thread exactly as before; initialising twice fails without disturbing the running system. Shutting "
  "down releases every part once, in an order in which nothing is used after its release, and leaves the "
  "thread ready to initialise again.",
  ["fault_sequences", "histories"],
  "every failing step of initialisation, repeated init/fini sequences",
  "Tests initialise once and never fail a step.",
  [K + "core/hev-task-system.c", K + "core/hev-task-system-private.h"],
  [("init unwinding and fini order", K + "core/hev-task-system.c")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d) + "\n")
    print(len(P), "properties")
